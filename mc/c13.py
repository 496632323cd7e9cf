"""C13: triangle meshes as surfaces: measures, clipping, extrusion, files; closed curves"""
import itertools
import math
import os
import shutil
import tempfile

import numpy as np

from mc import gen, ref, scales, topo
from mc.c10 import compact, delaunay, orient, warp
from mc.harness import Space, require
from pycomplex.complex.cubical import ComplexCubical1Euclidian2
from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3

PROPERTY = 'C13'
ASSUMPTIONS = ['surfaces are compared through their area, vector area and first and second moments (integrals of all polynomials up to degree two), to 1e-9 relative',
               'edges belong to at most two triangles; clipping planes through vertices may leave triangles of zero area',
               'files are written in a scratch directory only']


def close(a, b, scale=1.0, tol=1e-9):
    return np.shape(a) == np.shape(b) and (np.size(a) == 0 or np.abs(np.asarray(a) - np.asarray(b)).max() <= tol * max(scale, 1))


def vector_area(P):
    """of a polygon [n, d]; d = 2 or 3"""
    P = np.asarray(P, dtype=float)
    if P.shape[1] == 2:
        P = np.concatenate([P, np.zeros((len(P), 1))], axis=1)
    return sum((np.cross(P[i] - P[0], P[i + 1] - P[0]) / 2 for i in range(1, len(P) - 1)), np.zeros(3))


def moments(polygons, d):
    """integrals of 1, x, xx over the surface, and of the normal times 1, x"""
    area, first, second = 0.0, np.zeros(d), np.zeros((d, d))
    flux, flux1 = np.zeros(3), np.zeros((3, d))
    for P in polygons:
        P = np.asarray(P, dtype=float)
        for i in range(1, len(P) - 1):
            T = P[[0, i, i + 1]]
            n = vector_area(T)
            a = np.linalg.norm(n)
            c = T.mean(axis=0)
            area += a
            first += a * c
            second += a * (np.einsum('ij,ik->jk', T, T) + 9 * np.outer(c, c)) / 12
            flux += n
            flux1 += np.outer(n, c)
    return np.concatenate([[area], first, second.ravel(), flux, flux1.ravel()])


def half(P, support, direction, sign):
    """the part of a polygon at one side of a plane (own, Sutherland-Hodgman)"""
    out = []
    h = [sign * float(np.dot(p - support, direction)) for p in P]
    for i in range(len(P)):
        j = (i + 1) % len(P)
        if h[i] <= 0:
            out.append(P[i])
        if (h[i] < 0 < h[j]) or (h[j] < 0 < h[i]):
            t = h[i] / (h[i] - h[j])
            out.append(P[i] + t * (P[j] - P[i]))
    return np.array(out).reshape(-1, P.shape[1])


def outline(polygons):
    """total length and first moment of the edges that belong to a single polygon"""
    X = np.concatenate(polygons)
    same = np.abs(X[:, None] - X[None]).max(axis=-1) < 1e-7 * (1 + np.abs(X).max())
    label = same.argmax(axis=1)
    count, i = {}, 0
    for P in polygons:
        k = label[i:i + len(P)].tolist()
        i += len(P)
        for a, b in zip(k, k[1:] + k[:1]):
            if a != b:
                count[frozenset((a, b))] = count.get(frozenset((a, b)), 0) + 1
    total = np.zeros(1 + X.shape[1])
    for e, n in count.items():
        if n == 1:
            a, b = [X[j] for j in e]
            length = np.linalg.norm(a - b)
            total += np.concatenate([[length], length * (a + b) / 2])
    return total


def outline_of(V, T):
    """the same, from the vertex numbers of triangles"""
    E = np.sort(np.concatenate([T[:, [0, 1]], T[:, [1, 2]], T[:, [2, 0]]]), axis=1)
    E, n = np.unique(E, axis=0, return_counts=True)
    require(n.max() <= 2, 'clip edges of more than two triangles')
    E = E[n == 1]
    length = np.linalg.norm(V[E[:, 0]] - V[E[:, 1]], axis=1)
    return np.concatenate([[length.sum()], (length[:, None] * V[E].mean(axis=1)).sum(axis=0)])


def check_clip(c, V, cells, support, direction, rec):
    d = V.shape[1]
    scale = np.abs(V).max() ** 2 + 1
    h = (V - support) @ np.asarray(direction, dtype=float)
    if ((np.abs(h) > 0) & (np.abs(h) < 1e-9 * scale * np.abs(direction).max())).any():
        return      # rounding decides the side of a vertex
    polygons = list(V[cells])
    below = [P for P in (half(P, support, direction, +1) for P in polygons) if len(P) > 2 and np.linalg.norm(vector_area(P)) > 1e-12 * scale]
    above = [P for P in (half(P, support, direction, -1) for P in polygons) if len(P) > 2 and np.linalg.norm(vector_area(P)) > 1e-12 * scale]
    keep = c.vertices.copy()
    cut = c.clip(support, direction, clip=False)
    rec.step(2)
    rec.trace(2)
    flat = [P for P in polygons if (np.abs((P - support) @ np.asarray(direction, dtype=float)) == 0).all()]
    for what, m, parts in (('split', cut, below + ([P for P in above if not any(P is q or (P.shape == q.shape and (P == q).all()) for q in flat)])), ('clip', None, below)):
        if what == 'clip':
            if not below:
                try:
                    m = c.clip(support, direction)
                    require(np.abs(moments(m.vertices[m.topology.triangles], d)).max() < 1e-9 * scale, 'clip leaves something')
                except (ValueError, IndexError, AssertionError):
                    pass
                rec.outcome('nothing left')
                continue
            m = c.clip(support, direction)
        require(type(m) is type(c), what + ' type')
        T = m.topology.triangles
        X = m.vertices
        require(np.isfinite(X).all(), what + ' not finite')
        require(len(np.unique(T)) == len(X), what + ' loose vertices')
        require(close(moments(X[T], d), moments(parts, d), scale ** 2), what + ' covers another surface', lambda: '{} {}: {} instead of {}'.format(support, direction, moments(X[T], d).round(6), moments(parts, d).round(6)))
        g = (X[T] - support) @ np.asarray(direction, dtype=float)
        tol = 1e-9 * scale * np.abs(direction).max()
        require(((g <= tol).all(axis=1) | (g >= -tol).all(axis=1)).all(), what + ' leaves triangles across the plane')
        if what == 'clip':
            require(g.max() <= tol, 'clip leaves something beyond the plane')
        if (h == 0).any():      # triangles of zero area may line the cut
            own = outline([x for x in X[T] if np.linalg.norm(vector_area(x)) > 1e-12 * scale])
        else:
            own = outline_of(X, T)
        require(close(own, outline(parts), scale ** 2, 1e-6), what + ' has another outline', lambda: '{} {}: {} instead of {}'.format(support, direction, own, outline(parts)))
        # triangles keep their orientation
        require(m.topology.is_oriented == c.topology.is_oriented or what == 'clip', what + ' orientation')
    require(np.array_equal(c.vertices, keep), 'clip changes its source')
    rec.outcome('cut' if below and above else 'whole')


def own_measures(V, cells):
    T = V[cells]
    E = np.roll(T, 1, axis=1) - np.roll(T, -1, axis=1)      # edge i opposite to corner i
    l2 = (E ** 2).sum(axis=-1)
    area = np.array([np.linalg.norm(vector_area(t)) for t in T])
    cos = (np.roll(l2, 1, axis=1) + np.roll(l2, -1, axis=1) - l2) / 2 / np.sqrt(np.roll(l2, 1, axis=1) * np.roll(l2, -1, axis=1))
    cot = (np.roll(l2, 1, axis=1) + np.roll(l2, -1, axis=1) - l2) / (4 * area[:, None])
    return area, np.arccos(np.clip(cos, -1, 1)), cot


def check_measures(c, V, cells, rec):
    """anything measured on a triangle mesh in any dimension, and in three dimensions"""
    t = c.topology
    d = V.shape[1]
    scale = np.abs(V).max() ** 2 + 1
    area, angles, cot = own_measures(V, cells)
    rec.trace()
    # the library keeps cells in order, but may choose its own order of corners
    T = t.triangles
    require(np.array_equal(np.sort(T, axis=1), np.sort(cells, axis=1)), 'cells')
    where = np.array([[row.tolist().index(v) for v in own] for own, row in zip(T, cells)])
    angles, cot = np.take_along_axis(angles, where, 1), np.take_along_axis(cot, where, 1)
    require(close(c.compute_triangle_areas, area, scale), 'triangle areas')
    require(close(c.compute_triangle_angles, angles, 1, 1e-6), 'triangle angles', lambda: '{} {}'.format(c.compute_triangle_angles, angles))
    third = np.zeros(len(V))
    np.add.at(third, T, np.repeat(area[:, None], 3, axis=1) / 3)
    require(close(c.compute_vertex_areas, third, scale), 'vertex areas')
    pairs = {frozenset(e): i for i, e in enumerate(t.edges.tolist())}
    ratio = np.zeros(len(pairs))
    for row, k in zip(T.tolist(), cot):
        for i in range(3):
            ratio[pairs[frozenset(row[:i] + row[i + 1:])]] += k[i] / 2
    if angles.min() > 1e-3:
        require(close(c.compute_edge_ratio, ratio, 1 + np.abs(ratio).max(), 1e-6), 'edge ratio', lambda: '{} {}'.format(c.compute_edge_ratio, ratio))
    rec.step(4)
    if d != 3:
        return
    normal = np.array([vector_area(t) for t in V[cells]])
    require(close(c.triangle_normals(), 2 * normal, scale), 'triangle normals')
    require(close(c.triangle_centroids(), V[cells].mean(axis=1), scale), 'triangle centroids')
    around = np.zeros((len(V), 3))
    for k in range(3):
        np.add.at(around, T[:, k], 2 * normal)
    require(close(c.vertex_normals(), around, scale), 'vertex normals')
    require(close(c.vertex_areas(), third, scale), 'vertex areas of surface', lambda: '{} {}'.format(c.vertex_areas(), third))
    require(close(c.area(), area.sum(), scale), 'area')
    require(close(c.edge_lengths(), np.array([np.linalg.norm(V[a] - V[b]) for a, b in t.edges]), scale), 'edge lengths')
    rec.step(6)
    count = np.zeros(len(pairs), dtype=int)
    sign = np.zeros(len(pairs), dtype=int)
    for row in cells.tolist():
        for a, b in ((row[0], row[1]), (row[1], row[2]), (row[2], row[0])):
            count[pairs[frozenset((a, b))]] += 1
            sign[pairs[frozenset((a, b))]] += 1 if a < b else -1
    if (count == 2).all() and not sign.any():
        dets = np.linalg.det(V[cells])
        volume = dets.sum() / 6
        big = scale ** 1.5
        require(close(c.volume(), volume, big), 'volume', lambda: '{} {}'.format(c.volume(), volume))
        rec.outcome('closed')
        # the vertex normals are the gradient of the volume, six fold
        for i in range(len(V)):
            for k in range(3):
                X = V[:, :].copy()
                X[i, k] += 1
                up = np.linalg.det(X[cells]).sum() / 6
                require(close(c.vertex_normals()[i, k] / 6, up - volume, big), 'vertex normals are no gradient')
        if abs(volume) > 1e-9:
            com = (dets[:, None] * V[cells].sum(axis=1) / 4).sum(axis=0) / 6 / volume
            require(close(c.center_of_mass(), com, scale), 'center of mass', lambda: '{} {}'.format(c.center_of_mass(), com))
            for v in ([0.5, -0.25, 0.125], [10, -20, 5]):
                m = c.translate(v)
                require(close(m.volume(), volume, scale * 1e4), 'volume moved')
                require(close(m.center_of_mass(), com + v, scale * 1e3), 'center of mass moved', lambda: '{} {}'.format(m.center_of_mass(), com + v))
                rec.step(2)
            rec.outcome('solid')


def save_load(c, V, cells, rec):
    d = tempfile.mkdtemp(prefix='mc-c13-')
    try:
        path = os.path.join(d, 'mesh.stl')
        c.save_STL(path)
        with open(path, 'rb') as f:
            raw = f.read()
        require(len(raw) == 84 + 50 * len(cells), 'stl size', lambda: str(len(raw)))
        require(int.from_bytes(raw[80:84], 'little') == len(cells), 'stl count')
        rows = np.frombuffer(raw[84:], dtype=np.dtype([('n', '<f4', (3,)), ('v', '<f4', (3, 3)), ('a', '<u2')]))
        F = V.astype(np.float32)[cells]
        for row, f in zip(rows, F):
            require(any(np.array_equal(np.roll(row['v'], k, axis=0), f) for k in range(3)), 'stl corners')
            n = vector_area(f)
            if np.linalg.norm(n) > 0:
                thin = np.abs(f).max() * np.abs(f - f[[1, 2, 0]]).max() / np.linalg.norm(n)
                require(np.abs(row['n'] - n / np.linalg.norm(n)).max() < 1e-6 * (10 + thin), 'stl normals')
        m = type(c).load_STL(path)
        require(type(m) is type(c), 'stl type')
        L = m.vertices[m.topology.triangles]
        require(L.shape == F.shape, 'stl triangles')
        for a, b in zip(L, F):
            require(any(np.array_equal(np.roll(a, k, axis=0), b) for k in range(3)), 'stl loaded corners')
        require(len(np.unique(m.vertices, axis=0)) == len(m.vertices) == len(np.unique(F.reshape(-1, 3), axis=0)), 'stl vertices')
        require(m.topology.is_oriented == c.topology.is_oriented and m.topology.is_closed == c.topology.is_closed, 'stl topology')
        rec.step(2)
        rec.trace()
        rec.outcome('stl')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_extrude(c, V, cells, rec):
    t = c.topology
    n = len(V)
    edges = {}
    for row in cells.tolist():
        for a, b in ((row[0], row[1]), (row[1], row[2]), (row[2], row[0])):
            edges.setdefault(frozenset((a, b)), []).append((a, b))
    rim = [e[0] for e in edges.values() if len(e) == 1]
    oriented = all(len(e) == 1 or (len(e) == 2 and e[0] == e[1][::-1]) for e in edges.values())
    if not rim or not oriented:
        try:
            c.extrude(c.copy(vertices=V + [0, 0, 1]))
        except (AssertionError, ValueError):
            rec.outcome('not extruded')
            return
        require(False, 'extrude accepts a mesh it cannot extrude')
    starts = [a for a, b in rim]
    if len(set(starts)) < len(starts):
        rec.outcome('pinched')
        return
    total = sum(vector_area(p) for p in V[cells])
    for move in ([0, 0, 1], [0.5, 0.25, 2], [0.25, 0, -1]):
        other = c.copy(vertices=V + np.array(move))
        s = c.extrude(other)
        rec.step()
        rec.trace()
        require(type(s) is type(c), 'extrude type')
        require(np.array_equal(s.vertices, np.concatenate([V, other.vertices])), 'extrude vertices')
        T = s.topology.triangles.tolist()
        require(len(T) == 2 * len(cells) + 2 * len(rim), 'extrude triangles')

        def cyc(row):
            k = row.index(min(row))
            return tuple(row[k:] + row[:k])
        own = {cyc(row) for row in T}
        for row in cells.tolist():
            require(cyc(row) in own, 'extrude loses its base')
            require(cyc([v + n for v in row[::-1]]) in own, 'extrude loses its top')
        directed = [(a, b) for row in T for a, b in ((row[0], row[1]), (row[1], row[2]), (row[2], row[0]))]
        every = set(directed)
        require(len(every) == len(directed) and all((b, a) in every for a, b in directed), 'extrude not closed')
        require(s.topology.is_closed and s.topology.is_oriented, 'extrude topology')
        volume = np.linalg.det(s.vertices[s.topology.triangles]).sum() / 6
        require(abs(volume + np.dot(total, move)) < 1e-9 * (1 + np.abs(V).max() ** 3), 'extrude volume', lambda: '{} {}'.format(volume, -np.dot(total, move)))
        require(abs(s.volume() - volume) < 1e-9 * (1 + np.abs(V).max() ** 3), 'volume')
    if t.n_elements[2] < 6:
        # a deformed copy
        s = c.extrude(c.copy(vertices=V * [1.5, 0.75, 1] + [0, 0, 2]))
        require(s.topology.is_closed and s.topology.is_oriented, 'extrude topology')
    rec.outcome('extruded')


# --- planar and lifted meshes

def turned(cells):
    """corner orders of the cells: all rotations, all mirror images"""
    for r in itertools.product(range(3), repeat=len(cells)):
        for m in (0, 1):
            out = np.array([np.roll(c, k) for c, k in zip(cells, r)])
            yield out[:, ::-1] if m else out


def planes(V, cells, d, few):
    points = [p for p in V] + [V[cells[0][:2]].mean(axis=0), V.mean(axis=0) + 0.0703, V.max(axis=0) + 3, V.min(axis=0) - 3]
    if d == 2:
        dirs = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (2, -1), (-1, -3)]
    else:
        dirs = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (1, 1, 0), (0, 1, -1), (-1, 0, -1), (1, -2, 3), (-1, -1, -1)]
    # planes through edges and triangles
    for row in cells.tolist()[:2]:
        e = V[row[1]] - V[row[0]]
        if d == 2:
            dirs.append((e[1], -e[0]))
        else:
            dirs.append(tuple(np.cross(e, V[row[2]] - V[row[0]])))
    if few:
        points, dirs = points[:1] + points[-4:-2], dirs[few % len(dirs)::3]
    for p in points:
        for q in dirs:
            yield p, q


def submeshes(V):
    """all sets of triangles of a Delaunay triangulation"""
    cells = delaunay(V)
    if not len(cells):
        return
    cells = orient(V, cells)
    n = len(cells)
    for r in range(1, n + 1) if n < 5 else (1, n - 1, n):
        for sub in itertools.combinations(range(n), r):
            v, t, _ = compact(V, cells[list(sub)])
            yield v, t


def cases_meshes(tier):
    spec = [(3, 3, 12), (4, 3, 16)] if tier == 'quick' else [(3, 4, 24), (4, 4, 64), (5, 4, 256), (6, 3, 64), (7, 3, 64)]
    for m, size, chunks in spec:
        for k in range(chunks):
            for square in (0, 1):
                yield [m, size, k, chunks, square]


def check_meshes(case, rec):
    m, size, k, chunks, square = case
    L = warp(2, size)
    if square:
        L = np.round(L * 64) / 64       # exactly representable
    j = 0
    for i, s in enumerate(itertools.combinations(range(len(L)), m)):
        if i % chunks != k:
            continue
        for v, t in submeshes(L[list(s)]):
            rec.state(size, s, t.tolist())
            j += 1
            for o, cells in enumerate(turned(t) if len(t) == 1 or (len(t) == 2 and j % 4 == 0) else ([t] if j % 2 else [t[:, [1, 0, 2]], t[::-1]])):
                cells = np.array(cells)
                cls = ComplexTriangularEuclidian2 if j % 2 else ComplexTriangularEuclidian
                c = cls(v, triangles=cells)
                check_measures(c, v, cells, rec)
                for p, q in planes(v, cells, 2, 0 if m == 3 and o == i % 6 else j + o):
                    check_clip(c, v, cells, p, q, rec)
                # lifted
                for lift in [[[0, 0, 0], [1, 0, 0.5], [0, 2, 1]][(j + o + j // 3) % 3]]:
                    x = np.concatenate([v, np.array([lift[a % 3] for a in range(len(v))])[:, None]], axis=1)
                    c = ComplexTriangularEuclidian3(x, triangles=cells)
                    check_measures(c, x, cells, rec)
                    check_extrude(c, x, cells, rec)
                    if (j + o) % 3 == 0:
                        save_load(c, np.round(x * 64) / 64 if not square else x, cells, rec) if square else None
                        for p, q in planes(x, cells, 3, j + o):
                            check_clip(c, x, cells, p, q, rec)
            if len(t) > 1:
                # not oriented
                cells = t.copy()
                cells[0] = cells[0][::-1]
                c = ComplexTriangularEuclidian(v, triangles=cells)
                check_measures(c, v, cells, rec)
                for p, q in planes(v, cells, 2, j):
                    check_clip(c, v, cells, p, q, rec)
                x = np.concatenate([v, v[:, :1] * 0], axis=1)
                c = ComplexTriangularEuclidian3(x, triangles=cells)
                check_measures(c, x, cells, rec)
                check_extrude(c, x, cells, rec)


# --- closed and open surfaces in space

def surfaces():
    out = {}
    out['tetrahedron'] = (np.array([[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2.0]]), [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]])
    out['octahedron'] = (np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.0]]),
                         [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])
    quads = [[0, 1, 3, 2], [4, 6, 7, 5], [0, 4, 5, 1], [2, 3, 7, 6], [0, 2, 6, 4], [1, 5, 7, 3]]
    cube = np.array(list(itertools.product((0, 1.0), repeat=3)))
    out['cube'] = (cube, [t for a, b, c, d in quads for t in ((a, b, c), (a, c, d))])
    # a notched block: an L in the plane, extruded by hand; its centre of mass is near its skin
    L = np.array([[0, 0], [2, 0], [2, 1], [1, 1], [1, 2], [0, 2.0]])
    caps = [[0, 1, 3], [1, 2, 3], [0, 3, 5], [3, 4, 5]]
    V = np.concatenate([np.c_[L, 0 * L[:, 0]], np.c_[L, 0 * L[:, 0] + 1]])
    T = [[a, c, b] for a, b, c in caps] + [[a + 6, b + 6, c + 6] for a, b, c in caps]
    for i in range(6):
        j = (i + 1) % 6
        T += [[i, j, j + 6], [i, j + 6, i + 6]]
    out['notched'] = (V, T)
    # a torus of 3 x 4
    n, m = 3, 4
    V = np.array([[(3 + math.cos(2 * math.pi * j / m)) * math.cos(2 * math.pi * i / n), (3 + math.cos(2 * math.pi * j / m)) * math.sin(2 * math.pi * i / n), math.sin(2 * math.pi * j / m)]
                  for i in range(n) for j in range(m)])
    V = np.round(V * 256) / 256
    f = lambda i, j: (i % n) * m + j % m
    T = []
    for i in range(n):
        for j in range(m):
            T += [[f(i, j), f(i + 1, j), f(i + 1, j + 1)], [f(i, j), f(i + 1, j + 1), f(i, j + 1)]]
    out['torus'] = (V, T)
    # two pieces
    V, T = out['tetrahedron']
    out['two'] = (np.concatenate([V, V * 0.5 + 5]), T + [[a + 4, b + 4, c + 4] for a, b, c in T])
    return {k: (v, np.array(t)) for k, (v, t) in out.items()}


MATRICES = [np.eye(3), np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0.0]]), np.array([[1, 0.5, 0], [0, 2, 0], [0.25, 0, 1]]), np.diag([-1, 1, 1.0])]


def cases_surfaces(tier):
    for name, (v, t) in surfaces().items():
        for m in range(len(MATRICES)):
            for shift in range(3):
                for rot in range(3 if tier == 'quick' else 6):
                    yield [name, m, shift, rot]
    for name, (v, t) in surfaces().items():
        n = len(t)
        for r in (1, 2) if tier == 'quick' or n > 16 else (1, 2, 3, 4):
            if r > 1 and n > (8 if tier == 'quick' else 24):
                continue
            for sub in itertools.combinations(range(n), r):
                yield [name, 0, 0, 0, list(sub)]
    # every corner order of a tetrahedron
    for j, r in enumerate(itertools.product(range(3), repeat=4)):
        yield ['tetrahedron', j % 4, j % 3, list(r)]
        yield ['tetrahedron', j % 4, (j + 1) % 3, [x + 3 for x in r]]


def check_surfaces(case, rec):
    name, m, shift, rot = case[:4]
    drop = case[4] if len(case) > 4 else []
    v, t = surfaces()[name]
    v = v @ MATRICES[m] + np.array([[0, 0, 0], [-0.5, 0.25, -1], [10, -20, 30]])[shift]
    rots = [(i * rot) % 3 + 3 * (rot // 3) for i in range(len(t))] if not isinstance(rot, list) else rot
    cells = np.array([np.roll(c[::-1] if k >= 3 else c, k % 3) for c, k in zip(t, rots)])
    cells = np.delete(cells, drop, axis=0)
    v, cells, _ = compact(v, cells)
    rec.state(name, m, shift, rot, drop)
    c = ComplexTriangularEuclidian3(v, triangles=cells)
    check_measures(c, v, cells, rec)
    check_extrude(c, v, cells, rec)
    if m != 2 or name != 'torus':
        save_load(c, v, cells, rec)
    for p, q in planes(v, cells, 3, 0 if len(cells) < 9 and not drop else 1 + len(drop) + rots[0]):
        check_clip(c, v, cells, p, q, rec)
    # repeated clipping: a wedge
    first = c.clip(v.mean(axis=0) + 0.0703, (1, 0.3, 0.2))
    second = first.clip(v.mean(axis=0) - 0.0391, (-0.2, 1, 0.1))
    parts = [half(P, v.mean(axis=0) + 0.0703, (1, 0.3, 0.2), 1) for P in v[cells]]
    parts = [half(P, v.mean(axis=0) - 0.0391, (-0.2, 1, 0.1), 1) for P in parts if len(P) > 2]
    scale = np.abs(v).max() ** 4 + 1
    require(close(moments(second.vertices[second.topology.triangles], 3), moments([P for P in parts if len(P) > 2], 3), scale), 'clip twice')
    rec.step(2)


# --- closed curves in the plane

def cases_curves(tier):
    for size in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6):
        yield ['polygon', size]


def check_curves(case, rec):
    """all closed polygons on a 3 x 3 lattice, in every direction of their edges that is consistent, in any order"""
    n = case[1]
    L = np.array(list(itertools.product(range(3), repeat=2)), dtype=float)
    for s in itertools.permutations(range(9), n):
        if s[0] != min(s):
            continue
        V = L[list(s)] * [1, 0.5] + [0.25, -3]
        rec.state(*s)
        area = vector_area(V)[2]
        E = np.array([[i, (i + 1) % n] for i in range(n)])
        values = []
        for order in (range(n), [(i * 2) % n if n % 2 else n - 1 - i for i in range(n)]):
            c = ComplexCubical1Euclidian2(vertices=V, cubes=E[list(order)])
            values.append(c.volume())
            b = ComplexCubical1Euclidian2(vertices=V, cubes=E[list(order)][:, ::-1])
            require(close(b.volume(), -values[-1], 10), 'volume of reversed curve')
        rec.step(4)
        require(close(abs(values[0]), abs(area), 10) and close(values[0], values[1], 10), 'volume of curve', lambda: '{} {} {}'.format(s, values, area))
        require(close(values[0], area, 10), 'sign of volume of curve', lambda: '{} {}'.format(values[0], area))
        open_ = ComplexCubical1Euclidian2(vertices=V, cubes=E[:-1])
        try:
            open_.volume()
            require(False, 'volume of open curve')
        except ValueError:
            pass
        rec.trace()


# --- more triangles and vertices than 16 bits can count

def lattice_mesh(n, m, closed):
    """(vertices, triangles) of a curved rectangle, or of a torus, in an order that is not that of the rows"""
    i, j = np.indices((n, m)).reshape(2, -1)
    if closed:
        a, b = 2 * np.pi * i / n, 2 * np.pi * j / m
        V = np.array([(3 + np.cos(b) * (1 + 0.2 * np.sin(2 * a))) * np.cos(a), (3 + np.cos(b)) * np.sin(a), np.sin(b) + 0.1 * np.cos(a)]).T + [0.3, 0.2, -0.1]
        I, J = np.indices((n, m)).reshape(2, -1)
    else:
        V = np.array([i / n + 0.1 * np.sin(j / m * 5) / n, j / m, 0.2 * np.sin(i / n * 7) * np.cos(j / m * 3)]).T * 10
        I, J = np.indices((n - 1, m - 1)).reshape(2, -1)
    f = lambda a, b: (a % n) * m + b % m
    T = np.concatenate([np.array([f(I, J), f(I + 1, J), f(I, J + 1)]).T, np.array([f(I + 1, J + 1), f(I, J + 1), f(I + 1, J)]).T])
    order = np.argsort(np.cos(np.arange(len(V)) * 2.3))       # renumber
    new = np.empty_like(order)
    new[order] = np.arange(len(V))
    T = new[T][np.argsort(np.sin(np.arange(len(T)) * 1.7))]
    return V[order], np.array([np.roll(t, k % 3) for k, t in enumerate(T)])


def check_large_clip(c, V, T, support, direction, rec):
    """numbers of elements, area and first moment of what is left of triangles in general position"""
    h = (V - support) @ direction
    require((np.abs(h) > 1e-10).all(), 'harness', lambda: 'vertices on the plane')
    H, X = h[T], V[T]
    area = np.linalg.norm(np.cross(X[:, 1] - X[:, 0], X[:, 2] - X[:, 0]), axis=1) / 2
    moment = area[:, None] * X.mean(axis=1)
    side = (H < 0).sum(axis=1)
    # the corner on its own side, first
    lone = np.where(side == 1, (H < 0).argmax(axis=1), (H > 0).argmax(axis=1))
    turn = (lone[:, None] + np.arange(3)) % 3
    Hr, Xr = np.take_along_axis(H, turn, 1), np.take_along_axis(X, turn[:, :, None], 1)
    mixed = (side == 1) | (side == 2)
    with np.errstate(all='ignore'):
        f = Hr[:, :1] / (Hr[:, :1] - Hr[:, 1:])
    corner = np.concatenate([Xr[:, :1], Xr[:, :1] + f[:, :, None] * (Xr[:, 1:] - Xr[:, :1])], axis=1)
    small = np.linalg.norm(np.cross(corner[:, 1] - corner[:, 0], corner[:, 2] - corner[:, 0]), axis=1) / 2
    small_moment = small[:, None] * corner.mean(axis=1)
    below = area[side == 3].sum() + small[side == 1].sum() + (area - small)[side == 2].sum()
    first = moment[side == 3].sum(axis=0) + small_moment[side == 1].sum(axis=0) + (moment - small_moment)[side == 2].sum(axis=0)
    edges = np.unique(np.sort(T[:, [[0, 1], [1, 2], [2, 0]]].reshape(-1, 2), axis=1), axis=0)
    crossed = (h[edges[:, 0]] < 0) != (h[edges[:, 1]] < 0)
    for clip, total, m1, n_vertices, n_triangles in (
            (True, below, first, (h < 0).sum() + crossed.sum(), (side == 3).sum() + (side == 1).sum() + 2 * (side == 2).sum()),
            (False, area.sum(), moment.sum(axis=0), len(V) + crossed.sum(), len(T) + 2 * mixed.sum())):
        m = c.clip(support, direction, clip=clip)
        rec.step()
        rec.trace()
        what = 'large clip' if clip else 'large split'
        Y, R = m.vertices, m.topology.triangles
        require(len(Y) == n_vertices and len(np.unique(R)) == n_vertices, what + ' vertices', lambda: '{} instead of {}'.format(len(Y), n_vertices))
        require(len(R) == n_triangles, what + ' triangles', lambda: '{} instead of {}'.format(len(R), n_triangles))
        y = Y[R]
        a = np.linalg.norm(np.cross(y[:, 1] - y[:, 0], y[:, 2] - y[:, 0]), axis=1) / 2
        require(close(a.sum(), total, total) and close((a[:, None] * y.mean(axis=1)).sum(axis=0), m1, total * 10), what + ' covers another surface')
        require(m.topology.is_oriented, what + ' orientation')
        g = (y - support) @ direction
        require(((g < 1e-9).all(axis=1) | (g > -1e-9).all(axis=1)).all(), what + ' leaves triangles across the plane')
        if clip:
            require(g.max() < 1e-9, what + ' leaves something beyond the plane')
    rec.outcome('large clip')


def cases_large(tier):
    for n, m in ((100, 70), (190, 192)) if tier == 'quick' else ((100, 70), (190, 192), (270, 260)):
        for what in ('measures', 'extrude', 'stl', 'clip', 'closed', 'closed clip'):
            yield [n, m, what]


def check_large(case, rec):
    n, m, what = case
    V, T = lattice_mesh(n, m, what.startswith('closed'))
    c = ComplexTriangularEuclidian3(vertices=V, triangles=T)
    rec.state(case)
    if what == 'measures':
        check_measures(c, V, T, rec)
    elif what == 'extrude':
        check_extrude(c, V, T, rec)
    elif what == 'stl':
        save_load(c, V, T, rec)
    elif what == 'closed':
        require(c.topology.is_closed and c.topology.is_oriented, 'large closed')
        X = V[T]
        dets = np.linalg.det(X)
        area = np.linalg.norm(np.cross(X[:, 1] - X[:, 0], X[:, 2] - X[:, 0]), axis=1) / 2
        require(close(c.volume(), dets.sum() / 6, 100), 'large volume')
        require(close(c.center_of_mass(), (dets[:, None] * X.sum(axis=1) / 4).sum(axis=0) / dets.sum(), 10), 'large center of mass')
        require(close(c.area(), area.sum(), 100), 'large area')
        third = np.bincount(T.ravel(), np.repeat(area / 3, 3))
        require(close(c.vertex_areas(), third) and close(c.compute_vertex_areas, third), 'large vertex areas')
        rec.step(4)
        rec.trace()
    else:
        mid = V.mean(axis=0)
        for direction in ([1, 0.3, 0.2], [-0.4, 1, 0.7], [0.01, -0.02, 1]):
            check_large_clip(c, V, T, mid + [0.00123, 0.00217, 0.0004], np.array(direction), rec)


SPACES = [
    Space('units', *scales.space(['plane', 'surface', 'closed'], scales.surface), 'measures, clipping and extrusion of meshes on 3-4 (5) points of a warped lattice, closed surfaces, each in seven units from 2^-40 to 2^40', chunk=1, expect=['scaled']),
    Space('arrays', *scales.arrays_space(['plane', 'surface', 'closed'], scales.surface), 'measures, clipping and extrusion of the same meshes with whole coordinates, made and asked with the same numbers in arrays of 6 layouts and 8 types of integer', chunk=1, expect=['same']),
    Space('large', cases_large, check_large, 'a curved rectangle and a torus of 14 and 72 (140) thousand triangles, in a scattered numbering: measures, clipping planes in three directions, extrusion, files', chunk=1, expect=['stl', 'extruded', 'large clip']),
    Space('meshes', cases_meshes, check_meshes, 'all sets of triangles of the Delaunay triangulations of all 3-5 (7) point subsets of a warped lattice, flat and lifted: measures, all clipping planes of a family, extrusion, files', chunk=1, expect=['cut', 'whole', 'nothing left', 'extruded', 'not extruded', 'stl']),
    Space('surfaces', cases_surfaces, check_surfaces, 'six closed surfaces, moved, mirrored and deformed, in several corner orders, and with one or two (four) triangles taken out', chunk=2, expect=['closed', 'solid', 'cut', 'extruded', 'not extruded', 'stl']),
    Space('curves', cases_curves, check_curves, 'all closed polygons of 3-5 (6) corners on a 3x3 lattice', chunk=1),
]
