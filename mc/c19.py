"""C19: velocities of dual fluxes"""
import itertools

import numpy as np

from mc import scales, topo
from mc.c09 import centre, index_of, reference, regular_reference
from mc.c10 import bcc, compact, delaunay, hull, orient, sphere_points, usable, warp
from mc.c11 import grid, symmetries
from mc.c11 import build as build_regular
from mc.harness import Space, require
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian, ComplexTriangularEuclidian3
from pycomplex.complex.simplicial.spherical import ComplexCircular, ComplexSpherical2

PROPERTY = 'C19'
ASSUMPTIONS = ['the dual derivative maps values at dual vertices to their differences (C02, C04)',
               'metrics of spherical complexes are those of the complex (C09)']
TOL = 1e-8


def inward(V, cells):
    """[cell, corner, dim]: gradient of the volume of the cell with respect to the corner, from its height"""
    N = cells.shape[1] - 1
    X = V[cells]
    out = np.zeros(X.shape)
    for i in range(N + 1):
        rest = np.delete(np.arange(N + 1), i)
        base = X[:, rest[1:]] - X[:, rest[:1]]            # [cell, N-1, dim]
        h = X[:, i] - X[:, rest[0]]
        if N > 1:
            G = base @ np.swapaxes(base, 1, 2)
            w = np.linalg.solve(G, np.einsum('cnd,cd->cn', base, h)[..., None])[..., 0]
            h = h - np.einsum('cn,cnd->cd', w, base)
            size = np.sqrt(np.linalg.det(G)) / (1 if N == 2 else 2 if N == 3 else 6)
        else:
            size = np.ones(len(X))
        out[:, i] = h / np.linalg.norm(h, axis=1, keepdims=True) * size[:, None]
    return out


def derivative(t):
    """own dual gradient as a dense matrix: flux = D @ (values at all dual vertices); boundary parts from the library"""
    return t.dual.matrices[0].T.toarray()


def velocities(c, cells_faces, signs, normals, PM, DM):
    """own dense operator [cell, dim, n_faces]: least squares over the faces of each cell.
    normals [cell, face, dim] are inward area vectors"""
    t = c.topology
    out = np.zeros((len(cells_faces), normals.shape[-1], t.n_elements[-2]))
    for i in range(len(cells_faces)):
        p = np.linalg.pinv(normals[i], rcond=1e-9)
        f = cells_faces[i]
        for j in range(len(f)):
            out[i, :, f[j]] += p[:, j] * signs[i, j] * PM[f[j]] / DM[f[j]]
    return out


def judge(c, faces, normals, PM, DM, rec, linear=None, what=''):
    t = c.topology
    N = t.n_dim
    n = t.n_elements[-1]
    B = t.matrices[-1].toarray()         # [face, cell]
    signs = np.array([[B[f, i] for f in fs] for i, fs in enumerate(faces)])
    require((np.abs(signs) == 1).all(), 'harness', 'faces')
    own = velocities(c, faces, signs, normals, PM, DM)
    nf, nd = t.dual.n_elements[1], t.dual.n_elements[0]
    nif = t.n_elements[-2]
    operator = c.dual_flux_to_dual_velocity
    operator = operator if callable(operator) else operator()
    flux = np.eye(nf)
    keep = flux.copy()
    v = operator(flux)
    require(np.array_equal(flux, keep), 'flux changed')
    require(v.shape == (nd, c.n_dim, nf), what + 'shape', lambda: str(v.shape))
    scale = 1 + np.abs(own).max()
    require(np.abs(v[:n, :, :nif] - own).max() < TOL * scale, what + 'velocity of unit fluxes', lambda: str(np.abs(v[:n, :, :nif] - own).max()))
    require(not v[:, :, nif:].any(), what + 'velocity of fluxes along the boundary')
    require(not v[n:].any(), what + 'velocity at the boundary')
    # trailing dimensions
    seed = np.sin(np.arange(nf * 6) * 1.7).reshape(nf, 2, 3)
    w = operator(seed)
    require(w.shape == (nd, c.n_dim, 2, 3), what + 'shape of stack')
    require(np.abs(w - np.einsum('vdf,fab->vdab', v, seed)).max() < TOL * scale * 10, what + 'linearity')
    one = operator(seed[:, 0, 0])
    require(one.shape == (nd, c.n_dim) and np.abs(one - w[..., 0, 0]).max() < TOL * scale, what + 'single flux')
    none = operator(np.zeros((nf, 0)))
    require(none.shape == (nd, c.n_dim, 0), what + 'empty stack')
    rec.step(4)
    if linear is not None:
        X = np.concatenate([np.asarray(x).reshape(-1, c.n_dim) for x in c.dual_position[:1]])
        D = derivative(t)
        g = operator(D @ X)             # [dual vertex, dim, linear function]
        want = linear                   # [cell, dim, linear function]
        e = np.abs(g[:n] - want).max()
        require(e < 1e-7 * (1 + np.abs(v).max()), what + 'velocity of a linear potential', lambda: '{}: {}'.format(e, g[:n][0]))
        rec.step()
        rec.outcome('linear')


def simplicial_faces(c, cells):
    index = index_of(c.topology)
    N = c.topology.n_dim
    return np.array([[index[N - 1][frozenset(np.delete(cell, i).tolist())] for i in range(N + 1)] for cell in cells])


def refused(c, rec):
    try:
        f = c.dual_flux_to_dual_velocity
        if callable(f):
            f(np.zeros(c.topology.dual.n_elements[1]))
        else:
            f(np.zeros(c.topology.dual.n_elements[1]))
        require(False, 'mesh that is not pairwise Delaunay')
    except AssertionError:
        rec.outcome('refused')


def flat(V, cells, rec, W=None, rotations=(0,), cls=ComplexSimplicialEuclidian, lift=None):
    """mesh in as many dimensions as it has, or affinely lifted isometrically times a scale"""
    N = cells.shape[1] - 1
    pd, wc = usable(V, cells, W)
    if lift is not None:
        U = V @ lift
        P = np.linalg.pinv(lift) @ lift          # projection on the plane
    else:
        U, P = V, np.eye(V.shape[1])
    for r in rotations:
        t = np.array([np.roll(cell, (r * (i + 1)) % (N + 1)) if N % 2 == 0 else even(cell, r * (i + 1)) for i, cell in enumerate(cells)])
        if cls is ComplexSimplicialEuclidian:
            c = cls(vertices=U, simplices=t, weights=W)
        else:
            c = cls(vertices=U, triangles=t, weights=W)
        if not pd:
            if c.is_pairwise_delaunay:
                rec.outcome('close call')
            else:
                refused(c, rec)
            continue
        PM, DM, _, _ = reference(t, c.topology.n_elements, index_of(c.topology), U, W)
        linear = np.repeat(P[None], len(t), axis=0)
        judge(c, simplicial_faces(c, t), inward(U, t), PM[-2], DM[1], rec, linear=linear)
        rec.trace()
        rec.outcome('{}d in {}d'.format(N, U.shape[1]))


def even(cell, k):
    """even permutations of an even number of corners"""
    if len(cell) == 2:
        return cell
    perms = [p for p in itertools.permutations(range(len(cell))) if sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2 == 0]
    return cell[list(perms[k % len(perms)])]


LIFT = np.array([[0.6, 0.8, 0], [0.48, -0.36, 0.8]])        # isometric


def cases_planar(tier):
    for m, size, chunks in [(3, 3, 2), (4, 3, 4), (5, 3, 8), (6, 3, 8), (4, 4, 32), (5, 4, 32)] if tier == 'quick' else [(3, 4, 8), (4, 4, 24), (5, 4, 64), (6, 4, 128), (7, 3, 16), (8, 3, 8)]:
        for k in range(chunks):
            yield [m, size, k, chunks]


def check_planar(case, rec):
    m, size, k, chunks = case
    L = warp(2, size)
    for j, s in enumerate(itertools.combinations(range(len(L)), m)):
        if j % chunks != k:
            continue
        V = L[list(s)]
        cells = delaunay(V)
        if not len(cells):
            continue
        cells = orient(V, cells)
        rec.state(m, size, s)
        for r in range(1, len(cells) + 1) if len(cells) < 5 and size == 3 else (1, len(cells)):
            for n, sub in enumerate(itertools.combinations(range(len(cells)), r)):
                v, t, _ = compact(V, cells[list(sub)])
                kind = (j + n) % 3
                if kind == 2:
                    flat(v, t, rec, rotations=(j % 3,), cls=ComplexTriangularEuclidian3, lift=LIFT)
                else:
                    flat(v, t, rec, rotations=(0, 1, 2) if len(cells) < 3 else (j % 3,), cls=[ComplexSimplicialEuclidian, ComplexTriangularEuclidian][kind])
        # mirror image: the other orientation
        v, t, _ = compact(V, cells[:, ::-1])
        flat(v, t, rec)


def cases_weighted(tier):
    for m in (3, 4) if tier == 'quick' else (3, 4, 5):
        for k in range(8):
            yield [m, k]


def check_weighted(case, rec):
    m, k = case
    L = warp(2, 3)
    for j, s in enumerate(itertools.combinations(range(9), m)):
        if j % 8 != k:
            continue
        V = L[list(s)]
        cells = delaunay(V)
        if not len(cells):
            continue
        cells = orient(V, cells)
        v, t, _ = compact(V, cells)
        for W in itertools.product([0, 0.3, -0.4], repeat=len(v)):
            rec.state(s, W)
            flat(v, t, rec, W=np.array(W, dtype=float))


def cases_dims(tier):
    for n in (2, 3, 4, 5):
        yield ['line', n]
    for r in (1, 2) if tier == 'quick' else (1, 2, 3):
        yield ['bcc', r]
    yield ['bcc', 12]
    for k in range(4):
        yield ['tetrahedra', k]


def check_dims(case, rec):
    if case[0] == 'line':
        x = np.array([0, 1.1, 1.7, 3.1, 4.2, 4.9])
        for s in itertools.combinations(range(6), case[1]):
            V = x[list(s)][:, None]
            n = len(V) - 1
            for r in range(1, n + 1):
                for sub in itertools.combinations(range(n), r):
                    for perm in itertools.permutations(range(r)):
                        for flip in (0, 1):
                            cells = np.array([[sub[i], sub[i] + 1][::-1 if flip else 1] for i in perm])
                            v, t, _ = compact(V, cells)
                            rec.state(s, sub, perm, flip)
                            flat(v, t, rec)
                            flat(v, t, rec, lift=LIFT[:1])
                            flat(v[::-1], len(v) - 1 - t, rec, W=0.2 * np.cos(np.arange(len(v))))
    if case[0] == 'bcc':
        V, T = bcc()
        V = np.asarray(V, dtype=float)
        T = orient(V, np.asarray(T))
        for sub in itertools.combinations(range(len(T)), case[1]):
            v, t, _ = compact(V, T[list(sub)])
            rec.state(*sub)
            flat(v, t, rec, rotations=(sum(sub) % 12,))
    if case[0] == 'tetrahedra':
        L = warp(3, 2)
        for m in (4, 5, 6):
            for j, s in enumerate(itertools.combinations(range(8), m)):
                if j % 4 != case[1]:
                    continue
                cells = delaunay(L[list(s)])
                if not len(cells):
                    continue
                cells = orient(L[list(s)], cells)
                v, t, _ = compact(L[list(s)], cells)
                rec.state(s)
                flat(v, t, rec, rotations=(0, 1, 7))
                for i in range(len(cells)):
                    v, t, _ = compact(L[list(s)], cells[i:i + 1])
                    flat(v, t, rec, rotations=range(12))


def cases_regular(tier):
    big = tier != 'quick'
    for n in range(1, 5):
        yield [[n]]
    for shape in [[1, 1], [1, 2], [2, 2], [2, 3]] + ([[3, 3]] if big else []):
        yield [shape]
    for shape in [[1, 1, 1], [1, 1, 2], [1, 2, 2]] + ([[2, 2, 2]] if big else []):
        yield [shape]
    if big:
        yield [[1, 1, 1, 1]]
        yield [[1, 1, 1, 2]]


def check_regular(case, rec):
    shape = case[0]
    dim = len(shape)
    n = int(np.prod(shape))
    orders = list(range(len(list(symmetries(dim))))) if dim < 4 else [0, 5, 100]
    for r in range(1, n + 1):
        for j, sub in enumerate(itertools.combinations(range(n), r)):
            for spacing in range(4) if dim < 3 else (0, 3):
                for order in orders + ['mixed'] if r < 3 and dim < 3 else [orders[j % len(orders)], 'mixed']:
                    cells, V = grid(tuple(shape), spacing, sub, order)
                    c = build_regular(cells, V, dim)
                    rec.state(shape, sub, spacing, order)
                    t = c.topology
                    PM, DM = regular_reference(t, V)
                    m = topo.model_of(t)
                    top, low = m.cells(np.asarray(t.elements[-1])), m.cells(np.asarray(t.elements[-2]))
                    faces = np.array([[f for f, fc in enumerate(low) if set(fc) < set(tc)] for tc in top])
                    normals = np.zeros(faces.shape + (dim,))
                    for i, fs in enumerate(faces):
                        mid = V[list(top[i])].mean(axis=0)
                        for k, f in enumerate(fs):
                            d = mid - V[list(low[f])].mean(axis=0)
                            normals[i, k] = d / np.linalg.norm(d) * PM[-2][f]
                    judge(c, faces, normals, PM[-2], DM[1], rec, linear=np.repeat(np.eye(dim)[None], len(top), axis=0))
                    rec.trace()
                    rec.outcome('regular {}d'.format(dim))


def cases_curved(tier):
    for d, m, chunks in [(2, 3, 2), (2, 4, 4), (3, 4, 8), (3, 5, 16), (2, 'round', 1), (3, 'round', 8)] + ([(3, 6, 32), (3, 7, 32), (2, 5, 4)] if tier != 'quick' else []):
        for k in range(chunks):
            yield ['sphere', d, m, k, chunks]
    yield ['surface']


def check_curved(case, rec):
    if case[0] == 'surface':
        from mc.c13 import surfaces
        for name, (v, t) in surfaces().items():
            for r in (0, 1, 2):
                cells = np.array([np.roll(x, r * i) for i, x in enumerate(t)])
                for drop in [()] + [(i,) for i in range(len(t))]:
                    w, q, _ = compact(v, np.delete(cells, list(drop), axis=0))
                    w = w + 0.07 * np.sin(np.arange(w.size) * 2.1).reshape(w.shape)
                    rec.state(name, r, drop)
                    c = ComplexTriangularEuclidian3(w, triangles=q)
                    PM, DM, heights, _ = reference(q, c.topology.n_elements, index_of(c.topology), w)
                    f = simplicial_faces(c, q)
                    edges = np.zeros(c.topology.n_elements[1])
                    np.add.at(edges, f, heights)
                    if np.abs(edges).min() < 1e-6:
                        continue
                    if edges.min() < 0:
                        refused(c, rec)
                        continue
                    judge(c, f, inward(w, q), PM[1], DM[1], rec, what='surface: ')
                    rec.outcome('surface')
        return
    _, d, m, k, chunks = case
    L = sphere_points(d)
    if m == 'round':
        # well centered: octahedron and icosahedron, and polygons, with every vertex moved in turn
        from pycomplex import synthetic
        base = [synthetic.n_cube_dual(3).vertices, synthetic.icosahedron().vertices] if d == 3 else [sphere_points(2)[[0, 2, 4, 5, 7, 9]]]
        sets = []
        for V in base:
            V = V + 0.02 * np.sin(np.arange(V.size) * 2.3).reshape(V.shape)
            for i in range(len(V)):
                for step in np.eye(d):
                    for h in (-0.1, 0, 0.1):
                        W = V.copy()
                        W[i] += h * step
                        sets.append(W / np.linalg.norm(W, axis=1, keepdims=True))
        sets = [s for j, s in enumerate(sets) if j % chunks == k]
    else:
        sets = [L[list(s)] for j, s in enumerate(itertools.combinations(range(len(L)), m)) if j % chunks == k]
    for V in sets:
        cells = hull(V)
        if cells is None or len(np.unique(cells)) < len(V):
            continue
        cls = ComplexCircular if d == 2 else ComplexSpherical2
        for rot in (0, 1):
            cells = np.array([np.roll(x, rot * i) for i, x in enumerate(cells)]) if d == 3 else cells
            rec.state(V.tolist(), rot)
            c = cls(vertices=V, simplices=cells)
            if not c.is_pairwise_delaunay:
                refused(c, rec)
                continue
            if d == 3 and min(centre(V[list(p)][None], np.zeros((1, 3)))[1].min() for p in cells) < 1e-6:
                rec.outcome('not well centered')      # no metric on the sphere
                continue
            PM, DM = c.metric
            t = c.topology.elements[-1]
            judge(c, simplicial_faces(c, t), inward(V, t), PM[-2], DM[1], rec, what='sphere: ')
            rec.outcome('sphere {}d'.format(d))
            rec.trace()


# --- more elements than 16 bits can count

def cases_large(tier):
    for kind, n in [('triangles', 80), ('triangles', 190), ('lifted', 190), ('regular', 260)] + ([('triangles', 270), ('regular', 300)] if tier != 'quick' else []):
        yield [kind, n]


def check_large(case, rec):
    """the gradient of linear functions, in a scattered numbering"""
    kind, n = case
    rec.state(case)
    i, j = np.indices((n, n)).reshape(2, -1)
    order = np.argsort(np.cos(np.arange(n * n) * 2.3))
    if kind == 'regular':
        I, J = np.indices((n - 1, n - 1)).reshape(2, -1)
        new = np.empty_like(order)
        new[order] = np.arange(n * n)
        f = lambda a, b: new[a * n + b]
        cubes = np.array([[f(I, J), f(I, J + 1)], [f(I + 1, J), f(I + 1, J + 1)]]).transpose(2, 0, 1)[np.argsort(np.sin(np.arange(len(I)) * 1.7))]
        V = (np.array([i, j]).T * 0.5)[order]
        c = build_regular(cubes.reshape(-1, 4), V, 2)
        plane = np.eye(2)
    else:
        V = np.array([i + j / 2, j * 0.75 ** 0.5]).T + 0.08 * np.array([np.sin(j * 2.1 + i), np.cos(i * 1.7 - j)]).T
        V = V[order]
        new = np.empty_like(order)
        new[order] = np.arange(n * n)
        I, J = np.indices((n - 1, n - 1)).reshape(2, -1)
        f = lambda a, b: new[a * n + b]
        T = np.concatenate([np.array([f(I, J), f(I + 1, J), f(I, J + 1)]).T, np.array([f(I + 1, J + 1), f(I, J + 1), f(I + 1, J)]).T])
        T = T[np.argsort(np.sin(np.arange(len(T)) * 1.7))]
        T = np.array([np.roll(x, k % 3) for k, x in enumerate(T)])
        plane = np.eye(2)
        cls = ComplexTriangularEuclidian
        if kind == 'lifted':
            plane = np.array([[0.6, 0, 0.8], [0.48, 0.8, -0.36]])
            cls = ComplexTriangularEuclidian3
        c = cls(vertices=V @ plane, triangles=T)
    t = c.topology
    cells = t.n_elements[-1]
    X = np.asarray(c.dual_position[0])
    D = t.dual.matrices[0].T.tocsr()
    S = np.array([[1.5, -0.5, 0], [0.25, 2, -1]]) if plane.shape[1] == 2 else np.array([[1.5, -0.5, 0], [0.25, 2, -1], [1, 0.5, 0.25]])
    P = X @ S                 # three linear functions
    g = c.dual_flux_to_dual_velocity(D @ P)
    rec.step()
    rec.trace()
    want = plane.T @ plane @ S
    require(g.shape == (t.dual.n_elements[0], c.n_dim, 3), 'large shape')
    e = np.abs(g[:cells] - want).max(axis=(1, 2))
    require(e.max() < 1e-6, 'large velocity of linear potentials', lambda: '{} {}'.format(e.max(), e.argmax()))
    require(not g[cells:].any(), 'large velocity at the boundary')
    rec.outcome('large')


SPACES = [
    Space('units', *scales.space(['plane', 'line', 'surface', 'solid', 'regular'], scales.velocity), 'velocities of meshes on 3-4 (5) points of a warped lattice, regular grids, each in seven units from 2^-40 to 2^40', chunk=1, expect=['scaled']),
    Space('arrays', *scales.arrays_space(['plane', 'line', 'surface', 'solid', 'regular'], scales.velocity), 'velocities of the same meshes with whole coordinates, made and asked with the same numbers in arrays of 6 layouts and 8 types of integer', chunk=1, expect=['same']),
    Space('large', cases_large, check_large, 'meshes of 12 and 71 thousand triangles, flat and lifted, and a grid of 67 thousand squares, in a scattered numbering: gradients of linear functions', chunk=1, expect=['large']),
    Space('planar', cases_planar, check_planar, 'Delaunay triangulations of all 3-6 point subsets of a warped 3x3 lattice and 4-5 of a 4x4 lattice (thorough: 3-8, 3-6), their sub-meshes, turned corners, mirror images, flat and lifted', chunk=2, expect=['linear', '2d in 2d', '2d in 3d']),
    Space('weighted', cases_weighted, check_weighted, 'all weights from {0, 0.3, -0.4} on all 3-4 (5) point subsets of a warped 3x3 lattice', chunk=1, expect=['linear', 'refused']),
    Space('dims', cases_dims, check_dims, 'all sets of intervals on six points in any order; sets of bcc tetrahedra; Delaunay tetrahedra of 4-6 points of a warped cube in even corner orders', chunk=1, expect=['1d in 1d', '1d in 3d', '3d in 3d']),
    Space('regular', cases_regular, check_regular, 'all subsets of small grids of 1-3 (4) dimensions, four spacings, all corner orders', chunk=1, expect=['regular 1d', 'regular 2d', 'regular 3d']),
    Space('curved', cases_curved, check_curved, 'hulls of all subsets of points on the 1- and 2-sphere, and of a hexagon, an octahedron and an icosahedron with each vertex moved in turn; six closed surfaces, whole and with one triangle missing', chunk=1, expect=['surface', 'sphere 2d', 'sphere 3d']),
]
