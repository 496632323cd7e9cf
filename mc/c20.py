"""C20: complexes on the sphere: metrics, refinement and overlap of dual cells"""
import itertools

import numpy as np

from mc import c08
from mc.c09 import centre, index_of
from mc.c10 import compact, hull, sphere_points
from mc.c12 import solid_angle
from mc.harness import Space, require
from pycomplex.complex.cubical import ComplexCubical
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian3
from pycomplex.complex.simplicial.spherical import ComplexCircular, ComplexSpherical, ComplexSpherical2, ComplexSpherical3

PROPERTY = 'C20'
ASSUMPTIONS = ['vertices lie on the unit sphere', 'metrics are only defined for well centered complexes of one or two dimensions; others are refused',
               'areas are compared to 1e-7 of a unit sphere (edge_length and areas are exact to about 1e-8)']


def unit(x):
    return x / np.linalg.norm(x, axis=-1, keepdims=True)


def arc(a, b):
    return 2 * np.arctan2(np.linalg.norm(a - b, axis=-1), np.linalg.norm(a + b, axis=-1))


def positions(V, cells, W=None):
    """{frozenset: (centre on the sphere, smallest barycentric coordinate)}"""
    W = np.zeros(len(V)) if W is None else W
    out = {}
    for c in cells:
        for k in range(1, len(c) + 1):
            for s in itertools.combinations(c, k):
                f = frozenset(s)
                if f not in out:
                    p, b = centre(V[list(s)][None], W[list(s)][None])
                    out[f] = unit(p[0]), b.min()
    return out


def well_centered(V, cells, W=None, tol=1e-6):
    """True, False, or None if too close to call"""
    b = min(b for _, b in positions(V, cells, W).values())
    return True if b > tol else False if b < -tol else None


def reference(V, cells, X, index, n_elements):
    """own metrics of a well centered complex on the unit sphere"""
    N = len(cells[0]) - 1
    PM = [np.ones(n_elements[0])] + [np.zeros(n) for n in n_elements[1:]]
    DM = [np.ones(n_elements[-1])] + [np.zeros(n) for n in n_elements[::-1][1:]]
    if N == 1:
        for c in cells:
            e = index[1][frozenset(c)]
            PM[1][e] = arc(*V[c])
            for v in c:
                DM[1][index[0][frozenset([v])]] += arc(V[v], X[frozenset(c)][0])
        return PM, DM
    for c in cells:
        c = list(c)
        t = frozenset(c)
        PM[2][index[2][t]] = solid_angle(*V[c])
        for i in range(3):
            a, b = c[i], c[(i + 1) % 3]
            e = frozenset([a, b])
            PM[1][index[1][e]] = arc(V[a], V[b])
            DM[1][index[1][e]] += arc(X[e][0], X[t][0])
            for v in (a, b):
                DM[2][index[0][frozenset([v])]] += solid_angle(V[v], X[e][0], X[t][0])
    return PM, DM


def moved(d):
    """round meshes with one vertex moved"""
    from pycomplex import synthetic
    out = []
    if d == 3:
        base = [synthetic.n_cube_dual(3).vertices, synthetic.icosahedron().vertices]
    else:
        base = [unit(np.array([[np.cos(a), np.sin(a)] for a in np.arange(n) * 2 * np.pi / n])) for n in (3, 4, 5, 6, 7)]
    for V in base:
        out.append(V)
        V = unit(V + 0.02 * np.sin(np.arange(V.size) * 2.3).reshape(V.shape))
        for i in range(len(V)):
            for step in np.eye(d):
                for h in (-0.25, -0.1, 0.1, 0.2):
                    W = V.copy()
                    W[i] += h * step
                    out.append(unit(W))
    return out


def make(V, cells, radius, W=None, cls=None):
    d = V.shape[1]
    cls = cls or {2: ComplexCircular, 3: ComplexSpherical2}[d]
    return cls(vertices=V, simplices=cells, radius=radius, weights=W)


def close(a, b, tag, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, tag + ' shape', lambda: '{} {}'.format(a.shape, b.shape))
    require(np.abs(a - b).max(initial=0) <= tol * (1 + np.abs(b).max(initial=0)), tag, lambda: '{} instead of {}'.format(a.ravel()[np.abs(a - b).argmax()], b.ravel()[np.abs(a - b).argmax()]))


def check_metric(V, cells, radius, rec, W=None, closed=False, cls=None):
    c = make(V, cells, radius, W, cls)
    t = c.topology
    N = t.n_dim
    cells = t.elements[-1]
    wc = well_centered(V, cells, W)
    rec.step()
    if wc is None:
        return c, wc
    require(bool(c.is_well_centered) == wc, 'is_well_centered')
    if not wc:
        try:
            c.metric
            require(False, 'metric of a complex that is not well centered')
        except AssertionError:
            rec.outcome('refused')
        return c, wc
    X = positions(V, cells, W)
    index = index_of(t)
    for k in range(N + 1):
        for f, i in index[k].items():
            close(c.primal_position[k][i], X[f][0], 'position', 1e-9)
    PM, DM = reference(V, cells, X, index, t.n_elements)
    pm, dm = c.metric
    require(len(pm) == N + 1 and len(dm) == N + 1, 'number of metrics')
    for k in range(N + 1):
        close(pm[k], PM[k] * radius ** k, 'primal metric')
        close(dm[k], DM[k] * radius ** k, 'dual metric')
        close(c.primal_metric[k], PM[k] * radius ** k, 'primal_metric')
    if closed:
        area = (2 * np.pi if N == 1 else 4 * np.pi) * radius ** N
        require(abs(pm[N].sum() - area) < 1e-6 * area and abs(dm[N].sum() - area) < 1e-6 * area, 'total area')
        rec.outcome('closed')
    rec.trace()
    rec.step(2)
    rec.outcome('metric {}d'.format(N))
    return c, wc


def subsets(n, big):
    yield range(n)
    for i in range(n):
        yield [i]
    if n <= (8 if big else 6):
        for r in range(2, n):
            yield from itertools.combinations(range(n), r)
    else:
        for i in range(n):
            yield [j for j in range(n) if j != i]
            if big:
                for k in range(i + 1, n):
                    yield [i, k]


def meshes(case, rec):
    """(V, cells, closed)"""
    d, m, k, chunks = case
    L = sphere_points(d)
    sets = moved(d) if m == 'round' else [L[list(s)] for s in itertools.combinations(range(len(L)), m)]
    for j, V in enumerate(sets):
        if j % chunks != k:
            continue
        cells = hull(V)
        if cells is None or len(np.unique(cells)) < len(V):
            if m == 'round':
                # a regular solid has no unique hull only up to rounding
                rec.outcome('degenerate')
            continue
        yield j, V, cells


def cases_metric(tier):
    big = tier != 'quick'
    for d, m, chunks in [(2, 3, 2), (2, 4, 4), (2, 5, 4), (3, 4, 8), (3, 5, 8), (2, 'round', 4), (3, 'round', 16)] + ([(3, 6, 32), (3, 7, 64), (2, 6, 4)] if big else []):
        for k in range(chunks):
            yield [d, m, k, chunks, big]


def check_metrics(case, rec):
    d = case[0]
    for j, V, cells in meshes(case[:4], rec):
        rec.state(V.tolist())
        for n, s in enumerate(subsets(len(cells), case[4])):
            v, t, _ = compact(V, cells[list(s)])
            t = np.array([np.roll(x, (j + n) * i % d) for i, x in enumerate(t)]) if d == 3 else t
            radius = (1, 2.5, 0.5)[(j + n) % 3]
            if n % 2 and d == 3:
                t = t[:, ::-1]
            check_metric(v, t, radius, rec, closed=len(s) == len(cells))
            if d == 3 and n < 4:
                check_metric(v, t, radius, rec, W=0.05 * np.cos(np.arange(len(v)) * (1.3 + n)), cls=ComplexSpherical)
    if d == 3 and case[1] == 4:
        # metrics in three dimensions are refused
        L = sphere_points(4)
        c = ComplexSpherical3(vertices=unit(L[:4] + np.eye(4) * 3), simplices=[[0, 1, 2, 3]])
        try:
            c.metric
            require(False, 'metric in three dimensions')
        except AssertionError:
            rec.outcome('refused 3d')


# --- refinement

def check_refined(name, f, c, V, cells, rec):
    """f: refined simplicial complex; every element of it lies in one of c"""
    t = c.topology
    N = t.n_dim
    require(type(f) is type(c), name + ' type', lambda: str(type(f)))
    require(f.radius == c.radius, name + ' radius')
    require(f.weights is None, name + ' weights')
    require(f.topology.is_oriented == t.is_oriented, name + ' orientation')
    close(np.linalg.norm(f.vertices, axis=1), np.ones(f.topology.n_elements[0]), name + ' on the sphere', 1e-12)
    # same area, parent by parent, with the same orientation
    e = f.topology.elements[-1]
    n = len(e) // len(cells)
    require(n * len(cells) == len(e), name + ' number of elements')
    S = f.vertices[e]
    if N == 2:
        area = solid_angle(*np.rollaxis(S, 1))
        sign = np.sign(np.linalg.det(S))
        total = solid_angle(*np.rollaxis(V[cells], 1))
        signs = np.sign(np.linalg.det(V[cells]))
    else:
        area = arc(S[:, 0], S[:, 1])
        sign = np.sign(np.linalg.det(S))
        total = arc(*np.rollaxis(V[cells], 1))
        signs = np.sign(np.linalg.det(V[cells]))
    # every fine element belongs to the parent that contains its centre
    B = np.linalg.inv(V[cells])
    b = np.einsum('fc,tcv->ftv', S.mean(axis=1), B).min(axis=-1)
    parent = b.argmax(axis=1)
    require((b.max(axis=1) > 0).all(), name + ' outside')
    inside = np.einsum('fvc,fcw->fvw', S, B[parent])
    require(inside.min() > -1e-9, name + ' sticks out')
    close(np.bincount(parent, area, len(cells)), total, name + ' area')
    require((sign == signs[parent]).all(), name + ' reversed')
    rec.step()
    return parent


def check_refinement(c, V, cells, rec):
    t = c.topology
    N = t.n_dim
    index = index_of(t)
    X = c.primal_position

    def same(P, Q, name):
        require(P.shape == Q.shape, name + ' vertices', lambda: str(P.shape))
        close(P, Q, name + ' vertices', 1e-12)
    if t.is_oriented:
        f = c.subdivide_fundamental()
        check_refined('fundamental', f, c, V, cells, rec)
        same(f.vertices, np.concatenate(X), 'fundamental')
    if N == 2:
        for name in ('subdivide_loop', 'subdivide_loop_direct'):
            f = getattr(c, name)()
            parent = check_refined(name, f, c, V, cells, rec)
            require(np.array_equal(parent, np.repeat(np.arange(len(cells)), 4)), name + ' order')
            if c.weights is None:
                own = np.zeros((len(index[1]), V.shape[1]))
                for e, i in index[1].items():
                    own[i] = unit(V[list(e)].sum(axis=0))
                same(f.vertices, np.concatenate([V, own]), name)
            else:
                same(f.vertices, np.concatenate(X[:2]), name)
        s = c.subdivide_simplicial()
        check_refined('simplicial', s, c, V, cells, rec)
        same(s.vertices, np.concatenate([V, X[2]]), 'simplicial')
    elif isinstance(c, ComplexCircular):
        f = c.subdivide()
        check_refined('subdivide', f, c, V, cells, rec)
        require(f.topology.n_elements == [len(V) + len(cells), 2 * len(cells)], 'subdivide size')
    if N == 2:
        q = c.subdivide_cubical()
        require(isinstance(q, ComplexCubical), 'cubical type')
        same(q.vertices, np.concatenate(X), 'cubical')
    # casts keep vertices and weights
    for e in (c.as_euclidian(),):
        require(isinstance(e, ComplexSimplicialEuclidian), 'as_euclidian type')
        require(np.array_equal(e.vertices, c.vertices) and (e.weights is c.weights or np.array_equal(e.weights, c.weights)), 'as_euclidian')
        s = e.as_spherical()
        require(np.array_equal(s.vertices, c.vertices) and (s.weights is c.weights or np.array_equal(s.weights, c.weights)), 'as_spherical')
        rec.outcome('cast')
    if isinstance(c, ComplexSpherical2):
        try:
            ComplexTriangularEuclidian3(c.vertices * (1 + np.arange(len(V))[:, None]), topology=t).as_spherical()
            require(False, 'cast of a surface that is no sphere')
        except AssertionError:
            rec.outcome('cast refused')
    # boundary
    b = c.boundary
    faces = {}
    for cell in cells.tolist():
        for f in itertools.combinations(cell, N):
            faces[frozenset(f)] = faces.get(frozenset(f), 0) + 1
    rim = [f for f, n in faces.items() if n == 1]
    if not rim:
        require(b is None, 'boundary of a closed complex')
    else:
        require(isinstance(b, ComplexSpherical) and b.radius == c.radius, 'boundary type')
        idx = b.topology.parent_idx[0]
        same(b.vertices, V[idx], 'boundary')
        require({frozenset(idx[list(x)].tolist()) for x in b.topology.elements[-1].reshape(-1, N)} == set(rim), 'boundary elements')
        require((b.weights is None) == (c.weights is None) and (c.weights is None or np.array_equal(b.weights, c.weights[idx])), 'boundary weights')
        rec.outcome('boundary')
    rec.step(3)
    rec.trace()


def cases_refine(tier):
    big = tier != 'quick'
    for d, m, chunks in [(2, 3, 2), (2, 4, 4), (3, 4, 8), (2, 'round', 4), (3, 'round', 24)] + ([(3, 5, 24), (3, 6, 48), (2, 5, 4)] if big else []):
        for k in range(chunks):
            yield [d, m, k, chunks, big]


def check_refine(case, rec):
    d = case[0]
    for j, V, cells in meshes(case[:4], rec):
        for n, s in enumerate(subsets(len(cells), case[4])):
            if n > 12 and n % 7 != j % 7 and not case[4]:
                continue
            v, t, _ = compact(V, cells[list(s)])
            if d == 3:
                t = np.array([np.roll(x, (j + n) * i % d) for i, x in enumerate(t)])
                if n % 2:
                    t = t[:, ::-1]
            rec.state(v.tolist(), t.tolist())
            W = None
            if n % 3 == 2:
                W = 0.03 * np.cos(np.arange(len(v)) * (1.3 + n))
            c = make(v, t, (1, 2.5, 0.5)[(j + n) % 3], W)
            # centers outside of an element do not subdivide it
            if not well_centered(v, t, W):
                continue
            check_refinement(c, v, c.topology.elements[-1], rec)
            rec.outcome('weighted' if W is not None else 'plain')
            rec.outcome('refined {}d'.format(d - 1))


# --- overlap of dual cells

def cone_area(p):
    """area of a convex polygon on the sphere, of directions"""
    if len(p) < 3:
        return 0.
    p = unit(np.array(p))
    return sum(solid_angle(p[0], p[i], p[i + 1]) for i in range(1, len(p) - 1))


def clip(p, n):
    """convex cone with corners p, clipped by the half space of normal n"""
    out = []
    for a, b in zip(p, p[1:] + p[:1]):
        x, y = np.dot(a, n), np.dot(b, n)
        if x >= 0:
            out.append(a)
        if x * y < 0:
            out.append((a * abs(y) + b * abs(x)) / (abs(x) + abs(y)))
    return out


def pieces(V, cells):
    """dual cells, cut along the cells: [(vertex, quadrilateral)] per cell"""
    X = positions(V, cells)
    out = []
    for c in cells:
        c = list(c)
        t = X[frozenset(c)][0]
        own = []
        for i in range(3):
            v, a, b = c[i], c[(i + 1) % 3], c[(i + 2) % 3]
            own.append((v, [V[v], X[frozenset([v, a])][0], t, X[frozenset([v, b])][0]]))
        out.append(own)
    return out


def overlap(coarse, fine, V, cells, v, f, parent):
    """own overlap areas [coarse vertex, fine vertex]"""
    out = np.zeros((len(V), len(v)))
    P, p = pieces(V, cells), pieces(v, f)
    for i, q in enumerate(p):
        for a, A in P[parent[i]]:
            s = np.sign(np.linalg.det(np.array(A[:3])))
            normals = [s * np.cross(x, y) for x, y in zip(A, A[1:] + A[:1])]
            for b, B in q:
                r = B
                for n in normals:
                    r = clip(r, n)
                    if len(r) < 3:
                        break
                out[a, b] += cone_area(r)
    return out


def check_overlap(coarse, loop, rec):
    V, cells = coarse.vertices, coarse.topology.elements[-1]
    fine = getattr(coarse, loop)()
    v, f = fine.vertices, fine.topology.elements[-1]
    wc, wf = well_centered(V, cells), well_centered(v, f)
    if wc is None or wf is None:
        return
    if not (wc and wf):
        try:
            ComplexSpherical2.multigrid_transfer_dual(coarse, fine)
            require(False, 'overlap of complexes that are not well centered')
        except AssertionError:
            rec.outcome('refused')
        return
    t = coarse.multigrid_transfer_dual(coarse, fine)
    require(t.shape == (len(V), len(v)), 'overlap shape')
    own = overlap(coarse, fine, V, cells, v, f, np.repeat(np.arange(len(cells)), 4))
    r2 = coarse.radius ** 2
    close(t.toarray(), own * r2, 'overlap', 1e-7)
    close(np.asarray(t.sum(axis=1)).ravel(), coarse.dual_metric[-1], 'overlap of coarse cells')
    close(np.asarray(t.sum(axis=0)).ravel(), fine.dual_metric[-1], 'overlap of fine cells')
    require(t.data.min() > -1e-12, 'negative overlap')
    rec.step(2)
    rec.trace()
    rec.outcome('overlap')


def cases_overlap(tier):
    big = tier != 'quick'
    for k in range(16):
        yield ['triangles', k, 16, big]
    for k in range(24):
        yield ['round', k, 24, big]
    for m in ('icosphere', 'fundamental', 'nested'):
        yield [m]
    if big:
        for k in range(32):
            yield [6, k, 32, big]


def check_overlaps(case, rec):
    from pycomplex import synthetic
    if case[0] == 'triangles':
        # triangles of three points around a pole
        L = [(x, y, z) for z in (1., 2.) for x in (-1.05, -0.4, 0.35, 1) for y in (-0.9, 0.3, 1.1)]
        L = unit(np.array(L) + 0.01 * np.sin(np.arange(len(L) * 3)).reshape(-1, 3))
        for j, s in enumerate(itertools.combinations(range(len(L)), 3)):
            if j % case[2] != case[1]:
                continue
            V = L[list(s)]
            if abs(np.linalg.det(V)) < 1e-3:
                continue
            if well_centered(V, [[0, 1, 2]]) is not True and j % 5:
                continue
            for n, p in enumerate(itertools.permutations(range(3)) if case[3] else [(0, 1, 2), (2, 0, 1), (1, 2, 0), (1, 0, 2)][j % 2::2]):
                rec.state(s, p)
                c = ComplexSpherical2(vertices=V, simplices=[p], radius=(1, 2.5, 1.)[(j + n) % 3])
                check_overlap(c, ('subdivide_loop', 'subdivide_loop_direct')[(j + n) % 2], rec)
                if j % 4 == 0 and c.is_well_centered:
                    check_overlap(c.subdivide_loop(), 'subdivide_loop', rec)
    elif case[0] in ('round', 6):
        for j, V, cells in meshes([3, case[0], case[1], case[2]], rec):
            if not case[3] and len(V) > 6 and j % 2:
                continue
            rec.state(V.tolist())
            for n, s in enumerate([list(range(len(cells))), list(range(1, len(cells))), [0, 1, 2]]):
                v, t, _ = compact(V, cells[s])
                t = np.array([np.roll(x, (j + n) * i % 3) for i, x in enumerate(t)])
                if (j + n) % 2:
                    t = t[:, ::-1]
                c = make(v, t, (1, 2.5)[j % 2])
                check_overlap(c, ('subdivide_loop', 'subdivide_loop_direct')[n % 2], rec)
    else:
        c = {'icosphere': lambda: synthetic.icosphere(1), 'fundamental': lambda: synthetic.icosahedron().subdivide_fundamental(),
             'nested': lambda: synthetic.icosahedron().subdivide_fundamental().select_subset(np.eye(120)[7]).copy(radius=3)}[case[0]]()
        for loop in ('subdivide_loop', 'subdivide_loop_direct'):
            q = c
            for level in range(1 if case[0] != 'nested' else 3):
                rec.state(case[0], loop, level)
                check_overlap(q, loop, rec)
                q = getattr(q, loop)()


# --- more elements than 16 bits can count

def cases_large(tier):
    for r in (5, 6) if tier == 'quick' else (5, 6, 7):
        for k in range(2):
            yield [r, k]


def check_large(case, rec):
    """a slightly uneven sphere in a scattered numbering: everything that is known in closed form"""
    from pycomplex import synthetic
    r, k = case
    ico = synthetic.icosphere(refinement=r)
    V, T = np.asarray(ico.vertices), np.asarray(ico.topology.triangles)
    V = unit(V + 0.03 * np.sin(2 * V[:, ::-1] + [1, 2, 3]))
    order = np.argsort(np.cos(np.arange(len(V)) * 2.3))
    new = np.empty_like(order)
    new[order] = np.arange(len(V))
    V, T = V[order], new[T][np.argsort(np.sin(np.arange(len(T)) * 1.7))]
    T = np.array([np.roll(t, i % 3) for i, t in enumerate(T)])
    radius = (1, 2.5)[k]
    c = ComplexSpherical2(vertices=V, simplices=T, radius=radius)
    rec.state(case)
    t = c.topology
    require(np.array_equal(np.sort(t.triangles, axis=1), np.sort(T, axis=1)), 'large cells')
    E = t.edges
    F, R = t.triangles, radius
    X = V[F]
    area = solid_angle(X[:, 0], X[:, 1], X[:, 2])
    close(c.primal_metric[2], area * R ** 2, 'large areas')
    close(c.primal_metric[1], arc(V[E[:, 0]], V[E[:, 1]]) * R, 'large lengths')
    center = np.cross(X[:, 1] - X[:, 0], X[:, 2] - X[:, 0])
    center = unit(center) * np.sign((center * X[:, 0]).sum(axis=1))[:, None]
    kite = np.zeros(len(V))
    for a in range(3):
        for b in ((a + 1) % 3, (a + 2) % 3):
            kite += np.bincount(F[:, a], solid_angle(X[:, a], unit(X[:, a] + X[:, b]), center), len(V))
    close(c.dual_metric[2], kite * R ** 2, 'large dual areas')
    number = {e: i for i, e in enumerate(map(tuple, np.sort(E, axis=1).tolist()))}
    beside = [[] for _ in E]
    for i, f in enumerate(np.sort(F, axis=1).tolist()):
        for e in ((f[0], f[1]), (f[0], f[2]), (f[1], f[2])):
            beside[number[e]].append(i)
    beside = np.array(beside)
    close(c.dual_metric[1], arc(center[beside[:, 0]], center[beside[:, 1]]) * R, 'large dual lengths')
    require(c.is_well_centered and c.is_pairwise_delaunay, 'large well centered')
    rec.step(5)
    points = unit(np.cos(np.arange(3000) * 1.1)[:, None] * [1, 0, 0] + np.cos(np.arange(3000) * 1.7)[:, None] * [0, 1, 0] + np.sin(np.arange(3000) * 2.3)[:, None] * [0, 0, 1]) if k else center[::max(1, len(F) // 3000)]
    s, b = c.pick_primal(points)
    require(np.shape(s) == (len(points),) and (b > -1e-9).all() and np.abs(unit((b[:, :, None] * X[s]).sum(axis=1)) - points).max() < 1e-7, 'large pick')
    nearest = c.pick_dual(points)
    require(all((V @ p).max() - V[n] @ p < 1e-12 for p, n in zip(points[:200], nearest)), 'large pick of dual cells')
    rec.step(2)
    if r > 6:
        return
    g = (c.subdivide_loop, c.subdivide_loop_direct)[k]()
    rec.step()
    require(g.radius == R, 'large radius')
    f, v = g.topology.triangles, g.vertices
    require(len(v) == len(V) + len(E) and len(f) == 4 * len(F), 'large refinement')
    close(v[:len(V)], V, 'large refined vertices')
    close(v[len(V):], unit(V[E[:, 0]] + V[E[:, 1]]), 'large midpoints')
    child = v[f]
    # (flat) triangles near the sphere: the children are the parent, bent
    four = solid_angle(child[:, 0], child[:, 1], child[:, 2]).reshape(-1, 4)
    close(four.sum(axis=1), area, 'large area of parents')
    require(g.topology.is_oriented and g.topology.is_closed, 'large topology')
    m = ComplexSpherical2.multigrid_transfer_dual(c, g).tocsr()
    rec.step()
    close(np.asarray(m.sum(axis=1)).ravel(), kite * R ** 2, 'large overlap of coarse cells')
    close(np.asarray(m.sum(axis=0)).ravel(), g.dual_metric[2], 'large overlap of fine cells')
    require(m.data.min() > -1e-10, 'large overlap negative')
    # the cell of a coarse vertex is within that of the coarse one; that of an edge is shared by its ends, and by no others but the corners opposite to it
    own = m[:, :len(V)]
    require(np.abs(np.asarray(own.sum(axis=1)).ravel() - own.diagonal()).max() < 1e-9, 'large overlap at vertices')
    coo = m[:, len(V):].tocoo()
    inside = (coo.row == E[coo.col, 0]) | (coo.row == E[coo.col, 1])
    opposite = F[beside].sum(axis=2) - E.sum(axis=1)[:, None]
    require((inside | (np.abs(coo.data) < 1e-9) | (opposite[coo.col] == coo.row[:, None]).any(axis=1)).all(), 'large overlap of cells far apart')
    rec.trace()
    rec.outcome('large overlap')


SPACES = [
    Space('metric', cases_metric, check_metrics, 'hulls of all 3-5 (6) point subsets of points on a circle and 4-5 (7) on a sphere, polygons, octahedron and icosahedron with each vertex moved in turn; and their sub-meshes; three radii, both orientations, turned corners, weights', chunk=1, expect=['metric 1d', 'metric 2d', 'closed', 'refused', 'refused 3d']),
    Space('large', cases_large, check_large, 'two uneven spheres of 20 and 82 (328) thousand triangles in a scattered numbering: measures, location, refinement and overlap', chunk=1, expect=['large overlap']),
    Space('refine', cases_refine, check_refine, 'the well centered ones of these, refined in five ways, cast, and their boundaries', chunk=1, expect=['refined 1d', 'refined 2d', 'weighted', 'plain', 'cast', 'cast refused', 'boundary']),
    Space('histories', c08.cases_ball, c08.check_history, 'every sequence of 3 (4) subdivisions, subsets, boundaries, rotations and casts that applies to six meshes on a circle and spheres, unweighted and weighted, grown to at most 60 (200) cells', chunk=1, expect=['loop', 'loop_direct', 'fundamental', 'simplicial', 'cubical', 'boundary', 'tail', 'transform', 'as_euclidian']),
    Space('overlap', cases_overlap, check_overlaps, 'all triangles of 24 points in several corner orders, round meshes, parts of them, and two levels of spheres: overlaps of dual cells against clipped polygons', chunk=1, expect=['overlap', 'refused']),
]
