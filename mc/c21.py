"""C21: generators of complexes"""
import contextlib
import io
import itertools
import math

import numpy as np

from mc import topo
from mc.c10 import hull, sphere_points
from mc.c12 import solid_angle
from mc.harness import Space, require
from pycomplex import synthetic
from pycomplex.complex.cubical import ComplexCubical, ComplexCubical1Euclidian2
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
from pycomplex.complex.simplicial.spherical import ComplexSpherical, ComplexSpherical2, ComplexSpherical3

PROPERTY = 'C21'
ASSUMPTIONS = ['random numbers are replaced by enumerated ones, at the functions of numpy.random that the generators call']
TOL = 1e-9


def close(a, b, tag, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(np.broadcast(a, b).shape == a.shape, tag + ' shape', lambda: '{} {}'.format(a.shape, b.shape))
    require(a.size == 0 or np.abs(a - b).max() < tol, tag, lambda: '{} {}'.format(a.ravel()[:4], b.ravel()[:4]))


def cells(c):
    m = topo.model_of(c.topology)
    return [m.cells(np.asarray(e)) for e in c.topology.elements]


def consistent(c, closed=None):
    """faces shared by at most two cells, met from opposite sides; counts of all elements by their own enumeration"""
    t = c.topology
    N = t.n_dim
    own = cells(c)
    for k in range(N + 1):
        require(len(set(map(frozenset, own[k]))) == t.n_elements[k], 'repeated elements')
    require(len(c.vertices) == t.n_elements[0], 'vertices without element')
    require({v for x in own[-1] for v in x} == set(range(len(c.vertices))), 'loose vertices')
    if N > 0:
        B = t.matrices[-1].toarray()
        n = np.abs(B).sum(axis=1)
        require(n.max() <= 2 and n.min() >= 1, 'faces')
        require((B[n == 2].sum(axis=1) == 0).all(), 'orientation')
        if closed is not None:
            require((n == 2).all() == closed, 'closed')
    require(np.isfinite(c.vertices).all(), 'finite vertices')
    return own


def signs(c, own):
    """orientation of all top cells relative to the embedding space"""
    e = c.topology.elements[-1]
    if isinstance(c, (ComplexSpherical,)):
        return np.sign(np.linalg.det(c.vertices[e]))
    if isinstance(c, ComplexSimplicialEuclidian):
        P = c.vertices[e]
        return np.sign(np.linalg.det(P[:, 1:] - P[:, :1]))
    N = c.topology.n_dim
    e = e.reshape(len(e), -1)
    axes = [2 ** (N - 1 - i) for i in range(N)]
    P = c.vertices[e]
    return np.sign(np.linalg.det(P[:, axes] - P[:, :1]))


def same_sign(c, own, tag='orientation of cells'):
    """all cells oriented alike, taking the stored orientation of the fundamental class as all ones"""
    s = signs(c, own)
    require((s == s[0]).all() and s[0] != 0, tag, lambda: str(s))


# --- platonic

def cases_solids(tier):
    big = tier != 'quick'
    for n in range(1, 8 if big else 7):
        yield ['simplex', n]
    for n in range(2, 7 if big else 6):
        yield ['cross', n]
    yield ['icosahedron']
    for r in range(0, 5 if big else 4):
        yield ['icosphere', r]
    yield ['hexacosichoron']


def check_solids(case, rec):
    name = case[0]
    rec.state(*case)
    rec.step()
    rec.trace()
    if name == 'simplex':
        n = case[1]
        for kw, regular in (({}, True), ({'equilateral': True}, True), ({'equilateral': False}, False)):
            c = synthetic.n_simplex(n, **kw)
            own = consistent(c)
            require(type(c) is ComplexSimplicialEuclidian and c.vertices.shape == (n + 1, n), 'type')
            require(c.topology.n_elements == [math.comb(n + 1, k + 1) for k in range(n + 1)], 'number of elements')
            D = np.linalg.norm(c.vertices[:, None] - c.vertices[None], axis=-1)
            off = ~np.eye(n + 1, dtype=bool)
            if regular:
                close(np.linalg.norm(c.vertices, axis=1), 1, 'circumradius')
                close(D[off], math.sqrt(2 * (n + 1) / n), 'edges')
                close(c.vertices.mean(axis=0), 0, 'center')
            else:
                require(sorted(map(tuple, c.vertices.tolist())) == sorted([(0.,) * n] + [tuple(x) for x in np.eye(n).tolist()]), 'canonical simplex')
            rec.outcome('simplex')
    elif name == 'cross':
        n = case[1]
        c = synthetic.n_cube_dual(n)
        own = consistent(c, True)
        require(isinstance(c, ComplexSpherical), 'type')
        require(c.topology.n_elements == [2 ** (k + 1) * math.comb(n, k + 1) for k in range(n)], 'number of elements')
        require(sorted(map(tuple, np.round(c.vertices, 9).tolist())) == sorted(tuple(s * x) for x in np.eye(n) for s in (1, -1)), 'vertices', lambda: str(c.vertices))
        require({tuple(np.sign(c.vertices[list(x)].sum(axis=0)).astype(int).tolist()) for x in own[-1]} == set(itertools.product((-1, 1), repeat=n)), 'orthants')
        same_sign(c, own)
        rec.outcome('cross')
    elif name == 'icosahedron':
        c = synthetic.icosahedron()
        own = consistent(c, True)
        require(type(c) is ComplexSpherical2 and c.topology.n_elements == [12, 30, 20], 'elements')
        close(np.linalg.norm(c.vertices, axis=1), 1, 'on the sphere')
        e = c.vertices[c.topology.elements[1]]
        close(np.linalg.norm(e[:, 0] - e[:, 1], axis=1), 1 / math.sin(2 * math.pi / 5), 'edges')
        close(solid_angle(*np.rollaxis(c.vertices[c.topology.elements[2]], 1)), math.pi / 5, 'faces')
        same_sign(c, own)
        rec.outcome('icosahedron')
    elif name == 'icosphere':
        c = synthetic.icosphere(case[1])
        d = synthetic.icosphere() if case[1] == 0 else synthetic.icosphere(refinement=case[1])
        require(np.array_equal(c.vertices, d.vertices), 'refinement')
        own = consistent(c, True)
        n = 4 ** case[1]
        require(type(c) is ComplexSpherical2 and c.topology.n_elements == [10 * n + 2, 30 * n, 20 * n], 'elements')
        close(np.linalg.norm(c.vertices, axis=1), 1, 'on the sphere')
        area = solid_angle(*np.rollaxis(c.vertices[c.topology.elements[2]], 1))
        close([area.sum()], 4 * math.pi, 'area')
        require(area.max() < 1.5 * area.min(), 'evenness')
        same_sign(c, own)
        rec.outcome('icosphere')
    else:
        c = synthetic.hexacosichoron()
        own = consistent(c, True)
        require(type(c) is ComplexSpherical3 and c.topology.n_elements == [120, 720, 1200, 600], 'elements')
        close(np.linalg.norm(c.vertices, axis=1), 1, 'on the sphere')
        e = c.vertices[c.topology.elements[1]]
        close(np.linalg.norm(e[:, 0] - e[:, 1], axis=1), 2 / (1 + math.sqrt(5)), 'edges')
        require((np.bincount(c.topology.elements[1].ravel()) == 12).all() and (np.bincount(c.topology.elements[3].ravel()) == 20).all(), 'degrees')
        same_sign(c, own)
        rec.outcome('hexacosichoron')


# --- grids

def cases_grids(tier):
    big = tier != 'quick'
    top = {1: 6, 2: 4, 3: 3, 4: 2, 5: 1} if big else {1: 5, 2: 4, 3: 2, 4: 2, 5: 1}
    for n in top:
        for shape in itertools.product(range(1, top[n] + 1), repeat=n):
            if n == 4 and not big and sum(shape) > 5:
                continue
            yield [list(shape)]


def check_grids(case, rec):
    shape = tuple(case[0])
    n = len(shape)
    P = [np.arange(s + 1) for s in shape]
    full = sorted(tuple(p) for p in itertools.product(*[a.tolist() for a in P]))
    for kw in ({}, {'centering': True}, {'centering': False}, {'centering': False, 'mirror': False}, {'mirror': False}):
        for kind in (tuple, list):
            c = synthetic.n_cube_grid(kind(shape), **kw)
            rec.state(shape, sorted(kw.items()), kind.__name__)
            require(isinstance(c, ComplexCubical), 'type')
            V = c.vertices + (np.array(shape) / 2. if kw.get('centering', True) else 0)
            close(V, np.round(V), 'lattice')
            V = np.round(V).astype(int)
            require(sorted(map(tuple, V.tolist())) == full, 'vertices')
            own = cells(c)
            for k in range(n + 1):
                # k-cubes of the grid: k axes with an interval, the others with a position
                want = sum(np.prod([shape[i] if i in axes else shape[i] + 1 for i in range(n)]) for axes in itertools.combinations(range(n), k))
                require(c.topology.n_elements[k] == want, 'number of elements')
                boxes = set()
                for x in own[k]:
                    q = V[list(x)]
                    lo, hi = q.min(axis=0), q.max(axis=0)
                    require((hi - lo).max() <= 1 and (hi - lo).sum() == k and len(set(x)) == 2 ** k, 'cube')
                    require(sorted(map(tuple, q.tolist())) == sorted(itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)])), 'corners')
                    boxes.add((tuple(lo), tuple(hi)))
                require(len(boxes) == want, 'repeated cubes')
            if kw.get('mirror', True):
                consistent(c, False)
                require(c.topology.is_oriented, 'oriented')
                same_sign(c, own)
                c2 = c.as_22() if n == 2 else None
            rec.step()
    if max(shape) == 1:
        for kw in ({}, {'centering': False}, {'centering': True}):
            c = synthetic.n_cube(n, **kw)
            q = np.array(sorted(itertools.product((0, 1), repeat=n))) - (0.5 if kw.get('centering') else 0)
            require(sorted(map(tuple, c.vertices.tolist())) == sorted(map(tuple, q.tolist())), 'n_cube')
            require(c.topology.n_elements == [2 ** (n - k) * math.comb(n, k) for k in range(n + 1)], 'n_cube elements')
            rec.outcome('cube')
    rec.trace()
    rec.outcome('grid {}d'.format(n))


# --- circles and cylinders

def cases_round(tier):
    for s in range(0, 6):
        yield ['circle', s]
    for d in range(0, 3 if tier == 'quick' else 5):
        for l in (1, 0.5, 3.):
            for r in (1, 2, 0.25):
                yield ['cylinder', l, r, d]


def check_round(case, rec):
    rec.state(*case)
    if case[0] == 'circle':
        s = case[1]
        n = 4 * 2 ** s
        c = synthetic.circle(s)
        own = consistent(c, True)
        require(type(c) is ComplexCubical1Euclidian2 and c.topology.n_elements == [n, n], 'circle elements')
        close(np.linalg.norm(c.vertices, axis=1), 1, 'radius of circle')
        e = c.vertices[c.topology.elements[1].reshape(-1, 2)]
        close(np.linalg.norm(e[:, 0] - e[:, 1], axis=1), 2 * math.sin(math.pi / n), 'edges of circle')
        angle = np.sort(np.arctan2(*c.vertices.T))
        close(np.diff(angle), 2 * math.pi / n, 'angles of circle')
        close([abs(c.volume())], n / 2 * math.sin(2 * math.pi / n), 'area of circle')
        rec.outcome('circle')
    else:
        _, l, r, d = case
        m, n = 2 ** d, 4 * 2 ** d
        c = synthetic.cylinder(l, r, d)
        if d == 1:
            q = synthetic.cylinder(l, r)
            require(np.array_equal(c.vertices, q.vertices), 'default divisions')
        own = consistent(c, False)
        require(c.topology.n_elements == [n * (m + 1), n * (m + 1) + n * m, n * m] and c.vertices.shape[1] == 3, 'cylinder elements')
        V = c.vertices
        close(np.linalg.norm(V[:, 1:], axis=1), r, 'radius of cylinder')
        h = np.unique(np.round(V[:, 0], 9))
        close(h, np.linspace(-0.5, 0.5, m + 1) * l, 'height of cylinder', 1e-8)
        e = V[c.topology.elements[2].reshape(-1, 4)]
        N = np.cross(e[:, 2] - e[:, 0], e[:, 1] - e[:, 0])
        out = np.einsum('ij,ij->i', N, e.mean(axis=1) * [0, 1, 1])
        require((np.sign(out) == np.sign(out[0])).all(), 'orientation of cylinder')
        close(np.linalg.norm(N, axis=1), l / m * 2 * r * math.sin(math.pi / n), 'faces of cylinder')
        faces = np.abs(c.topology.matrices[-1].toarray()).sum(axis=1)
        require((faces == 1).sum() == 2 * n, 'rims of cylinder')
        rec.outcome('cylinder')
    rec.step()
    rec.trace()


# --- random meshes, with enumerated numbers

@contextlib.contextmanager
def numbers(**kw):
    """replace functions of numpy.random"""
    keep = {k: getattr(np.random, k) for k in kw}
    for k, f in kw.items():
        setattr(np.random, k, f)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        for k, f in keep.items():
            setattr(np.random, k, f)


def check_square(points, density, dim, iterations, rec, flat=False):
    """a Delaunay mesh of the cube from given interior points"""
    def uniform(low=0., high=1., size=None):
        require((low, high, tuple(size)) == (0, 1, points.shape), 'harness', 'uniform {} {} {}'.format(low, high, size))
        return points.copy()
    with numbers(uniform=uniform):
        c = synthetic.delaunay_cube(density=density, n_dim=dim, iterations=iterations)
    rec.step(iterations + 1)
    require(isinstance(c, ComplexSimplicialEuclidian), 'type')
    own = consistent(c, False)
    V, T = c.vertices, c.topology.elements[-1]
    require(V.min() == 0 and V.max() == 1, 'box')
    det = np.linalg.det(V[T[:, 1:]] - V[T[:, :1]])
    size = np.abs(det) / math.factorial(dim)
    require(size.min() > 1e-9, 'volume of simplices', lambda: str(np.sort(size)[:3]))
    close([size.sum()], 1, 'volume of cube')
    require((np.sign(det) == np.sign(det[0])).all(), 'orientation of simplices')
    # the points of the boundary lattice are there, and boundary faces lie on the boundary
    lattice = {tuple(np.array(p) / density) for p in itertools.product(range(density + 1), repeat=dim) if min(p) == 0 or max(p) == density}
    have = set(map(tuple, V.tolist()))
    require(lattice <= have, 'boundary lattice')
    B = np.abs(c.topology.matrices[-1].toarray()).sum(axis=1)
    F = V[c.topology.elements[-2][B == 1]]
    on = ((F == 0).all(axis=1) | (F == 1).all(axis=1)).any(axis=1)
    require(on.all(), 'boundary')
    inside = V[((V > 0) & (V < 1)).all(axis=1)]
    require(len(inside) + len(lattice) == len(V), 'points on the boundary')
    e = 0.5 / density
    require(len(inside) == 0 or (inside.min() >= e and inside.max() <= 1 - e), 'points near the boundary')
    if iterations == 0:
        want = points[((points >= e) & (points <= 1 - e)).all(axis=1)]
        require(set(map(tuple, want.tolist())) == set(map(tuple, inside.tolist())), 'interior points')
    if iterations > 0:
        # points were moved to the weighted means of the circumcenters of the simplices around them, one round earlier
        with numbers(uniform=uniform):
            before = synthetic.delaunay_cube(density=density, n_dim=dim, iterations=iterations - 1)
        V0, T0 = before.vertices, before.topology.elements[-1]
        X = V0[T0]
        w = np.abs(np.linalg.det(X[:, 1:] - X[:, :1]))
        r = np.linalg.norm(X[:, 1:] - X[:, :1], axis=-1).max(axis=1)
        if (w > 1e-3 * r ** dim).all():
            center = np.linalg.solve(2 * (X[:, 1:] - X[:, :1]), ((X[:, 1:] ** 2).sum(axis=-1) - (X[:, :1] ** 2).sum(axis=-1))[..., None])[..., 0]
            want = np.array([np.average(center[m], axis=0, weights=w[m]) for m in ((T0 == i).any(axis=1) for i in range(len(V0)))])
            margin = np.minimum(want - e, 1 - e - want).min(axis=1)
            got = inside.reshape(-1, dim)
            for x in want[margin > 1e-6]:
                require(len(got) and np.abs(got - x).max(axis=1).min() < 1e-7, 'relaxation of square')
            for x in got:
                require(np.abs(want - x).max(axis=1).min() < 1e-7, 'relaxation of square')
            rec.outcome('relaxed')
    # empty circumspheres
    X = V[T]
    A = 2 * (X[:, 1:] - X[:, :1])
    b = (X[:, 1:] ** 2).sum(axis=-1) - (X[:, :1] ** 2).sum(axis=-1)
    center = np.linalg.solve(A, b[..., None])[..., 0]
    r2 = ((X[:, 0] - center) ** 2).sum(axis=-1)
    d2 = ((V[None] - center[:, None]) ** 2).sum(axis=-1)
    require((d2 > r2[:, None] * (1 - 1e-7) - 1e-9).all(), 'Delaunay')
    rec.trace()


def cases_square(tier):
    for k in range(16):
        yield [2, 2, k, 16, tier != 'quick']
    for k in range(4):
        yield [3, 2, k, 4, tier != 'quick']
    for k in range(8):
        yield [2, 3, k, 8, tier != 'quick']
    yield [1, 2, 0, 1, False]
    yield [1, 3, 0, 1, False]


def check_squares(case, rec):
    density, dim, k, chunks, big = case
    n = density ** dim
    if density == 1:
        for x in (0.1, 0.45, 0.5, 0.7):
            rec.state(dim, x)
            for it in (0, 1, 2):
                check_square(np.full((1, dim), x), 1, dim, it, rec)
                rec.outcome('cube' if dim == 3 else 'square')
        return
    if density == 2 and dim == 2:
        # every four points of a lattice, some too close to the boundary
        L = np.array(list(itertools.product((0.1, 0.31, 0.5, 0.74), (0.28, 0.44, 0.69, 0.9)))) + 0.01 * np.sin(np.arange(32) * 1.9).reshape(-1, 2)
        for j, s in enumerate(itertools.combinations(range(16), 4) if not big else itertools.combinations_with_replacement(range(16), 4)):
            if j % chunks != k:
                continue
            rec.state(s)
            for it in (0, 1, 3):
                check_square(L[list(s)], 2, 2, it, rec)
            rec.outcome('square')
    elif density == 3:
        # one of nine points is missing, or moved
        L = np.array(list(itertools.product((0.2, 0.5, 0.8), repeat=2))) + 0.03 * np.cos(np.arange(18) * 2.7).reshape(-1, 2)
        for j, (i, dx, dy) in enumerate(itertools.product(range(9), (-0.2, 0, 0.13), (-0.11, 0, 0.2))):
            if j % chunks != k:
                continue
            P = L.copy()
            P[i] += [dx, dy]
            rec.state(i, dx, dy)
            for it in (0, 1, 5):
                check_square(P, 3, 2, it, rec)
            rec.outcome('square')
    else:
        # eight points in the cube, each in one of two places
        L = np.array(list(itertools.product((0.35, 0.66), repeat=3))) + 0.02 * np.sin(np.arange(24) * 1.3).reshape(-1, 3)
        for j, s in enumerate(itertools.product((0, 1), repeat=8)):
            if j % chunks != k or (not big and j % 3):
                continue
            rec.state(s)
            check_square(L + np.array(s)[:, None] * [0.07, -0.05, 0.06], 2, 3, 0, rec)
            check_square(L + np.array(s)[:, None] * [0.07, -0.05, 0.06], 2, 3, 1, rec)
            rec.outcome('cube')


def cases_slivers(tier):
    """known findings: meshes of the cube with simplices that have no volume, across an edge of it"""
    yield [3, 3]
    yield [4, 3]


def check_slivers(case, rec):
    density, dim = case
    L = (np.array(list(itertools.product(range(density), repeat=dim))) + 0.5) / density
    # nothing near the edges: points gathered in the middle
    L = 0.5 + (L - 0.5) * 0.3 + 0.01 * np.sin(np.arange(L.size) * 1.7).reshape(L.shape)
    rec.state(*case)
    check_square(L, density, dim, 0, rec)


def cases_sphere(tier):
    big = tier != 'quick'
    for d, m, chunks in [(2, 3, 2), (2, 4, 2), (2, 5, 4), (3, 4, 8), (3, 5, 16), (4, 5, 4), (4, 6, 4)] + ([(2, 6, 4), (3, 6, 48), (4, 7, 4)] if big else []):
        for k in range(chunks):
            yield [d, m, k, chunks]


def check_sphere(case, rec):
    d, m, k, chunks = case
    L = sphere_points(d)
    for j, s in enumerate(itertools.combinations(range(len(L)), m)):
        if j % chunks != k:
            continue
        P = L[list(s)]
        h = hull(P)
        if h is None or len(np.unique(h)) < m:
            continue
        rec.state(d, s)
        for n, (it, push, weights, condition) in enumerate([(1, 0, False, None), (1, 0, True, None), (2, 3, True, 'delaunay'), (3, 10, False, 'centered'), (3, 2, True, None)]):
            def randn(*shape):
                require(shape == (m, d), 'harness', 'randn {}'.format(shape))
                return P * (1 + np.arange(m)[:, None]) if push == 0 else P.copy()
            with numbers(randn=randn):
                c = synthetic.optimal_delaunay_sphere(m, d, iterations=it, weights=weights, push_iterations=push, condition=condition)
            rec.step(it)
            require(isinstance(c, ComplexSpherical), 'type')
            require((c.weights is not None) == weights, 'weights')
            close(np.linalg.norm(c.vertices, axis=1), 1, 'on the sphere')
            own = consistent(c, True)
            require(c.topology.is_oriented, 'oriented')
            h = hull(c.vertices)
            require(c.topology.n_elements[0] == m, 'number of points')
            if h is None:
                rec.outcome('lopsided')
                continue
            require({frozenset(x) for x in h.tolist()} == {frozenset(x) for x in own[-1]}, 'hull')
            same_sign(c, own)
            if n == 0:
                # one step of Lloyd's algorithm: mean of the circumcenters around a vertex, weighted by volume
                from mc.c09 import centre
                h0 = hull(P)
                X, _ = centre(P[h0], np.zeros(h0.shape))
                X = X / np.linalg.norm(X, axis=1, keepdims=True)
                E = P[h0][:, 1:] - P[h0][:, :1]
                w = np.sqrt(np.linalg.det(E @ np.swapaxes(E, 1, 2)))
                Q = np.zeros(P.shape)
                for cell, x, y in zip(h0, X, w):
                    Q[cell] += x * y
                Q /= np.linalg.norm(Q, axis=1, keepdims=True)
                close(c.vertices, Q, 'relaxation', 1e-7)
                rec.outcome('relaxed')
            rec.trace()
            rec.outcome('sphere {}d'.format(d))
        if j // chunks % 4 == 0:
            # rounds end as soon as the condition is met, or after the given number
            def run(iterations, condition, weights):
                with numbers(randn=lambda *shape: P.copy()):
                    return synthetic.optimal_delaunay_sphere(m, d, iterations=iterations, weights=weights, push_iterations=2, condition=condition)
            for weights in (False, True):
                rounds = [run(i, None, weights) for i in (1, 2, 3)]
                for condition, quality in (('delaunay', 'is_pairwise_delaunay'), ('centered', 'is_well_centered')):
                    for n in (1, 3):
                        stop = [i for i, c in enumerate(rounds[:n]) if getattr(c, quality)] + [n - 1]
                        got = run(n, condition, weights)
                        rec.step(n)
                        want = rounds[stop[0]]
                        require(got.vertices.shape == want.vertices.shape and np.abs(got.vertices - want.vertices).max() < 1e-9, 'rounds of relaxation',
                                lambda: '{} rounds until {}'.format(n, condition))
                        rec.outcome('met' if len(stop) > 1 else 'not met')


SPACES = [
    Space('solids', cases_solids, check_solids, 'simplices up to 6 (7) d, cross polytopes up to 5 (6) d, icosahedron, its refinements up to 3 (4), 600-cell', chunk=1, expect=['simplex', 'cross', 'icosahedron', 'icosphere', 'hexacosichoron']),
    Space('grids', cases_grids, check_grids, 'all grids of 1-5 dimensions within bounds, and cubes', chunk=4, expect=['cube', 'grid 1d', 'grid 2d', 'grid 3d', 'grid 4d', 'grid 5d']),
    Space('round', cases_round, check_round, 'circles of up to five subdivisions, cylinders of three lengths and radii', chunk=1, expect=['circle', 'cylinder']),
    Space('squares', cases_square, check_squares, 'Delaunay meshes of the square and cube for all four points of a 4x4 lattice, nine points of which one moves, eight points in two places each, after several iterations', chunk=1, expect=['square', 'cube', 'relaxed']),
    Space('slivers', cases_slivers, check_slivers, 'two meshes of the cube (known findings)', chunk=1),
    Space('sphere', cases_sphere, check_sphere, 'relaxed Delaunay meshes of spheres from all 3-5 (6), 4-5 (6) and 5-6 (7) point subsets that surround the center, with and without weights', chunk=1, expect=['sphere 2d', 'sphere 3d', 'sphere 4d', 'relaxed', 'met', 'not met']),
]
