"""C01: a mesh topology is exactly the oriented face lattice of the cells it was built from"""
import itertools

import numpy as np

from mc import gen, ref, scales, topo
from mc.harness import Space, require, fail

PROPERTY = 'C01'
ASSUMPTIONS = ['distinct faces of the input have distinct vertex sets (regular complexes)']


def run(kind, cells, rec):
    t = topo.build(kind, cells)
    m = topo.model(kind, cells)
    rec.step()
    out = topo.check_lattice(t, m)
    rec.step(2 * m.n_dim)
    if kind == 's' and m.n_dim == 2:
        topo.check_lattice(t.as_2(), m)
        rec.step(7)
    for k in range(1, m.n_dim + 1):
        # vertex incidence and identity are available through the same accessor
        V = topo.dense(t.matrix(k, 0))
        c = out[0][k]
        E = np.zeros((len(out[0][0]), len(c)), dtype=int)
        for j, cell in enumerate(c):
            for v in cell:
                E[v, j] = 1
        require(V.shape == E.shape, 'vmatrix_shape', lambda: 'matrix({},0) has shape {}'.format(k, V.shape))
        require((V == E).all(), 'vmatrix', 'vertex incidence matrix is wrong')
        I = topo.dense(t.matrix(k, k))
        require(I.shape == (len(c), len(c)) and (I == np.eye(len(c), dtype=int)).all(), 'identity', 'matrix(k,k) is not the identity')
    rec.trace()
    rec.state(kind, cells)
    rec.outcome('dim{}'.format(m.n_dim))


def check(case, rec):
    kind, cells = case
    run(kind, gen.compact(cells), rec)


def check_family(case, rec):
    """[kind, cells, i]: all orders of the i-th cell, others fixed"""
    kind, cells, i = case
    cells = gen.compact(cells)
    sym = gen.perms(len(cells[0])) if kind != 'c' else gen.cube_symmetries(len(cells[0]).bit_length() - 1)
    for p in sym:
        c = list(cells)
        c[i] = gen.apply(cells[i], p)
        run(kind, c, rec)


def check_pair(case, rec):
    """[kind, a, b]: all orders of both cells"""
    kind, a, b = case
    a, b = gen.compact([a, b])
    sym = gen.perms(len(a)) if kind != 'c' else gen.cube_symmetries(len(a).bit_length() - 1)
    for p in sym:
        for q in sym:
            run(kind, [gen.apply(a, p), gen.apply(b, q)], rec)


def cases_1d(tier):
    for kind in 'sc':
        n = 4 if tier == 'quick' else 5
        pairs = list(itertools.combinations(range(n), 2))
        for signs in itertools.product((0, 1, 2), repeat=len(pairs)):
            cells = [list(p) if s == 1 else list(p[::-1]) for p, s in zip(pairs, signs) if s]
            if cells:
                yield [kind, cells]


def cases_tri(tier):
    tris = list(itertools.combinations(range(5), 3))
    for r in range(1, len(tris) + 1):
        for sub in itertools.combinations(tris, r):
            for p in gen.perms(3):
                yield ['s', [gen.apply(list(c), p) for c in sub]]


def cases_classes(tier):
    """every isomorphism class, under a family of relabellings"""
    todo = [(6, 3), (6, 4), (6, 5)] + ([(7, 5), (7, 6)] if tier != 'quick' else [])
    for nv, size in todo:
        for cells in gen.uniform_classes(nv, size, pseudo=False) if (nv, size) != (6, 3) else gen.uniform_classes(6, 3, pseudo=True):
            n = max(v for c in cells for v in c) + 1
            relabels = [list(range(n)), list(range(n))[::-1], [(3 * i + 1) % n for i in range(n)] if n % 3 else [(5 * i + 2) % n for i in range(n)]]
            for rl in relabels:
                if sorted(rl) != list(range(n)):
                    continue
                yield ['s', [[rl[v] for v in c] for c in cells]]
                yield ['s', [[rl[v] for v in c][::-1] for c in cells[::-1]]]


def cases_simplex_family(tier):
    for n in (2, 3, 4) + ((5,) if tier != 'quick' else ()):
        a = list(range(n + 1))
        yield ['s', [a], 0]
        for shared in range(n + 1):
            b = a[:shared] + list(range(n + 1, 2 * n + 2 - shared))
            yield ['s', [a, b], 0]
            yield ['s', [a, b], 1]
            yield ['s', [b, a], 1]
        # full boundary of a simplex: closed
        cells = gen.simplex_boundary(n + 1)
        for i in range(len(cells)):
            yield ['s', cells, i]


def cases_simplex_pairs(tier):
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        a = list(range(n + 1))
        for shared in range(n + 1):
            b = a[:shared] + list(range(n + 1, 2 * n + 2 - shared))
            if n == 4 and shared not in (3, 4):
                continue
            yield ['s', a, b]
            yield ['s', a[::-1], b[::-1]]


def cases_high(tier):
    """single cells, pairs sharing a face and closed boundaries in five and more dimensions, in a few corner orders"""
    for n in (5, 6, 7):
        a = list(range(n + 1))
        orders = [a, a[::-1], a[1:] + a[:1], [1, 0] + a[2:], a[:-2] + [n, n - 1], [(i * 5) % (n + 1) for i in a] if (n + 1) % 5 else a]
        for o in orders:
            yield ['s', [o]]
            if n < 7:
                for shared in (1, n - 1, n):
                    yield ['s', [a, [o[i] if o[i] < shared else o[i] + n + 1 - shared for i in range(n + 1)]]]
        if n < 7:
            yield ['s', gen.simplex_boundary(n + 1)]
    for n in (5, 6):
        cube = gen.grid_cubes((1,) * n)[0]
        sym = gen.cube_symmetries(n)[::211 if n == 5 else 7919]
        for p in sym:
            yield ['c', [gen.apply(cube, p)]]
        if n == 5:
            two = gen.grid_cubes((2,) + (1,) * (n - 1))
            for p in sym:
                yield ['c', [two[0], gen.apply(two[1], p)]]


def cases_quads(tier):
    """all sub-complexes of small grids, at most one (quick) cell deviating from its canonical corner order"""
    shapes = [(2, 2), (1, 3), (2, 3)] if tier == 'quick' else [(2, 2), (1, 3), (2, 3), (3, 3)]
    for shape in shapes:
        cells = gen.grid_cubes(shape)
        for r in range(1, len(cells) + 1):
            for sub in itertools.combinations(cells, r):
                for i in range(len(sub)):
                    yield ['c', [list(c) for c in sub], i]


def cases_hexes(tier):
    shapes = [(1, 1, 1), (1, 1, 2), (1, 2, 2)] + ([(2, 2, 2)] if tier != 'quick' else [])
    for shape in shapes:
        cells = gen.grid_cubes(shape)
        for r in range(1, len(cells) + 1):
            for sub in itertools.combinations(cells, r):
                for i in range(len(sub)):
                    yield ['c', [list(c) for c in sub], i]


def cases_cube_pairs(tier):
    q = gen.grid_cubes((1, 2))
    yield ['c', q[0], q[1]]
    yield ['c', q[1], q[0]]
    q = gen.grid_cubes((2, 2))
    yield ['c', q[0], q[3]]
    h = gen.grid_cubes((2, 1, 1))
    yield ['c', h[0], h[1]]
    if tier != 'quick':
        h = gen.grid_cubes((2, 2, 1))
        yield ['c', h[0], h[3]]
        h = gen.grid_cubes((2, 2, 2))
        yield ['c', h[0], h[7]]


def cases_4cubes(tier):
    c = gen.grid_cubes((1, 1, 1, 1))
    yield ['c', c, 0]
    c = gen.grid_cubes((2, 1, 1, 1))
    yield ['c', c, 1]
    if tier != 'quick':
        c = gen.grid_cubes((1, 1, 2, 1))
        yield ['c', c, 0]
        yield ['c', gen.grid_cubes((1, 2, 1, 2)), 2]
        yield ['c', gen.periodic_cubes((3, 3, 3)), 4]


def cases_closed(tier):
    """closed and non-orientable complexes, all cyclic relabellings"""
    base = []
    for n in (3, 4, 5):
        base.append(['c', gen.moebius_cubes(n)])
        base.append(['c', gen.moebius_cubes(n, twist=False)])
    base.append(['c', gen.moebius_cubes(4, 2)])
    base.append(['c', gen.periodic_cubes((3, 3))])
    base.append(['c', gen.periodic_cubes((4, 3), twist=(1,))])
    base.append(['c', gen.periodic_cubes((3, 4))])
    base.append(['s', gen.RP2])
    base.append(['s', gen.TORUS7])
    for n in (5, 6, 7, 8):
        base.append(['s', gen.moebius_triangles(n)])
    for n in (2, 3, 4, 5):
        base.append(['s', gen.cross_polytope(n)])
        base.append(['s', gen.simplex_boundary(n)])
    base.append(['s', gen.split_quads(gen.periodic_cubes((3, 3)))])
    base.append(['s', gen.split_quads(gen.periodic_cubes((4, 3), twist=(1,)))])
    for shape in [(2, 2), (3, 1), (2, 1, 1), (2, 2, 1)] + ([(2, 2, 2), (1, 1, 1, 1)] if tier != 'quick' else []):
        base.append(['s', gen.kuhn(shape)])
    for kind, cells in base:
        n = max(v for c in cells for v in c) + 1
        for shift in range(n if tier != 'quick' or n <= 12 else 4):
            yield [kind, [[(v + shift) % n for v in c] for c in cells]]
            yield [kind, [[(n - 1 - v + shift) % n for v in c] for c in cells[::-1]]]


def check_large(case, rec):
    """index types must carry real mesh sizes: a grid with more than 2^15 elements of every kind, checked in closed form"""
    kind, shape = case
    shape = tuple(shape)
    vs = [s + 1 for s in shape]
    idx = np.arange(np.prod(vs)).reshape(vs)
    a, b, c, d = idx[:-1, :-1], idx[:-1, 1:], idx[1:, :-1], idx[1:, 1:]
    if kind == 'c':
        t = topo.build('c', np.stack([x.ravel() for x in (a, b, c, d)], axis=1))
    else:
        tri = np.concatenate([np.stack([x.ravel() for x in q], axis=1) for q in ((a, b, c), (b, d, c))])
        t = topo.build('s', tri)
    rec.step()
    nv, nq = int(np.prod(vs)), int(np.prod(shape))
    ne = shape[0] * vs[1] + vs[0] * shape[1]
    expected = [nv, ne, nq] if kind == 'c' else [nv, ne + nq, 2 * nq]
    require(list(t.n_elements) == expected, 'count', lambda: '{} expected {}'.format(t.n_elements, expected))
    T01, T12 = [m.astype(np.int64) for m in t.matrices]
    require(abs(T01 * T12).sum() == 0, 'dd', 'dd != 0')
    require((np.asarray(abs(T01).sum(axis=0)) == 2).all(), 'edge', 'edges need two ends')
    require((np.asarray(abs(T12).sum(axis=0)) == (4 if kind == 'c' else 3)).all(), 'face', 'wrong number of edges per face')
    # the vertices of the edges of each face are those of the face
    inc = (abs(T01) * abs(T12)).tocsc()
    inc.sort_indices()
    el = np.sort(t.corners[2], axis=1)
    require(np.array_equal(inc.indices.reshape(el.shape), el), 'lattice', 'edges of a face do not span its vertices')
    for k in range(3):
        I = t.matrix(k, k).astype(np.int64)
        require(I.shape == (expected[k],) * 2 and I.nnz == expected[k] and np.array_equal(I.diagonal(), np.ones(expected[k])), 'identity', lambda: 'matrix({0}, {0})'.format(k))
    rec.outcome('large')
    rec.state(kind, shape)
    rec.trace()


def cases_large(tier):
    for kind in 'cs':
        yield [kind, [200, 190]]
        yield [kind, [16, 17]]     # more than 2^8 but few elements
        yield [kind, [11, 11]]     # more than 2^7


def check_reject(case, rec):
    """vertex labels that are not 0..n-1, and faces whose corners are not glued as a cube, are refused"""
    kind, cells, ok = case
    rec.step()
    rec.state(kind, cells)
    try:
        topo.build(kind, cells)
    except ValueError:
        rec.outcome('rejected')
        require(not ok, 'rejects_valid', 'a valid input was rejected')
    else:
        rec.outcome('accepted')
        require(ok, 'accepts_invalid', 'an input that is not a complex was accepted')
    rec.trace()


def cases_reject(tier):
    # every triangle / quad / edge on 5 labels, alone: valid only if its labels are contiguous from zero
    for size, kind in ((2, 's'), (3, 's'), (4, 's'), (2, 'c'), (4, 'c')):
        for c in itertools.permutations(range(5), size):
            yield [kind, [list(c)], sorted(c) == list(range(size))]
    # two hexes glued on a face with every one of the 24 matchings; only the 8 symmetries of the square are gluings
    h = gen.grid_cubes((2, 1, 1))
    shared = [v for v in h[1][:4]]
    for p in gen.perms(4):
        b = [shared[i] for i in p] + h[1][4:]
        sym = list(p) in gen.cube_symmetries(2)
        yield ['c', [h[0], b], sym]


def check_checkchain(case, rec):
    """check_chain accepts the chain complex of a topology, and rejects it after any single change of sign"""
    kind, cells = case
    t = topo.build(kind, cells)
    rec.state(kind, cells)
    require(t.check_chain() is None, 'check_chain', 'check_chain')
    rec.step()
    rec.outcome('accepted')
    if t.n_dim < 2:
        return
    boundary = [np.asarray(t.incidence[k + 1, k]) for k in range(t.n_dim)]
    for k in range(t.n_dim):
        M = topo.dense(t.matrices[k])
        orient = []
        for j in range(t.n_dim):
            A, B = topo.dense(t.matrices[j]), boundary[j]
            cols = np.arange(len(B)).reshape((-1,) + (1,) * (B.ndim - 1))
            orient.append(A[B, cols].astype(np.int8))
        for pos in range(orient[k].size):
            broken = [o.copy() for o in orient]
            broken[k].reshape(-1)[pos] *= -1
            u = type(t)(elements=list(t.elements), boundary=boundary, orientation=broken)
            rec.step()
            try:
                u.check_chain()
            except ValueError:
                rec.outcome('rejected')
            else:
                require(False, 'check_chain_missed', lambda: 'a flipped sign in matrix {} goes unnoticed'.format(k))
    rec.trace()


def cases_checkchain(tier):
    for kind, cells in gen.base_complexes('quick'):
        if len(cells) <= (3 if tier == 'quick' else 6):
            yield [kind, cells]


SPACES = [
    Space('edges', cases_1d, check, 'all oriented edge sets on 4 (thorough 5) vertices, simplicial and cubical', expect=['dim1']),
    Space('triangles', cases_tri, check, 'all nonempty sets of triangles on 5 vertices x 6 corner orders', expect=['dim2']),
    Space('classes', cases_classes, check, 'all isomorphism classes: triangles/6v pseudo-manifold, tets/6v, 4-simplices/6v (thorough 7v) x relabellings', expect=['dim2', 'dim3', 'dim4']),
    Space('simplex-orders', cases_simplex_family, check_family, 'one or two n-simplices sharing every sub-face and closed simplex boundaries, one cell in every corner order, n=2..4 (thorough 5)', chunk=1),
    Space('simplex-pairs', cases_simplex_pairs, check_pair, 'two simplices, both in every corner order', chunk=1),
    Space('high', cases_high, check, 'simplices of 5-7 dimensions and cubes of 5 and 6 dimensions: alone, in pairs, closed boundaries, several corner orders', chunk=1, expect=['dim5', 'dim6']),
    Space('quads', cases_quads, check_family, 'all subsets of 2x2, 1x3, 2x3 (thorough 3x3) grids, one quad in each of 8 corner orders'),
    Space('hexes', cases_hexes, check_family, 'all subsets of 1x2x2 (thorough 2x2x2) grids, one hex in each of 48 corner orders', chunk=1),
    Space('cube-pairs', cases_cube_pairs, check_pair, 'two cubes, both in every corner order', chunk=1),
    Space('4-cubes', cases_4cubes, check_family, 'two 4-cubes, one in each of 384 corner orders', chunk=1, expect=['dim4']),
    Space('closed', cases_closed, check, 'bands, tori, Klein bottle, projective plane, spheres, Kuhn grids under relabellings'),
    Space('large', cases_large, check_large, 'grids across the 2^7, 2^8 and 2^15 index boundaries', chunk=1),
    Space('arrays', *scales.arrays_space(['plane', 'surface', 'line', 'solid', 'closed', 'cubical', 'regular'], scales.lattice), 'topologies of meshes on 3-4 (5) points of a warped lattice, closed surfaces and parts of grids, their cells given in arrays of 6 layouts and 8 types of integer', chunk=1, expect=['same']),
    Space('reject', cases_reject, check_reject, 'every single cell on 5 labels; two hexes glued in all 24 ways', expect=['rejected', 'accepted']),
    Space('check_chain', cases_checkchain, check_checkchain, 'every catalogue complex of <=3 (6) cells, and each single sign change of its matrices', expect=['accepted', 'rejected']),
]
