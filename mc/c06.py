"""C06: subdivisions and products, over all operation sequences up to a depth"""
import itertools

import numpy as np

from mc import gen, large, ref, topo
from mc.c02 import oriented
from mc.harness import Space, require
from pycomplex.topology.cubical import TopologyCubical, TopologyCubical2
from pycomplex.topology.simplicial import TopologySimplicial, TopologyTriangular

PROPERTY = 'C06'
ASSUMPTIONS = ['coarse topologies are themselves correct face lattices (C01)']


class Lattice(object):
    """face relation of a real topology, from its (verified) matrices"""

    def __init__(self, t):
        self.t = t
        self.N = t.n_dim
        self.n = list(t.n_elements)
        self.offset = np.cumsum([0] + self.n).tolist()
        M = [np.abs(topo.dense(m)) for m in t.matrices]
        self.M = M
        self.below = {}    # (k, i) -> list over dims of sets of faces
        for k in range(self.N + 1):
            for i in range(self.n[k]):
                cur = {i}
                lower = [None] * (k + 1)
                lower[k] = cur
                for d in range(k - 1, -1, -1):
                    cur = {int(f) for c in cur for f in np.flatnonzero(M[d][:, c])}
                    lower[d] = cur
                self.below[k, i] = lower
        m = topo.model_of(t)
        self.cells = [m.cells(np.asarray(e)) for e in t.elements]

    def id(self, k, i):
        return self.offset[k] + i

    def which(self, v):
        k = max(d for d in range(self.N + 1) if v >= self.offset[d])
        return k, v - self.offset[k]

    def flags(self, k, i):
        """all chains vertex < edge < ... < (k, i) as tuples of indices"""
        if k == 0:
            yield (i,)
            return
        for f in sorted(self.below[k, i][k - 1]):
            for c in self.flags(k - 1, f):
                yield c + (i,)

    def between(self, v, k, i):
        """all faces (d, j) of (k, i) that contain the vertex v"""
        out = []
        for d in range(k + 1):
            for j in self.below[k, i][d]:
                if v in self.below[d, j][0]:
                    out.append((d, j))
        return out


def keys(cells):
    return sorted(sorted(int(v) for v in c) for c in cells)


def cellsof(t):
    top = np.asarray(t.elements[-1])
    return [tuple(int(v) for v in c) for c in top.reshape(len(top), -1)]


def barycentric(L, k, i, n):
    """barycentre of an element as exact integer vector over the coarse vertices of a cell (times n!-ish scale)"""
    vs = L.below[k, i][0]
    return {v: 5040 // len(vs) for v in vs}


def sign_in_simplex(L, cell, points):
    """orientation sign of points (dicts vertex -> weight) relative to an ordered coarse simplex"""
    M = [[p.get(v, 0) for v in cell] for p in points]
    return int(np.sign(round(np.linalg.det(np.array(M, dtype=float) / 5040.0) * 1e6)))


def sign_in_cube(cell, points):
    n = len(cell).bit_length() - 1
    coords = {v: np.array(c) for v, c in zip(cell, ref.cube_coords(n))}
    P = [sum(coords[v] * w for v, w in p.items()) / sum(p.values()) for p in points]
    M = np.array([p - P[0] for p in P[1:]])
    return int(np.sign(round(np.linalg.det(M) * 1e6)))


def local_sign(L, kind, cell, points):
    return sign_in_cube(cell, points) if kind == 'cubical' else sign_in_simplex(L, cell, points)


# ------------------------------------------------------------------ reference of each operation
# each returns (expected list of vertex sets of the fine cells, function fine vertex -> weights over coarse vertices)

def weights_of(L):
    def w(v):
        k, i = L.which(v)
        return barycentric(L, k, i, L.N)
    return w


def ref_fundamental(L):
    return keys([[L.id(d, j) for d, j in enumerate(f)] for i in range(L.n[L.N]) for f in L.flags(L.N, i)])


def ref_cubical(L):
    return keys([[L.id(d, j) for d, j in L.between(v, L.N, i)] for i in range(L.n[L.N]) for v in sorted(L.below[L.N, i][0])])


def ref_star(L):
    """every top cell coned from a new vertex, numbered n_vertices + cell"""
    return keys([sorted(L.below[L.N - 1, f][0]) + [L.n[0] + i] for i in range(L.n[L.N]) for f in L.below[L.N, i][L.N - 1]])


def ref_loop(L):
    out = []
    for i in range(L.n[2]):
        es = sorted(L.below[2, i][1])
        out.append([L.n[0] + e for e in es])
        for v in L.below[2, i][0]:
            out.append([v] + [L.n[0] + e for e in es if v in L.below[1, e][0]])
    return keys(out)


def judge(op, t, f, rec, parent=True, oriented_result=True, kinds=None):
    """compare the subdivision f of t against the reference"""
    L = Lattice(t)
    kind = 'cubical' if isinstance(t, TopologyCubical) else 'simplicial'
    N = L.N
    W = weights_of(L)
    if op in ('fundamental', 'fundamental_mirrored'):
        want = ref_fundamental(L)
        fine_kind = 'simplicial'
    elif op == 'cubical':
        want = ref_cubical(L)
        fine_kind = 'cubical'
    elif op == 'star':
        want = ref_star(L)
        fine_kind = 'simplicial'

        def W(v):
            return {v: 5040} if v < L.n[0] else barycentric(L, N, v - L.n[0], N)
    else:
        want = ref_loop(L)
        fine_kind = 'simplicial'
    fm = topo.model_of(f)
    require(fm.kind == fine_kind, 'kind', lambda: '{} gives a {} complex'.format(op, fm.kind))
    require(f.n_dim == N, 'n_dim', 'dimension changed')
    got = keys(fm.top)
    require(got == want, 'cells', lambda: '{}: fine cells differ from the reference: missing {} extra {}'.format(
        op, [c for c in want if c not in got][:3], [c for c in got if c not in want][:3]))
    topo.check_lattice(f, fm)
    # orientation: every fine cell agrees with the orientation of the coarse cell it lies in
    where = {}
    for i in range(L.n[N]):
        vs = L.below[N, i]
        if op == 'star':
            ids = set(vs[0]) | {L.n[0] + i}
        else:
            ids = {L.id(d, j) for d in range(N + 1) for j in vs[d]}
        where[i] = ids
    signs = {}
    for c in fm.top:
        home = [i for i in range(L.n[N]) if set(c) <= where[i]]
        require(len(home) == 1, 'home', lambda: 'fine cell {} lies in coarse cells {}'.format(c, home))
        if fm.kind == 'cubical':
            corners = [c[0]] + [c[1 << (N - 1 - a)] for a in range(N)]
        else:
            corners = list(c)
        s = local_sign(L, kind, L.cells[N][home[0]], [W(v) for v in corners])
        signs.setdefault(s, []).append(c)
    if op == 'fundamental_mirrored':
        # elements are listed by ascending dimension, so that cells that share a face have opposite orientations
        for c in fm.top:
            require([L.which(v)[0] for v in c] == list(range(N + 1)), 'mirrored', lambda: 'unoriented fundamental domain {} is not ordered by dimension'.format(c))
    elif oriented_result:
        require(len(signs) == 1 and 0 not in signs, 'orientation', lambda: '{}: fine cells are not oriented as their parents: {}'.format(op, {k: len(v) for k, v in signs.items()}))
        o = ref.orientation_model(topo.model_of(t))
        if o['pseudo']:
            p = ref.orientation_model(fm)
            require(p['pseudo'] and p['consistent'] == o['consistent'], 'consistent', lambda: '{}: oriented {} -> {}'.format(op, o['consistent'], p.get('consistent')))
            require(p['orientable'] == o['orientable'], 'orientable', 'subdivision changed orientability')
            rec.outcome('oriented' if o['consistent'] else 'not oriented')
    else:
        rec.outcome('no orientation claim')
    if parent:
        require(f.parent is t, 'parent', lambda: '{} does not refer to its parent'.format(op))
    if sum(f.n_elements) <= 160:
        a = ref.betti([topo.dense(x) for x in t.matrices], t.n_elements)
        b = ref.betti([topo.dense(x) for x in f.matrices], f.n_elements)
        require(a == b, 'homology', lambda: '{} changes the Betti numbers {} to {}'.format(op, a, b))
        rec.outcome('homology')


def operations(t):
    """applicable (name, function, has parent, orientation claimed)"""
    ops = []
    if isinstance(t, TopologyCubical):
        ops.append(('cubical', lambda: t.subdivide_cubical(), True, True))
        ops.append(('fundamental', lambda: t.subdivide_fundamental(), True, True))
        if t.n_dim == 2:
            ops.append(('star', lambda: (t if isinstance(t, TopologyCubical2) else t.as_2()).subdivide_simplicial(), False, True))
    else:
        ops.append(('fundamental', lambda: t.subdivide_fundamental(), True, True))
        ops.append(('fundamental_mirrored', lambda: t.subdivide_fundamental(oriented=False), True, False))
        ops.append(('star', lambda: t.subdivide_simplicial(), False, True))
        if t.n_dim == 2:
            tri = t if isinstance(t, TopologyTriangular) else t.as_2()
            ops.append(('cubical', lambda: tri.subdivide_cubical(), False, True))
            ops.append(('loop', lambda: tri.subdivide_loop(), False, True))
            ops.append(('loop_direct', lambda: tri.subdivide_loop_direct(), False, True))
        elif t.n_dim == 3:
            ops.append(('cubical', lambda: t.subdivide_cubical(), False, False))
    return ops


def explore(t, depth, limit, rec, history):
    for name, f, parent, claim in operations(t):
        if t.n_dim < 2 and name in ('star', 'fundamental', 'fundamental_mirrored') and t.n_dim < 1:
            continue
        fine = f()
        rec.step()
        rec.state(history, name)
        rec.outcome(name)
        judge(name, t, fine, rec, parent, claim)
        rec.trace()
        if depth > 1 and fine.n_elements[-1] <= limit:
            explore(fine, depth - 1, limit, rec, history + (name,))


def check_sequence(case, rec):
    kind, cells, depth, limit = case
    t = topo.build(kind, cells)
    explore(t, depth, limit, rec, (kind, str(cells)))


def check_orders(case, rec):
    """one cell in any corner order, glued to another: subdivision may not depend on it"""
    kind, cells, which = case
    size = len(cells[0])
    sym = gen.perms(size) if kind != 'c' else gen.cube_symmetries(size.bit_length() - 1)
    for p in sym:
        c = [gen.apply(x, p) if i == which else x for i, x in enumerate(cells)]
        explore(topo.build(kind, c), 1, 0, rec, (kind, str(c)))


def check_product(case, rec):
    a, b = case
    A, B = topo.build('c', a), topo.build('c', b)
    P = A.product(B)
    rec.step()
    rec.state(a, b)
    n0 = A.n_elements[0]
    want = keys([[x + n0 * y for x in ca for y in cb] for ca in a for cb in b])
    pm = topo.model_of(P)
    require(P.n_dim == A.n_dim + B.n_dim, 'n_dim', 'dimension of a product')
    require(keys(pm.top) == want, 'cells', 'cells of a product')
    topo.check_lattice(P, pm)
    # every cell is the product of the corner arrays, in order
    top = np.asarray(P.elements[-1])
    flat = [tuple(int(v) for v in c) for c in top.reshape(len(top), -1)]
    cells = [tuple(x + n0 * y for x in ca for y in cb) for ca in a for cb in b]
    require(sorted(flat) == sorted(cells), 'corners', 'corner arrays of a product are not products of corner arrays')
    # element counts are the convolution
    for k in range(P.n_dim + 1):
        n = sum(A.n_elements[i] * B.n_elements[k - i] for i in range(k + 1) if i <= A.n_dim and k - i <= B.n_dim)
        require(P.n_elements[k] == n, 'count', lambda: '{}-elements of a product: {} expected {}'.format(k, P.n_elements[k], n))
    oa, ob, op = (ref.orientation_model(m) for m in (topo.model('c', a), topo.model('c', b), pm))
    if oa['pseudo'] and ob['pseudo']:
        require(op['pseudo'] and op['consistent'] == (oa['consistent'] and ob['consistent']), 'oriented', 'orientation of a product')
        require(op['orientable'] == (oa['orientable'] and ob['orientable']), 'orientable', 'orientability of a product')
        rec.outcome('oriented' if op['consistent'] else 'not oriented')
    if sum(P.n_elements) <= 400:
        ba, bb, bp = (ref.betti([topo.dense(x) for x in t.matrices], t.n_elements) for t in (A, B, P))
        kun = [sum(ba[i] * bb[k - i] for i in range(k + 1) if i < len(ba) and k - i < len(bb)) for k in range(P.n_dim + 1)]
        require(bp == kun, 'kunneth', lambda: 'Betti numbers of a product: {} expected {}'.format(bp, kun))
    rec.trace()


def cases_sequence(tier):
    big = tier != 'quick'
    for kind, cells in gen.base_complexes('quick'):
        N = topo.model(kind, cells).n_dim
        if N > 3 or len(cells) > (14 if big else 10):
            continue
        o = ref.orientation_model(topo.model(kind, cells))
        variants = [cells]
        if o['orientable']:
            variants = [oriented(kind, cells)]
            if o['consistent'] is False:
                variants.append(cells)
        for v in variants:
            deep = len(v) <= (2 if N >= 2 else 3)
            if N == 1:
                depth = 4 if big else 3
            elif N == 2:
                depth = (3 if len(v) <= 3 else 2) if big else (2 if len(v) <= 5 else 1)
            else:
                depth = 2 if (deep and len(v) <= (2 if big else 1)) else 1
            yield [kind, v, depth, 400 if big else 60]
    yield ['t', [[0, 1, 2]], 3 if big else 2, 400]
    yield ['t', [[0, 1, 2], [1, 3, 2]], 3 if big else 2, 400]
    yield ['t', oriented('s', gen.simplex_boundary(3)), 3 if big else 2, 400]
    yield ['c', gen.grid_cubes((1, 1, 1, 1)), 1, 0]
    yield ['s', [[0, 1, 2, 3, 4]], 1, 0]
    if big:
        yield ['c', gen.grid_cubes((2, 1, 1, 1)), 1, 0]
        yield ['s', [[0, 1, 2, 3, 4], [1, 0, 2, 3, 5]], 1, 0]
        yield ['s', [[0, 1, 2, 3, 4, 5]], 1, 0]


def cases_orders(tier):
    yield ['s', [[0, 1, 2], [1, 3, 2]], 0]
    yield ['s', [[0, 1, 2], [1, 3, 2]], 1]
    yield ['t', oriented('s', gen.simplex_boundary(3)), 0]
    yield ['c', gen.grid_cubes((1, 2)), 0]
    yield ['c', gen.grid_cubes((1, 2)), 1]
    yield ['c', gen.grid_cubes((1, 1)), 0]
    yield ['s', [[0, 1, 2, 3]], 0]
    yield ['s', [[0, 1, 2, 3], [0, 2, 1, 4]], 1]
    yield ['c', gen.grid_cubes((1, 1, 1)), 0]
    if tier != 'quick':
        yield ['c', gen.grid_cubes((1, 1, 2)), 0]
        yield ['c', gen.grid_cubes((1, 1, 2)), 1]
        yield ['c', gen.grid_cubes((2, 2)), 3]
        yield ['c', gen.grid_cubes((2, 2)), 0]


def factors(tier):
    out = [[[0, 1]], [[1, 0]], [[0, 1], [1, 2]], [[0, 1], [2, 1]], [[0, 1], [1, 2], [2, 0]], [[0, 1], [1, 2], [2, 3], [3, 0]], [[0, 1], [2, 3]],
           gen.grid_cubes((1, 1)), gen.grid_cubes((1, 2)), gen.moebius_cubes(3), [[0, 1], [1, 2], [0, 2]]]
    if tier != 'quick':
        out += [gen.grid_cubes((2, 2)), gen.periodic_cubes((3, 3)), gen.grid_cubes((1, 1, 1)), gen.moebius_cubes(3, twist=False), gen.compact([c for i, c in enumerate(gen.grid_cubes((3, 3))) if i != 4])]
    return out


def cases_product(tier):
    F = factors(tier)
    for a in F:
        for b in F:
            if (len(a[0]).bit_length() + len(b[0]).bit_length() - 2) <= 4:
                yield [a, b]


SPACES = [
    Space('sequences', cases_sequence, check_sequence, 'every sequence of applicable subdivisions up to depth 2-3 (thorough 4) from every catalogue complex of dimension <=3, and once from a 4-cube and 4-simplex', chunk=2,
          expect=['cubical', 'fundamental', 'fundamental_mirrored', 'star', 'loop', 'loop_direct', 'homology', 'oriented', 'not oriented']),
    Space('orders', cases_orders, check_orders, 'every subdivision of one or two cells with one cell in every corner order', chunk=1),
    Space('products', cases_product, check_product, 'products of all pairs of 11 (16) cubical complexes', chunk=4, expect=['oriented', 'not oriented']),
    Space('large', large.cases('fan', 'sphere', 'tets', 'quads', 'hex', tets=6000), large.check_subdivide, '40 to 16500 copies of five small complexes: more than 2^15 elements of every kind', chunk=1, expect=['fundamental', 'star', 'cubical', 'loop', 'loop_direct']),
]
