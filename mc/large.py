"""Complexes of many elements: K disjoint copies of a small complex, whose every quantity is known from the small one.

Indices that are fine for a handful of elements may not be for 2^7, 2^8, 2^15 or 2^16 of them.  The small complex is checked
against the reference elsewhere; here the same operation on K copies must give K copies of the result."""
import numpy as np
import scipy.sparse as sp

from mc import gen, topo
from mc.harness import require


def base(name):
    """small complexes, with an interior and a boundary"""
    if name == 'fan':
        return 't', [[0, 1, 5], [1, 2, 5], [2, 3, 5], [3, 4, 5], [4, 0, 5]]
    if name == 'sphere':
        return 's', [[1, 2, 3], [0, 3, 2], [0, 1, 3], [0, 2, 1]]
    if name == 'edges':
        return 's', [[0, 1], [1, 2]]
    if name == 'tets':
        return 's', [[0, 1, 2, 3], [1, 2, 3, 4][::-1]]
    if name == 'tet':
        return 's', [[0, 1, 2, 3]]
    if name == 'quads':
        return 'c', gen.grid_cubes((2, 1))
    if name == 'hex':
        return 'c', gen.grid_cubes((1, 1, 1))
    raise KeyError(name)


def rows(a):
    """rows of a matrix as a one dimensional array of keys"""
    a = np.ascontiguousarray(np.sort(np.asarray(a, dtype=np.int64), axis=1))
    return a.view([('', a.dtype)] * a.shape[1]).reshape(-1)


def locate(keys, query, tag, what):
    """index in keys of every query; both must be the same set"""
    require(len(keys) == len(query), tag, lambda: '{}: {} elements expected {}'.format(what, len(keys), len(query)))
    o, p = np.argsort(keys), np.argsort(query)
    require((keys[o] == query[p]).all(), tag, lambda: '{}: elements differ'.format(what))
    out = np.empty(len(keys), dtype=np.int64)
    out[p] = o
    return out


def corners(t):
    return [np.asarray(e).reshape(len(e), -1).astype(np.int64) for e in t.elements]


def tile(a, n, K):
    """K copies of the element array a, on n vertices"""
    a = np.asarray(a).reshape(len(a), -1)
    return (np.arange(K)[:, None, None] * n + a[None]).reshape(-1, a.shape[1])


class Tiles(object):
    """K copies of a small complex; at[k][c * n_k + i] is the large k-element that is copy c of the small k-element i"""

    def __init__(self, name, K, build=None):
        self.kind, cells = base(name)
        build = build or topo.build
        self.K = K
        self.cells = np.array(cells)
        self.n0 = int(self.cells.max()) + 1
        self.small = build(self.kind, cells)
        self.large = build(self.kind, tile(self.cells, self.n0, K))
        self.N = self.small.n_dim
        self.n = list(self.small.n_elements)
        self.at = match(self.small, self.large, K)

    def flat(self, k, x):
        """values of the large k-elements in tile order [K, n_k, ...]"""
        x = np.asarray(x)
        return x[self.at[k]].reshape((self.K, self.n[k]) + x.shape[1:])


def match(small, large, K, first=None, tag='elements'):
    """indices of K copies of the elements of a small topology in the large one.
    first: the large vertex that is copy c of the small vertex i, [K * n]"""
    n0 = small.n_elements[0]
    if first is None:
        first = np.arange(n0 * K)
    require(large.n_elements[0] == n0 * K, tag, lambda: '{} vertices expected {}'.format(large.n_elements[0], n0 * K))
    at = [np.asarray(first)]
    for k in range(1, small.n_dim + 1):
        want = at[0][tile(corners(small)[k], n0, K)]
        at.append(locate(rows(corners(large)[k]), rows(want), tag, '{}-elements'.format(k)))
    return at


def same_matrix(M, m, K, row, col, tag, what, signed=True):
    """M, with rows and columns in tile order, is K copies of m"""
    M, m = sp.csr_matrix(M), sp.csr_matrix(m)
    require(M.shape == (m.shape[0] * K, m.shape[1] * K), tag, lambda: '{}: shape {} for {} copies of {}'.format(what, M.shape, K, m.shape))
    A = M.astype(np.float64)[row][:, col]
    B = sp.kron(sp.identity(K), m.astype(np.float64), format='csr')
    if not signed:
        A, B = abs(A), abs(B)
    require(abs(A - B).max() < 1e-6 if A.shape[0] * A.shape[1] else True, tag, lambda: '{} is not {} copies of the same matrix'.format(what, K))


def same_chain(T, t, at, K, tag='matrices', top=None):
    """the boundary matrices of T are K copies of those of t, up to the orientation of the elements in between"""
    sign = np.ones(T.n_elements[0])
    for k in range(t.n_dim):
        M = sp.csr_matrix(T.matrices[k]).astype(np.float64)
        m = sp.csr_matrix(t.matrices[k]).astype(np.float64)
        same_matrix(M, m, K, at[k], at[k + 1], tag, 'matrix {}'.format(k), signed=False)
        A = sp.diags(sign) @ M[at[k]][:, at[k + 1]]
        B = sp.kron(sp.identity(K), m, format='csr')
        # the relative orientation of each column
        s = np.asarray(A.multiply(B).sum(axis=0)).reshape(-1)
        cnt = np.asarray(abs(B).sum(axis=0)).reshape(-1)
        require((np.abs(s) == cnt).all(), tag, lambda: 'the signs of matrix {} differ between copies'.format(k))
        sign = np.sign(s)
    if top:
        require((sign == sign[0]).all(), tag, 'the orientation of cells differs between copies')


MANY = {'edges': 33000, 'fan': 6700, 'sphere': 8300, 'tets': 17000, 'quads': 16500, 'hex': 6000}


def cases(*names, **many):
    """numbers of copies that take the number of elements of each kind past 2^7, 2^8 and 2^15 (vertices, edges: 2^16)"""
    def f(tier):
        for name in names:
            for K in (40, 70) + ((1000,) if tier != 'quick' else ()) + (many.get(name, MANY[name]),):
                yield [name, K]
    return f


# ---- C02

def check_orientation(case, rec):
    name, K = case
    T = Tiles(name, K)
    cells = corners(T.large)[-1]
    n = len(cells)
    i = np.arange(n)
    for pattern in ((i * i + i // 7) % 3 == 0, i == n - 1, i >= n // 2, i < -1):
        # flip within copies only what leaves the expected parity well defined
        flipped = cells.copy()
        for j in np.flatnonzero(pattern):
            flipped[j] = gen.flip(cells[j].tolist(), T.kind)
        t = topo.build(T.kind, flipped)
        rec.step()
        rec.state(name, K, int(pattern.sum()))
        mixed = pattern.reshape(K, -1)
        consistent = (mixed == mixed[:, :1]).all()
        require(bool(t.is_oriented) == bool(consistent), 'is_oriented', lambda: '{} copies are reported as {}oriented'.format(K, '' if t.is_oriented else 'not '))
        p = np.asarray(t.relative_parity()).astype(bool).reshape(K, -1)
        require(((p ^ p[:, :1]) == (mixed ^ mixed[:, :1])).all(), 'parity', 'relative parity within a copy')
        f = t.fix_orientation()
        rec.step()
        # the columns of the matrix of each copy agree up to one sign
        c = corners(f)[-1]
        require((np.sort(c, axis=1) == np.sort(cells, axis=1)).all(), 'fix_cells', 'fix_orientation changed the cells')
        require(bool(f.is_oriented), 'fix_oriented', 'fix_orientation gives a complex that is not oriented')
        x = np.asarray(abs(f.matrices[-1].astype(np.int64) @ np.ones(n, dtype=np.int64))).reshape(-1)
        y = np.asarray(abs(T.small.matrices[-1].astype(np.int64) @ np.ones(T.n[-1], dtype=np.int64))).reshape(-1)
        require((np.sort(x) == np.sort(np.tile(y, K))).all(), 'fix', 'fix_orientation left faces inside that do not cancel')
        rec.outcome('consistent' if consistent else 'inconsistent')
        rec.trace()


# ---- C03, C04

def check_boundary(case, rec):
    name, K = case
    T = Tiles(name, K)
    rec.state(name, K)
    same_chain(T.large, T.small, T.at, K, top=True)
    b, s = T.large.boundary, T.small.boundary
    rec.step(2)
    require((b is None) == (s is None), 'closed', 'closedness depends on the number of copies')
    require(bool(T.large.is_closed) == (s is None), 'is_closed', 'is_closed')
    N = T.N
    on = [np.zeros(T.large.n_elements[k], dtype=bool) for k in range(N + 1)]
    if s is not None:
        for k in range(N):
            idx = np.asarray(b.parent_idx[k]).astype(np.int64)
            want = T.at[k][tile(np.asarray(s.parent_idx[k]).reshape(-1, 1), T.n[k], K).reshape(-1)]
            require(len(idx) == b.n_elements[k] and np.array_equal(np.sort(idx), np.sort(want)), 'boundary', lambda: 'boundary {}-elements are not those of the copies'.format(k))
            on[k][idx] = True
            mapped = np.asarray(b.parent_idx[0])[corners(b)[k]]
            require(np.array_equal(mapped if k else mapped, corners(T.large)[k][idx]) or
                    np.array_equal(np.sort(mapped, axis=1), np.sort(corners(T.large)[k][idx], axis=1)), 'parent_idx', lambda: 'boundary {}-elements refer to the wrong parents'.format(k))
        for k in range(N - 1):
            A = sp.csr_matrix(b.matrices[k]).astype(int)
            B = sp.csr_matrix(T.large.matrices[k]).astype(int)[b.parent_idx[k]][:, b.parent_idx[k + 1]]
            require(A.shape == B.shape and abs(A - B).nnz == 0, 'restriction', lambda: 'boundary matrix {} is not the restriction of the parent matrix'.format(k))
        rec.outcome('open')
    else:
        rec.outcome('closed')
    for k in range(N + 1):
        r = np.arange(len(on[k]))
        for S, want, what in ((T.large.selector_interior[k], r[~on[k]], 'interior'), (T.large.selector_boundary[k], r[on[k]], 'boundary')):
            S = sp.csr_matrix(S)
            require(S.shape == (len(want), len(r)) and S.nnz == len(want) and np.array_equal(S.astype(np.int64) @ r, want), 'selector',
                    lambda: '{} selector of {}-elements'.format(what, k))
    rec.step(2)
    rec.trace()


def dual_map(T, small_boundary_at=None):
    """tile order of the dual elements, by dual dimension, interior elements only, and of the boundary elements"""
    out = []
    b, s = T.large.boundary, T.small.boundary
    for n in range(T.N + 1):
        k = T.N - n
        inner = T.at[k].reshape(T.K, -1)
        if s is not None and n < T.N:
            j = k - 1
            # position of parent element -> boundary element
            pos = np.full(T.large.n_elements[j], -1)
            pos[np.asarray(b.parent_idx[j])] = np.arange(b.n_elements[j])
            parents = T.at[j].reshape(T.K, -1)[:, np.asarray(s.parent_idx[j])]
            outer = T.large.n_elements[k] + pos[parents]
            inner = np.concatenate([inner, outer], axis=1)
        out.append(inner.reshape(-1))
    return out


def check_dual(case, rec):
    name, K = case
    T = Tiles(name, K)
    rec.state(name, K)
    d, e = T.large.dual, T.small.dual
    rec.step(2)
    require(list(d.n_elements) == [K * x for x in e.n_elements], 'n_elements', lambda: 'dual has {} elements, expected {} times {}'.format(list(d.n_elements), K, list(e.n_elements)))
    at = dual_map(T)
    for n in range(T.N):
        same_matrix(d.matrices[n], e.matrices[n], K, at[n], at[n + 1], 'dual', 'dual matrix {}'.format(n), signed=False)
        inner = sp.csr_matrix(d.matrices[n]).astype(int)[:T.large.n_elements[T.N - n], :T.large.n_elements[T.N - n - 1]]
        require(abs(inner - sp.csr_matrix(T.large.matrices[T.N - n - 1]).astype(int).T).nnz == 0, 'interior', 'the interior part of the dual is not the transposed primal')
    M = [sp.csr_matrix(m).astype(np.int64) for m in d.matrices]
    for a, b in zip(M[:-1], M[1:]):
        require(abs(a @ b).sum() == 0, 'dd', 'the dual is not a chain complex')
    require((np.asarray(abs(M[0]).sum(axis=0)) == 2).all() and not np.asarray(M[0].sum(axis=0)).any(), 'two_ends', 'dual edges need a head and a tail')
    for k in range(T.N + 1):
        n = T.N - k
        nd, p = d.n_elements[n], T.large.n_elements[k]
        for S, want, what in ((d.selector_interior[k], np.arange(p), 'interior'), (d.selector_boundary[k], np.arange(p, nd), 'boundary')):
            S = sp.csr_matrix(S)
            require(S.shape == (len(want), nd) and S.nnz == len(want) and np.array_equal(S.astype(np.int64) @ np.arange(nd), want), 'selector', lambda: 'dual {} selector {}'.format(what, k))
    for n in range(T.N):
        x = sp.csr_matrix(d.matrices_2[n]).astype(int)
        require(abs(x - M[n][:, :T.large.n_elements[T.N - n - 1]]).nnz == 0, 'matrices_2', 'dual derivatives without boundary')
    rec.step(3)
    rec.outcome('open' if T.small.boundary is not None else 'closed')
    rec.trace()


# ---- C05

def check_graph(case, rec):
    name, K = case
    T = Tiles(name, K)
    t = T.large
    rec.state(name, K)
    n, labels = t.label_connections()
    labels = np.asarray(labels)
    rec.step()
    require(n == K and labels.shape == (t.n_elements[-1],), 'components', lambda: '{} components expected {}'.format(n, K))
    by = labels.reshape(K, -1)
    require((by == by[:, :1]).all() and np.array_equal(np.sort(by[:, 0]), np.arange(K)), 'labels', 'labels are not those of the components')
    require(bool(t.is_connected) == (K == 1), 'is_connected', 'is_connected')
    f = np.cos(np.arange(t.n_elements[0]) * 1.7)
    g = np.cos(np.arange(t.n_elements[-1]) * 1.3)
    A0, AN, C0, CN, deg = t.averaging_operators_0, t.averaging_operators_N, t.accumulated_operators_0(), t.accumulated_operators_N(), t.degree
    a0, aN, c0, cN, d = T.small.averaging_operators_0, T.small.averaging_operators_N, T.small.accumulated_operators_0(), T.small.accumulated_operators_N(), T.small.degree
    rec.step(5)
    el = corners(t)
    own = [np.zeros(0, dtype=int)] * (T.N + 1)
    for k in range(T.N + 1):
        require(np.abs(A0[k] @ f - f[el[k]].mean(axis=1)).max() < 1e-5, 'averaging_0', lambda: 'average over vertices of {}-elements'.format(k))
        same_matrix(A0[k], a0[k], K, T.at[k], T.at[0], 'averaging_0', 'average over vertices of {}-elements'.format(k))
        same_matrix(AN[k], aN[k], K, T.at[k], T.at[-1], 'averaging_N', 'average over cells of {}-elements'.format(k))
        same_matrix(C0[k] != 0, c0[k] != 0, K, T.at[0], T.at[k], 'accumulated_0', 'incidence of vertices and {}-elements'.format(k))
        same_matrix(CN[k] != 0, cN[k] != 0, K, T.at[-1], T.at[k], 'accumulated_N', 'incidence of cells and {}-elements'.format(k))
        require(np.array_equal(T.flat(k, np.asarray(deg[k]).reshape(-1)), np.tile(np.asarray(d[k]).reshape(-1), (K, 1))), 'degree', lambda: 'degree of {}-elements'.format(k))
    # subsets: every third copy, given as mask and as indices
    copies = np.arange(0, K, 3)
    chosen = (copies[:, None] * T.n[-1] + np.arange(T.n[-1])).reshape(-1)
    mask = np.zeros(t.n_elements[-1], dtype=bool)
    mask[chosen] = True
    for c in (mask, t.chain(-1, fill=chosen)):
        s = t.select_subset(c)
        rec.step()
        at = match(T.small, s, len(copies), tag='subset')
        for k in range(T.N + 1):
            want = T.at[k].reshape(K, -1)[copies].reshape(-1)
            require(len(s.parent_idx[k]) == len(want) and np.array_equal(np.asarray(s.parent_idx[k])[at[k]], want), 'subset_parent_idx', lambda: 'parent {}-elements of a subset'.format(k))
    rec.trace()
    if K <= 70:
        r = np.asarray(t.regions_per_vertex).reshape(K, -1)
        require(np.array_equal(r, np.tile(np.asarray(T.small.regions_per_vertex), (K, 1))), 'regions', 'regions per vertex')
        parts = t.split_connected_components()
        require(len(parts) == K, 'split', 'number of components')
        rec.step(2)
        rec.outcome('split')
    rec.outcome('large')


def check_star(case, rec):
    """more cells around one vertex than fit in 15 bits"""
    kind, n = case
    rim = np.arange(n)
    nxt = (rim + 1) % n
    if kind == 'c':
        cells = np.stack([np.full(n, 2 * n), rim, nxt, rim + n], axis=1)
    else:
        cells = np.stack([np.full(n, n), rim, nxt], axis=1)
    t = topo.build(kind, cells)
    rec.step(4)
    rec.state(kind, n)
    c = cells[0, 0]
    for k, d in enumerate(t.degree):
        d = np.asarray(d).reshape(-1).astype(np.int64)
        els = corners(t)[k]
        if k == 0:
            want = np.bincount(cells.reshape(-1), minlength=len(d))
        elif k == 1:
            want = np.where((els == c).any(axis=1), 2, 1)
        else:
            want = np.ones(len(d))
        require(np.array_equal(d, want), 'degree', lambda: 'degree of {}-elements around a vertex of {} cells'.format(k, n))
    f = np.cos(rim)
    require(abs((t.averaging_operators_N[0] @ f)[c] - f.mean()) < 1e-6 and abs((t.averaging_operators_N[0] @ np.ones(n)) - 1).max() < 1e-6, 'averaging_N',
            lambda: 'average over {} cells'.format(n))
    require(t.label_connections()[0] == 1 and bool(t.is_connected), 'components', 'one component')
    rec.trace()


def cases_star(tier):
    for kind in 'sc':
        for n in (127, 128, 255, 256, 32767, 32768, 33000) + ((65535, 65536, 66000) if tier != 'quick' else ()):
            yield [kind, n]


# ---- C06, C07

def numbering(T, top_only=False):
    """the fine vertex of copy c of coarse element (k, i), in the order of the fine vertices of the small complex"""
    dims = [0, T.N] if top_only == 'star' else [0, 1] if top_only == 'loop' else range(T.N + 1)
    off, out = 0, []
    for k in dims:
        out.append(off + T.at[k].reshape(T.K, -1))
        off += T.large.n_elements[k]
    return np.concatenate(out, axis=1).reshape(-1)


def subdivisions(t, kind):
    if kind == 'c':
        ops = [('cubical', None, lambda x: x.subdivide_cubical()), ('fundamental', None, lambda x: x.subdivide_fundamental())]
        if t.n_dim == 2:
            ops.append(('star', 'star', lambda x: x.as_2().subdivide_simplicial()))
        return ops
    ops = [('fundamental', None, lambda x: x.subdivide_fundamental()), ('mirrored', None, lambda x: x.subdivide_fundamental(oriented=False)),
           ('star', 'star', lambda x: x.subdivide_simplicial())]
    if t.n_dim == 2:
        ops.append(('cubical', None, lambda x: x.as_2().subdivide_cubical()))
        ops.append(('loop', 'loop', lambda x: x.as_2().subdivide_loop()))
        ops.append(('loop_direct', 'loop', lambda x: x.as_2().subdivide_loop_direct()))
    elif t.n_dim == 3:
        ops.append(('cubical', None, lambda x: x.subdivide_cubical()))
    return ops


def check_subdivide(case, rec):
    name, K = case
    T = Tiles(name, K)
    for op, dims, f in subdivisions(T.small, T.kind):
        s, l = f(T.small), f(T.large)
        rec.step()
        rec.state(name, K, op)
        rec.outcome(op)
        at = match(s, l, K, numbering(T, dims), tag='fine')
        same_chain(l, s, at, K, 'fine_matrices', top=op not in ('mirrored',) and not (op == 'cubical' and T.N == 3 and T.kind != 'c'))
        rec.trace()


def check_transfers(case, rec):
    name, K = case
    T = Tiles(name, K)
    for op, dims, f in subdivisions(T.small, T.kind):
        if (op, T.kind == 'c') not in (('cubical', True), ('loop', False), ('loop_direct', False)):
            continue
        s, l = f(T.small), f(T.large)
        rec.step()
        rec.state(name, K, op)
        rec.outcome(op)
        at = match(s, l, K, numbering(T, dims), tag='fine')
        for n in range(T.N + 1):
            same_matrix(l.transfer_matrices[n], s.transfer_matrices[n], K, at[n], T.at[n], 'transfer', '{}: transfer {}'.format(op, n))
        if T.small.boundary is not None:
            for n, (a, b) in enumerate(zip(l.dual.transfer_matrices, s.dual.transfer_matrices)):
                require(a.shape == (b.shape[0] * K, b.shape[1] * K) and a.nnz == b.nnz * K, 'dual_transfer', lambda: '{}: dual transfer {}'.format(op, n))
                k = T.N - n
                x = sp.csr_matrix(a)[:l.n_elements[k], :T.large.n_elements[k]].astype(int)
                require(abs(x - sp.csr_matrix(l.transfer_matrices[k]).astype(int)).nnz == 0, 'dual_transfer', lambda: '{}: dual transfer {}'.format(op, n))
        if op == 'cubical':
            o, p = T.large.subdivide_cubical_relations(l)
            rec.step()
            for n in range(T.N + 1):
                c = corners(l)[n]
                x, y = np.asarray(o[n]).reshape(c.shape).astype(np.int64), np.asarray(p[n]).reshape(c.shape).astype(np.int64)
                off = np.cumsum([0] + list(T.large.n_elements))
                require(((0 <= x) & (x <= T.N)).all() and np.array_equal(off[x] + y, c), 'relations', lambda: 'order/parent of fine {}-elements'.format(n))
        rec.trace()


# ---- geometry: the copies are laid out on a lattice, so that they do not meet

SHAPES = {
    'fan': [[2 * np.cos(a) + .05 * i % .12, 2 * np.sin(a)] for i, a in enumerate(np.arange(5) * np.pi * .4)] + [[0.03, 0.02]],
    'edges': [[0.], [1.], [1.7]],
    'tets': [[-1.05, -1, -1], [-1, 1, 1.1], [1, -1, 1], [1, 1, -1], [5 / 3., 5 / 3., 1.7]],
    'quads': [[0, 0], [0, 1], [1.5, 0], [1.5, 1], [2.25, 0], [2.25, 1]],
    'hex': [[i, j * 1.5, k * .75] for i in (0, 1) for j in (0, 1) for k in (0, 1)],
}


class Laid(Tiles):
    """K copies of a complex with vertex positions"""

    def __init__(self, name, K, make):
        super(Laid, self).__init__(name, K)
        V = np.array(SHAPES[name], dtype=float)
        if name == 'quads':
            # the numbering of gen.grid_cubes((2, 1)) is row major
            assert V.shape == (self.n0, 2)
        dim = V.shape[1]
        side = int(np.ceil(K ** (1. / dim) - 1e-9))
        i = np.arange(K)
        self.shift = np.stack([i // side ** a % side for a in range(dim)], axis=1) * 8.
        self.V = V
        self.small_c = make(V, self.small)
        self.large_c = make((self.shift[:, None] + V[None]).reshape(-1, dim), self.large)

    def positions(self, large, small, at, tag, what):
        """positions of elements: those of the small complex, moved"""
        x = np.asarray(large)[at].reshape((self.K,) + np.asarray(small).shape)
        y = self.shift[:, None] + np.asarray(small)[None]
        require(np.abs(x - y).max(initial=0) < 1e-6, tag, lambda: '{}: off by {}'.format(what, np.abs(x - y).max()))

    def values(self, large, small, at, tag, what):
        x = np.asarray(large)
        s = np.asarray(small)
        require(x.shape == (self.K * len(s),) + s.shape[1:], tag, lambda: '{}: shape {} for {} copies of {}'.format(what, x.shape, self.K, s.shape))
        x = x[at].reshape((self.K,) + s.shape)
        require(np.abs(x - s[None]).max(initial=0) < 1e-6 * (1 + np.abs(s).max(initial=0)), tag, lambda: '{}: copies differ by {}'.format(what, np.abs(x - s[None]).max()))


def laid(name, K):
    from mc.c08 import build
    from pycomplex.complex.cubical import ComplexCubical
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian

    def make(V, t):
        if name == 'fan':
            return ComplexTriangularEuclidian(vertices=V, topology=t)
        if name in ('edges', 'tets'):
            return ComplexSimplicialEuclidian(vertices=V, topology=t)
        base = ComplexCubical(vertices=V, topology=t)
        return {1: base.as_11, 2: base.as_22, 3: base.as_33}[t.n_dim]().as_regular()
    return Laid(name, K, make)


def check_smooth(case, rec):
    """positions, smoothing and smooth subdivision with creases on many elements"""
    name, K = case
    T = laid(name, K)
    s, l = T.small_c, T.large_c
    rec.state(name, K)
    for k in range(T.N + 1):
        T.positions(l.primal_position[k], s.primal_position[k], T.at[k], 'primal_position', 'position of {}-elements'.format(k))
    cs = [{}]
    for k in range(T.N):
        for i in sorted({0, T.n[k] - 1}):
            cs.append({k: [i]})
    cs.append({k: [0, T.n[k] - 1] for k in range(T.N)})
    for n, c in enumerate(cs):
        small = {k: s.topology.chain(k, fill=np.array(x)) for k, x in c.items()}
        large = {k: l.topology.chain(k, fill=T.at[k].reshape(K, -1)[:, x].reshape(-1)) for k, x in c.items()}
        a, b = l.smooth(large or None), s.smooth(small or None)
        rec.step(2)
        T.positions(a.vertices, b.vertices, T.at[0], 'smooth', 'smoothing with creases {}'.format(c))
        o, p = l.smooth_operator(large or None), s.smooth_operator(small or None)
        same_matrix(o, p, K, T.at[0], T.at[0], 'smooth_operator', 'smoothing operator with creases {}'.format(c))
        for op, dims, f in ([('cubical', None, lambda x, **k: x.subdivide_cubical(**k))] if T.kind == 'c' else [('loop', 'loop', lambda x, **k: x.subdivide_loop(**k))] if T.N == 2 else []):
            A, B = f(l), f(s)
            at = match(B.topology, A.topology, K, numbering(T, dims), tag='fine')
            T.positions(A.vertices, B.vertices, at[0], 'subdivide', 'vertices of a subdivision')
            A, B = f(l, smooth=True, creases=large or None), f(s, smooth=True, creases=small or None)
            at = match(B.topology, A.topology, K, numbering(T, dims), tag='fine')
            T.positions(A.vertices, B.vertices, at[0], 'subdivide_smooth', 'smooth subdivision with creases {}'.format(c))
            rec.step(2)
            rec.outcome(op)
        rec.outcome('creases' if c else 'plain')
        rec.trace()
    # part of the complex keeps the positions and refers to the whole
    chosen = np.arange(0, K, 3)
    mask = np.zeros(l.topology.n_elements[-1], dtype=bool)
    mask[(chosen[:, None] * T.n[-1] + np.arange(T.n[-1])).reshape(-1)] = True
    part = l.select_subset(mask)
    want = l.vertices.reshape(K, -1)[chosen].reshape(-1, l.vertices.shape[1])
    require(np.array_equal(part.vertices, want), 'subset', 'vertices of a subset')
    b = l.boundary
    require(np.array_equal(b.vertices, l.vertices[np.asarray(l.topology.boundary.parent_idx[0])]), 'boundary', 'vertices of the boundary')
    rec.step(2)


def check_metric(case, rec):
    name, K = case
    T = laid(name, K)
    s, l = T.small_c, T.large_c
    rec.state(name, K)
    at = dual_map(T)
    for k in range(T.N + 1):
        T.values(l.primal_metric[k], s.primal_metric[k], T.at[k], 'primal', 'primal {}-metric'.format(k))
        # the dual metrics are those of the elements inside
        T.values(l.dual_metric[k], s.dual_metric[k], T.at[T.N - k], 'dual', 'dual {}-metric'.format(k))
        T.values(l.hodge_PD[k], s.hodge_PD[k], T.at[k], 'hodge', 'hodge {}'.format(k))
        T.values(l.hodge_DP[k], s.hodge_DP[k], T.at[k], 'hodge', 'inverse hodge {}'.format(k))
        T.values(l.dual_metric_closed[k], s.dual_metric_closed[k], at[k], 'dual_closed', 'closed dual {}-metric'.format(k))
        T.positions(l.dual_position[k], s.dual_position[k], at[k], 'dual_position', 'position of dual {}-elements'.format(k))
    rec.step(6)
    for what in ('is_well_centered', 'is_pairwise_delaunay'):
        require(bool(getattr(l, what)) == bool(getattr(s, what)), what, what)
        rec.step()
    rec.outcome('large')
    rec.trace()


def check_weights(case, rec):
    """weights of every copy are those of one, on many elements"""
    name, K = case
    T = laid(name, K)
    s, l = T.small_c, T.large_c
    rec.state(name, K)
    top = T.at[T.N]
    for signed in (True, False):
        T.values(l.dual_edge_excess(signed=signed), s.dual_edge_excess(signed=signed), top, 'excess', 'excess of dual edges')
        rec.step()
    field = np.cos(np.arange(s.topology.n_elements[-1] * (T.N + 1)) * 1.3).reshape(-1, T.N + 1)
    wide = np.zeros((K * len(field), T.N + 1))
    wide[top] = np.tile(field, (K, 1))
    T.values(l.remap_boundary_0(wide), s.remap_boundary_0(field), T.at[0], 'corners', 'sums over corners')
    for oriented in (True, False):
        T.values(l.remap_boundary_N(wide, oriented), s.remap_boundary_N(field, oriented), T.at[T.N - 1], 'faces', 'sums over faces')
        rec.step()
    for how in ('optimize_weights', 'optimize_weights_metric'):
        a, b = getattr(l, how)(), getattr(s, how)()
        T.values(a.weights, b.weights, T.at[0], 'weights', how)
        rec.step()
        for k in range(T.N + 1):
            T.positions(a.primal_position[k], b.primal_position[k], T.at[k], 'weighted position', 'position of weighted {}-elements'.format(k))
    f, g = l.subdivide_fundamental(), s.subdivide_fundamental()
    at = match(g.topology, f.topology, K, numbering(T), tag='fine')
    T.values(f.optimize_weights_fundamental().weights, g.optimize_weights_fundamental().weights, at[0], 'weights', 'weights of fundamental domains')
    rec.step()
    rec.outcome('large')
    rec.trace()


def check_pick(case, rec):
    """every cell of every copy is found at its own centroid, every vertex near itself"""
    name, K = case
    T = laid(name, K)
    l = T.large_c
    rec.state(name, K)
    cells = corners(T.large)[-1]
    C = l.vertices[cells].mean(axis=1)
    n = len(C)
    own = np.arange(n)
    idx, bary = l.pick_primal(C)
    rec.step()
    require(np.array_equal(idx, own), 'pick_primal', lambda: '{} of {} centroids are found in another cell'.format((np.asarray(idx) != own).sum(), n))
    mid = 0.5 if T.kind == 'c' else 1. / (T.N + 1)
    require(np.abs(np.asarray(bary) - mid).max() < 1e-6, 'barycentric', 'coordinates of centroids')
    for hint in (own, own[::-1].copy(), np.full(n, n - 1)):
        idx, bary = l.pick_primal(C, hint.copy())
        rec.step()
        require(np.array_equal(idx, own) and np.abs(np.asarray(bary) - mid).max() < 1e-6, 'pick_primal hint', 'centroids are found in another cell with a hint')
    v = np.arange(len(l.vertices))
    d = l.pick_dual(l.vertices + 0.01)
    rec.step()
    require(np.array_equal(d, v), 'pick_dual', lambda: '{} of {} vertices are not the nearest to themselves'.format((np.asarray(d) != v).sum(), len(v)))
    f = l.vertices @ np.arange(1, l.vertices.shape[1] + 1)
    g = l.sample_primal_0(f, C)
    rec.step()
    require(np.abs(g - C @ np.arange(1, C.shape[1] + 1)).max() < 1e-6 * (1 + np.abs(f).max()), 'sample_primal_0', 'a linear function is not reproduced')
    if T.kind != 'c' and T.N > 2:
        rec.outcome('no fundamental domains')
        rec.trace()
        return
    # near the first corner of each cell
    P = (l.vertices[cells[:, 0]] * 0.9 + C * 0.1)
    found = l.pick_fundamental(P)
    dom = found[0] if T.kind == 'c' else found[2]
    dom = np.asarray(dom).reshape(n, -1)
    rec.step()
    require(np.array_equal(dom[:, 0], cells[:, 0]) and np.array_equal(dom[:, -1], own), 'pick_fundamental', 'points are found in the domains of another vertex or cell')
    h = np.cos(np.arange(T.large.dual.n_elements[0]) * 1.7)
    x = l.sample_dual_0(h, l.dual_position[0][:n])
    rec.step()
    require(np.abs(np.asarray(x).reshape(-1) - h[:n]).max() < 1e-5, 'sample_dual_0', 'the values at the dual vertices do not come back')
    rec.outcome('large')
    rec.trace()
