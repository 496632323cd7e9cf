"""C18: sparse multilinear arrays, blocked matrices and arrays against dense ones"""
import itertools

import numpy as np
import scipy.sparse

from mc.harness import Space, require
from pycomplex import block as B
from pycomplex import sparse as S

PROPERTY = 'C18'
ASSUMPTIONS = ['entries are small integers or binary fractions; results are compared exactly or to 1e-12',
               'entries missing from a table are taken as zero',
               'blocks have as many axes as the block structure']


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() < 1e-12)


# --- combinations of indices

def cases_indices(tier):
    n = 4 if tier == 'quick' else 5
    for a in range(1, n + 1):
        for first in itertools.product(range(3), repeat=a):
            yield [list(first), n]


def check_indices(case, rec):
    this, n = case
    this = np.array(this)
    for m in range(1, n + 1):
        for that in itertools.product(range(3), repeat=m):
            that = np.array(that)
            rec.state(this.tolist(), that.tolist())
            i, j = S.multi_indices(this, that)
            rec.step()
            rec.trace()
            expected = sorted((a, b) for a in range(len(this)) for b in range(m) if this[a] == that[b])
            require(sorted(zip(np.asarray(i).tolist(), np.asarray(j).tolist())) == expected, 'multi_indices', lambda: '{} {}: {}'.format(this, that, list(zip(i, j))))
            rec.outcome('none' if not expected else 'some')


# --- sparse arrays

def dense_of(s, shape):
    """own dense form: entries at the same place add up"""
    out = np.zeros(shape)
    np.add.at(out, tuple(np.asarray(a) for a in s.axes), np.asarray(s.data, dtype=float))
    return out


def table(s, shape):
    """the library's own dense form, put in place"""
    keys, d = s.todense()
    out = np.zeros(shape)
    out[np.ix_(*keys)] = np.nan_to_num(np.asarray(d, dtype=float))
    return out


ENTRIES = list(itertools.product(range(2), range(2)))


def entry_lists(n):
    """all lists of at most n entries of a 2 x 2 matrix, possibly repeated and in any order"""
    for r in range(1, n + 1):
        for e in itertools.product(range(4), repeat=r):
            yield e


def make(e, shape=(2, 2), values=None):
    ij = [divmod(k, shape[1]) for k in e]
    values = values or [1, 2, -1, 4, 3]
    return S.Sparse([[i for i, j in ij], [j for i, j in ij]], np.array(values[:len(e)]))


def cases_sparse(tier):
    for e in entry_lists(3 if tier == 'quick' else 4):
        yield [list(e), 3]


def check_sparse(case, rec):
    e, n = case
    a = make(e)
    A = dense_of(a, (2, 2))
    keep = [x.copy() for x in a.axes] + [a.data.copy()]
    require(eq(table(a, (2, 2)), A), 'todense', lambda: '{} {}'.format(table(a, (2, 2)), A))
    require(a.nnz == len(e) and a.ndim == 2, 'sizes')
    require(eq(dense_of(a.T, (2, 2)), A.T), 'transpose')
    require(eq(dense_of(a * 3, (2, 2)), A * 3) and eq(dense_of(a * 0.5, (2, 2)), A * 0.5), 'scaling')
    require(a.astype(float).data.dtype == float and eq(dense_of(a.astype(float), (2, 2)), A), 'astype')
    f = a.filter(lambda d: d > 1)
    require((f.data > 1).all() and eq(dense_of(f, (2, 2)), dense_of(S.Sparse([x[a.data > 1] for x in a.axes], a.data[a.data > 1]), (2, 2))), 'filter')
    k = a.canonical()
    require(eq(dense_of(k, (2, 2)), A) and (k.data != 0).all() and len(set(zip(*[x.tolist() for x in k.axes]))) == k.nnz, 'canonical')
    rec.step(7)
    for o in entry_lists(n):
        b = make(o, values=[5, -2, 7, 1])
        M = dense_of(b, (2, 2))
        rec.state(e, o)
        require(eq(dense_of(a.concatenate(b), (2, 2)), A + M), 'concatenate')
        s = a + b
        require(eq(dense_of(s, (2, 2)), A + M) and eq(table(s, (2, 2)), A + M), 'sum')
        require(len(set(zip(*[x.tolist() for x in s.axes]))) == s.nnz, 'sum has doubles')
        p = a * b
        require(eq(dense_of(p, (2, 2)), A * M), 'pointwise product', lambda: '{} {}: {}'.format(A, M, dense_of(p, (2, 2))))
        d = a.dot(b)
        require(eq(dense_of(d, (2, 2)), A @ M), 'matrix product', lambda: '{} {}: {}'.format(A, M, dense_of(d, (2, 2))))
        rec.step(4)
        rec.trace(4)
        require(all(np.array_equal(x, y) for x, y in zip(keep, list(a.axes) + [a.data])), 'argument changed')
    # vectors
    for k in range(1, 4):
        for i in itertools.product(range(2), repeat=k):
            v = S.Sparse([list(i)], np.array([3, -1, 2][:k]))
            V = dense_of(v, (2,))
            require(eq(dense_of(a.dot(v), (2,)), A @ V), 'matrix times vector')
            require(eq(dense_of(v.dot(a), (2,)), V @ A), 'vector times matrix')
            rec.step(2)
            rec.trace(2)
    rec.outcome('doubles' if len(set(e)) < len(e) else 'distinct')


def cases_dense(tier):
    for shape in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]:
        for other in (1, 2, 3):
            yield [shape, other]


def check_dense(case, rec):
    shape, other = case
    n = shape[0] * shape[1]
    for k in range(8):
        A = np.array([((i * (k + 2)) % 5) - 2 for i in range(n)], dtype=float).reshape(shape)
        M = np.array([((i * (k + 3) + 1) % 7) - 3 for i in range(shape[1] * other)], dtype=float).reshape(shape[1], other)
        rec.state(shape, other, k)
        a, b = S.Sparse.fromdense(A), S.Sparse.fromdense(M)
        require(eq(dense_of(a, shape), A) and eq(table(a, shape), A), 'fromdense')
        require(eq(table(a.dot(b), (shape[0], other)), A @ M), 'product of dense')
        require(eq(table(a.T, shape[::-1]), A.T), 'transpose of dense')
        rec.step(4)
        rec.trace(3)
    t = np.arange(8.0).reshape(2, 2, 2)
    require(eq(dense_of(S.Sparse.fromdense(t), (2, 2, 2)), t), 'fromdense 3d')
    v = np.arange(3.0)
    require(eq(dense_of(S.Sparse.fromdense(v), (3,)), v), 'fromdense 1d')
    for bad in ([[0, 1], [0]], [[0], [0]], [[0, 1, 2], [1, 1, 1]]):
        try:
            S.Sparse(bad, [1.0, 2.0])
            require(False, 'axes of the wrong length')
        except ValueError:
            pass


def cases_ndim(tier):
    for n in range(1, 6):
        yield [n, 1 if n > 3 or tier == 'quick' else 2]


def check_ndim(case, rec):
    """sparse arrays of any number of dimensions, with up to three entries"""
    n, extra = case
    shape = (2, 3, 2, 1, 2)[:n]
    cells = list(itertools.product(*[range(k) for k in shape]))
    for r in range(1, 3 if n > 2 else 4):
        for e in itertools.product(cells, repeat=r):
            rec.state(*e)
            a = S.Sparse([np.array(x) for x in zip(*e)], np.array([3, -1, 4][:r]))
            A = dense_of(a, shape)
            require(a.ndim == n and eq(table(a, shape), A), 'todense nd')
            require(eq(dense_of(a.T, shape[::-1]), A.T), 'transpose nd', lambda: str(e))
            require(eq(dense_of(a.T.T, shape), A), 'transpose nd twice')
            require(eq(dense_of(a.canonical(), shape), A), 'canonical nd')
            require(eq(dense_of(a * 2, shape), A * 2), 'scaling nd')
            for o in [e, e[::-1], cells[:1], cells[-1:] * 2, cells]:
                b = S.Sparse([np.array(x) for x in zip(*o)], np.arange(len(o)) + 1)
                M = dense_of(b, shape)
                require(eq(dense_of(a + b, shape), A + M), 'sum nd')
                require(eq(dense_of(a * b, shape), A * M), 'product nd')
                rec.step(2)
            # contraction of the last axis with the first one of arrays of up to three dimensions
            for k in range(1, 4):
                other = (shape[-1], 2, 3)[:k]
                M = np.arange(1.0, 1 + np.prod(other)).reshape(other)
                b = S.Sparse([x.ravel() for x in np.indices(other)], M.ravel())
                d = a.dot(b)
                want = np.tensordot(A, M, 1)
                require(eq(d, want) if want.ndim == 0 else eq(dense_of(d, want.shape), want), 'contraction nd', lambda: '{} {}'.format(e, other))
                rec.step()
            rec.step(5)
            rec.trace()
    rec.outcome('{}d'.format(n))


# --- helpers for scipy matrices

FORMATS = ['csr', 'csc', 'coo', 'bsr', 'dia', 'lil']


def cases_helpers(tier):
    for shape in ((1, 1), (2, 2), (2, 3), (3, 1)) if tier == 'quick' else ((1, 1), (2, 2), (2, 3), (3, 2), (3, 1), (1, 4)):
        for f in FORMATS:
            yield [shape, f]


def check_helpers(case, rec):
    shape, f = case
    n = shape[0] * shape[1]
    for v in itertools.product((-2, 0, 1), repeat=n):
        A = np.array(v, dtype=float).reshape(shape)
        rec.state(shape, f, v)
        for dtype in (float, np.int8):
            a = scipy.sparse.coo_matrix(A.astype(dtype)).asformat(f)
            keep = a.toarray()
            z = S.zeros_like(a)
            require(scipy.sparse.issparse(z) and z.shape == shape and not z.toarray().any(), 'zeros_like')
            for axis in (0, 1):
                sums = np.abs(A).sum(axis=axis, keepdims=True)
                if (sums > 0).all():
                    require(eq(S.normalize_l1(a, axis=axis).toarray(), A / sums), 'normalize_l1', lambda: '{} axis {}'.format(A, axis))
                    if axis == 1:
                        require(eq(S.normalize_l1(a).toarray(), A / sums), 'normalize_l1 default axis')
                    rec.outcome('normalized')
                    rec.trace()
            if f in ('csr', 'csc', 'coo', 'bsr'):
                o = S.ones_like(a)
                if f != 'bsr':
                    require(eq(o.toarray(), A != 0), 'ones_like', lambda: '{}: {}'.format(A, o.toarray()))
                require(o.dtype == a.dtype, 'ones_like dtype')
            require(np.array_equal(a.toarray(), keep), 'argument changed')
            rec.step(4)
    for s in itertools.product(range(4), repeat=2):
        z = S.sparse_zeros(s) if min(s) else None
        require(z is None or (z.shape == s and z.nnz == 0), 'sparse_zeros')
    for r in (1, 2, 3):
        for v in itertools.product((-2.0, 0.5, 4), repeat=r):
            d = scipy.sparse.diags(np.array(v))
            require(eq(S.inv_diag(d).toarray(), np.diag(1 / np.array(v))), 'inv_diag')
            rec.step()
    for bad in (scipy.sparse.csr_matrix(np.eye(2)), scipy.sparse.diags([1.0, 1.0], 1), scipy.sparse.diags([[1.0, 1.0], [1.0]], [0, 1])):
        try:
            S.inv_diag(bad)
            require(False, 'inverse of what is not diagonal')
        except AssertionError:
            rec.outcome('refused')


# --- blocks

def cut(A, rows, cols=None):
    r = np.cumsum([0] + list(rows))
    if A.ndim == 1:
        return [A[r[i]:r[i + 1]] for i in range(len(rows))]
    c = np.cumsum([0] + list(cols))
    return [[A[r[i]:r[i + 1], c[j]:c[j + 1]] for j in range(len(cols))] for i in range(len(rows))]


def partitions(n_blocks, sizes):
    for k in range(1, n_blocks + 1):
        yield from itertools.product(sizes, repeat=k)


def numbers(shape, k=0):
    n = int(np.prod(shape))
    return np.array([((i * 7 + k * 3) % 11) - 4 for i in range(n)], dtype=float).reshape(shape)


def cases_arrays(tier):
    for p in partitions(3 if tier == 'quick' else 4, (1, 2, 3)):
        yield ['vector', list(p)]
    big = 2 if tier == 'quick' else 3
    for r in partitions(big, (1, 2, 3)):
        for c in partitions(2, (1, 2, 3)):
            yield ['matrix', list(r), list(c)]


def check_arrays(case, rec):
    rows = case[1]
    cols = case[2] if case[0] == 'matrix' else None
    shape = (sum(rows),) if cols is None else (sum(rows), sum(cols))
    rec.state(*case)
    A, M = numbers(shape), numbers(shape, 1) + 20
    own = cut(A, rows, cols)
    a, b = B.DenseBlockArray(own), B.DenseBlockArray(cut(M, rows, cols))
    nested = (len(rows),) if cols is None else (len(rows), len(cols))
    require(a.block.shape == nested and a.ndim == len(nested), 'block structure', lambda: '{} instead of {}'.format(a.block.shape, nested))
    require(a.shape == [list(rows)] + ([] if cols is None else [list(cols)]), 'shape', lambda: str(a.shape))
    require(eq(a.merge(), A), 'merge')
    rec.step(3)

    def same(x, D, what):
        require(type(x) is B.DenseBlockArray and x.block.shape == nested, what + ' structure', lambda: str(x.block.shape))
        ref = cut(D, rows, cols)
        for i in np.ndindex(*nested):
            r = ref[i[0]] if cols is None else ref[i[0]][i[1]]
            require(eq(x.block[i], r), what, lambda: '{}: {} instead of {}'.format(i, x.block[i], r))
        rec.trace()
        rec.step()
    same(a.split(A), A, 'split')
    same(a.split(M), M, 'split another')
    same(a + b, A + M, 'sum')
    same(b * a, A * M, 'product')
    same(a / b, A / M, 'quotient')
    same(a * 2, A * 2, 'scaled')
    same(a + 1, A + 1, 'shifted')
    same(1 / b, 1 / M, 'inverse')
    same(a.apply(np.abs), np.abs(A), 'apply')
    same(a.apply(lambda x: x * 2 + 1), A * 2 + 1, 'apply')
    same(a.copy(), A, 'copy')
    c = a.copy()
    c.block[(0,) * len(nested)] = None
    same(a, A, 'original of a copy')
    t = a.transpose()
    require(t.block.shape == nested[::-1] and eq(t.merge(), A.T), 'transpose')
    require(eq(t.transpose().merge(), A), 'transpose twice')
    if len(rows) > 1:
        r0 = rows[0]
        require(eq(a[1:].merge(), A[r0:]), 'slice')
        require(eq(a[:1].merge(), A[:r0]), 'slice')
        if cols is not None and len(cols) > 1:
            require(eq(a[1:, :1].merge(), A[r0:, :cols[0]]), 'slice 2d')
        rec.step(2)
    s = [list(rows)] + ([] if cols is None else [list(cols)])
    rec.outcome('equal' if all(len(set(x)) == 1 for x in s) else 'mixed')
    require(eq(a.merge(), A) and eq(b.merge(), M), 'argument changed')


def cases_matrices(tier):
    for r in partitions(2, (1, 2) if tier == 'quick' else (1, 2, 3)):
        for c in partitions(2 if tier == 'quick' else 3, (1, 2)):
            for o in partitions(2, (1, 2)):
                yield [list(r), list(c), list(o)]


def sparse_cut(A, rows, cols, f):
    return [[scipy.sparse.csr_matrix(x).asformat(f) for x in row] for row in cut(A, rows, cols)]


def check_matrices(case, rec):
    rows, cols, other = case
    rec.state(*case)
    A, M = numbers((sum(rows), sum(cols))), numbers((sum(cols), sum(other)), 2)
    v = numbers((sum(cols),), 5)
    A[0, 0] = 0
    for f in ('csr', 'csc', 'coo'):
        a = B.SparseBlockMatrix(sparse_cut(A, rows, cols, f))
        m = B.SparseBlockMatrix(sparse_cut(M, cols, other, f))
        require(a.block.shape == (len(rows), len(cols)) and a.rows == len(rows) and a.cols == len(cols), 'matrix blocks')
        require(a.shape == [list(rows), list(cols)], 'matrix shape', lambda: str(a.shape))
        require(eq(a.merge().toarray(), A), 'matrix merge')
        require(bool(a.square) == (rows == cols), 'square', lambda: str(case))
        p = a * m
        require(type(p) is B.SparseBlockMatrix and eq(p.merge().toarray(), A @ M) and p.shape == [list(rows), list(other)], 'matrix product')
        t = a.transpose()
        require(type(t) is B.SparseBlockMatrix and eq(t.merge().toarray(), A.T) and t.shape == [list(cols), list(rows)], 'matrix transpose')
        n = t * a
        require(eq(n.merge().toarray(), A.T @ A) and bool(n.square), 'normal matrix')
        x = B.DenseBlockArray(cut(v, cols))
        y = a * x
        require(type(y) is B.DenseBlockArray and y.block.shape == (len(rows),) and eq(y.merge(), A @ v), 'matrix times vector')
        X = B.DenseBlockArray(cut(M, cols, other))
        Y = a * X
        require(type(Y) is B.DenseBlockArray and eq(Y.merge(), A @ M), 'matrix times dense')
        two = a + a
        require(eq(two.merge().toarray(), 2 * A), 'matrix sum')
        for axis in (0, 1):
            l = a.norm_l1(axis=axis)
            require(type(l) is B.DenseBlockArray and eq(l.merge(), np.abs(A).sum(axis=axis)) and l.shape == [list(cols if axis == 0 else rows)], 'norm_l1', lambda: 'axis {}'.format(axis))
        if rows == cols:
            d = a.diagonal()
            require(type(d) is B.DenseBlockArray and eq(d.merge(), np.diag(A)) and d.shape == [list(rows)], 'diagonal')
            rec.outcome('square')
        else:
            rec.outcome('not square')
        for make in (B.SparseBlockMatrix.as_diagonal, B.SparseBlockMatrix.diags):
            D = make(x)
            require(type(D) is B.SparseBlockMatrix and D.shape == [list(cols), list(cols)], make.__name__ + ' shape', lambda: str(D.shape))
            require(eq(D.merge().toarray(), np.diag(v)), make.__name__)
            require(eq((D * x).merge(), v * v), make.__name__ + ' times vector', lambda: '{} {}'.format((D * x).merge(), v))
            require(eq((a * D).merge().toarray(), A * v), make.__name__ + ' product')
        if len(cols) > 1:
            require(eq(a[:, 1:].merge().toarray(), A[:, cols[0]:]), 'matrix slice')
        require(eq(a.merge().toarray(), A) and eq(x.merge(), v), 'argument changed')
        rec.step(16)
        rec.trace(16)


# --- many entries, and indices far apart

SPANS = {'close': (1, 0), 'bytes': (53, -128), 'shorts': (9001, -40000), 'wide': (10 ** 7 + 19, -10 ** 12)}


def cases_large(tier):
    for n in (300, 70000) if tier == 'quick' else (300, 70000, 300000):
        for span in SPANS:
            for dtype in ('int64', 'int32', 'float64', 'complex128'):
                if not (span == 'wide' and dtype == 'int32'):
                    yield [n, span, dtype]


def dictionary(s):
    """own form: place -> value"""
    out = {}
    for *k, v in zip(*[np.asarray(a).tolist() for a in s.axes], np.asarray(s.data).tolist()):
        out[tuple(k)] = out.get(tuple(k), 0) + v
    return {k: v for k, v in out.items() if v != 0}


def check_large(case, rec):
    n, span, dtype = case
    a, b = SPANS[span]
    rec.state(case)
    place = lambda x: (x * a + b).astype('int64' if dtype == 'complex128' else dtype)
    k = np.arange(n)
    m = n // 3 + 1
    value = lambda x: (x % 7 - 3).astype('complex128' if dtype == 'complex128' else 'int64') * (1 + 0.5j if dtype == 'complex128' else 1)
    s = S.Sparse([place(k * 7919 % m), place(k * 104729 % (m + 5))], value(k))
    o = S.Sparse([place(k * 31 % m), place((k * 7919 + k // m) % (m + 5))], value(k + 2))
    A, M = dictionary(s), dictionary(o)
    want = dict(A)
    for x, v in M.items():
        want[x] = want.get(x, 0) + v
    require(dictionary(s + o) == {x: v for x, v in want.items() if v != 0}, 'large sum')
    require(dictionary(s * o) == {x: v * M[x] for x, v in A.items() if x in M}, 'large pointwise product')
    require(dictionary(s.canonical()) == A and s.canonical().nnz == len(A), 'large canonical')
    require(dictionary(s.T) == {x[::-1]: v for x, v in A.items()}, 'large transpose')
    t = o.T
    rows = {}
    for (i, j), v in dictionary(t).items():
        rows.setdefault(i, []).append((j, v))
    product = {}
    for (i, j), v in A.items():
        for l, w in rows.get(j, ()):
            product[i, l] = product.get((i, l), 0) + v * w
    require(dictionary(s.dot(t)) == {x: v for x, v in product.items() if v != 0}, 'large product')
    i, j = S.multi_indices(place(k % m), place(k[::-1] * 3 % (2 * m)))
    where = {}
    for y, x in enumerate(place(k[::-1] * 3 % (2 * m)).tolist()):
        where.setdefault(x, []).append(y)
    pairs = sorted((x, y) for x, p in enumerate(place(k % m).tolist()) for y in where.get(p, ()))
    require(sorted(zip(np.asarray(i).tolist(), np.asarray(j).tolist())) == pairs, 'large multi_indices')
    rec.step(6)
    rec.trace(6)
    rec.outcome('many' if n > 65536 else 'few')


SPACES = [
    Space('indices', cases_indices, check_indices, 'all pairs of arrays of up to 4 (5) items out of three', expect=['none', 'some'], chunk=8),
    Space('sparse', cases_sparse, check_sparse, 'all pairs of 2x2 matrices given by up to 3 (4) entries, in any order and possibly repeated; all vectors of up to three entries', expect=['doubles', 'distinct'], chunk=4),
    Space('large', cases_large, check_large, 'lists of 300 and 70 000 (300 000) entries with doubles; places next to each other, beyond 8 and 16 bits, and 10^7 apart around -10^12, of four types', expect=['many', 'few'], chunk=1),
    Space('dense', cases_dense, check_dense, 'products of dense matrices up to 3x3', chunk=2),
    Space('ndim', cases_ndim, check_ndim, 'sparse arrays of 1-5 dimensions with up to two (three in 1-2 dimensions) entries anywhere, possibly repeated', chunk=1, expect=['1d', '4d', '5d']),
    Space('helpers', cases_helpers, check_helpers, 'all matrices up to 2x3 (3x2) with entries -2, 0, 1 in six formats and two types', expect=['normalized', 'refused'], chunk=1),
    Space('arrays', cases_arrays, check_arrays, 'all partitions of vectors into 1-3 (4) blocks of size 1-3 and of matrices into up to 2x2 (3x2)', expect=['equal', 'mixed'], chunk=4),
    Space('matrices', cases_matrices, check_matrices, 'all partitions into up to 2x2 (2x3) blocks of size 1-2, three formats', expect=['square', 'not square'], chunk=2),
]
