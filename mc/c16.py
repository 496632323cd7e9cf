"""C16: block arrays, block operators and linear systems of stencil operators"""
import itertools

import numpy as np

from . import c14, c15
from .harness import Space, require

PROPERTY = 'C16'
ASSUMPTIONS = ['single operators and their products are decided by C14 and C15']


# --- block arrays

SHAPES = [(1,), (2,), (3,), (2, 2), (1, 2, 2), (2, 2, 2), (1, 1, 1)]


def cases_arrays(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        yield from ([list(map(list, s))] for s in itertools.product(SHAPES if n < 4 else SHAPES[:5], repeat=n))


def block(shape, k):
    return np.cos(np.arange(int(np.prod(shape))) * 1.3 + k).reshape(shape) + 1.5


def same(b, ref):
    return len(b.block) == len(ref) and b.block.shape == (len(ref),) and all(
        isinstance(x, np.ndarray) and x.shape == r.shape and np.allclose(x, r) for x, r in zip(b.block, ref))


def check_arrays(case, rec):
    from pycomplex.stencil.block import BlockArray
    shapes = [tuple(s) for s in case[0]]
    n = len(shapes)
    rec.state(shapes)
    A = [block(s, k) for k, s in enumerate(shapes)]
    B = [block(s, k + 10) for k, s in enumerate(shapes)]
    size = sum(a.size for a in A)
    for ndim in (None, 1):
        a, b = BlockArray(list(A), ndim=ndim), BlockArray(list(B), ndim=ndim)
        require(same(a, A) and a.ndim == 1, 'constructor')
        require(a.shape == [[s[0] for s in shapes]] and a.is_compatible, 'shape')
        ops = [('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mul', lambda x, y: x * y)]
        for name, op in ops:
            require(same(op(a, b), [op(x, y) for x, y in zip(A, B)]), name)
            for s in (2, 0.5, -3.0, np.float64(2)):
                require(same(op(a, s), [op(x, s) for x in A]), name + ' scalar')
        require(same(a.abs(), [np.abs(x) for x in A]), 'abs')
        require(same((a - b).abs(), [np.abs(x - y) for x, y in zip(A, B)]), 'abs')
        require(same(a.invert(), [1 / x for x in A]), 'invert')
        require(same(a.apply(lambda x: x[::-1] * 2), [x[::-1] * 2 for x in A]), 'apply')
        require(same(a.transpose(), [x.T for x in A]), 'transpose')
        require(np.allclose(a.sum(), sum(x.sum() for x in A)), 'sum')
        d = a.to_dense()
        own = np.concatenate([x.reshape(-1) for x in A])
        require(d.shape == (size,) and np.array_equal(d, own), 'to_dense')
        x = np.arange(size) * 1.
        for v in (x, x[:, None]):
            r = a.from_dense(v)
            require(np.array_equal(r.to_dense(), x) and [q.shape for q in r.block] == shapes, 'from_dense')
        require(same(a, A) and same(b, B), 'modifies its arguments')
        for bad in (size - 1, size + 1):
            try:
                a.from_dense(np.zeros(bad))
            except AssertionError:
                rec.outcome('size refused')
            else:
                require(False, 'from_dense of wrong size')
        # a copy has its own blocks
        c = a.copy()
        for i in range(n):
            c[i] = B[i] * 0
            require(same(a, A), 'copy shares blocks')
        require(same(c, [x * 0 for x in B]), 'assignment', str([type(x).__name__ for x in c.block]))
        c = a.copy()
        for i in range(n):
            c[i] = B[i]
            require(same(c, B[:i + 1] + A[i + 1:]), 'assignment')
            require(np.array_equal(c[i], B[i]), 'item')
            for wrong in (np.zeros(B[i].shape + (2,)), np.zeros((7,) + B[i].shape[1:]), 'x'):
                try:
                    c[i] = wrong
                except NotImplementedError:
                    rec.outcome('shape refused')
                else:
                    require(False, 'assignment of a wrong shape')
        require(same(a.__getslice__(slice(0, n - 1)), A[:-1]) if n > 1 else True, 'slice')
        require(same(a.__getslice__(slice(None, None, -1)), A[::-1]), 'slice')
        rec.step(40)
    rec.trace()
    rec.outcome('equal shapes' if len(set(shapes)) < len(shapes) else 'distinct shapes')


# --- block operators: all patterns of blocks from a catalogue

GRIDS = {'1d': (3,), '2d': (2, 2), 'rect': (1, 2)}


def catalogue(grid, a, b):
    """operators from b-forms to a-forms"""
    L = c15.table(GRIDS[grid], False)
    keep = [l for l in L if l.typ == (a, b) and l.name in ('0{}{}'.format(a, b), 'I{}'.format(a), 'D{}'.format(a), 'scalar{}'.format(a), 's{}'.format(a), 'p{}'.format(a), 'd{}'.format(b), 'e{}'.format(a))]
    return keep


def cases_operators(tier):
    quick = tier == 'quick'
    for grid in GRIDS:
        N = len(GRIDS[grid])
        degrees = list(itertools.product(range(N + 1), repeat=2))
        for rows in [(r,) for r in range(N + 1)] + degrees + ([] if quick else [(0, 1, 0), (1, 0, 1), (0, 1, 1)]):
            for cols in [(r,) for r in range(N + 1)] + degrees:
                if len(rows) + len(cols) > (4 if quick else 5):
                    continue
                if len(rows) == len(cols) == 2 and quick and grid == 'rect':
                    continue
                chunks = 16 if len(rows) * len(cols) > 3 else 1
                for k in range(chunks):
                    yield [grid, list(rows), list(cols), k, chunks]


def check_operators(case, rec):
    from pycomplex.stencil.block import BlockArray, BlockOperator
    grid, rows, cols, chunk, chunks = case
    shape = GRIDS[grid]
    NE = [(len(s),) + shape for s in c14.symbols(len(shape))]
    size = [int(np.prod(n)) for n in NE]
    choices = [catalogue(grid, a, b) for a in rows for b in cols]
    if len(choices) > 4:
        choices = [c[:3] for c in choices]
    Lr, Lc = [NE[r] for r in rows], [NE[c] for c in cols]
    X = [block(s, k) for k, s in enumerate(Lc)]
    Y = [block(s, k) for k, s in enumerate(Lr)]
    x = np.concatenate([q.reshape(-1) for q in X])
    y = np.concatenate([q.reshape(-1) for q in Y])
    zero = BlockOperator.zeros(Lr, Lc)
    require(zero.to_dense().shape == (len(y), len(x)) and not zero.to_dense().any(), 'zeros')
    eye = BlockOperator.identity(Lr)
    require(np.array_equal(eye.to_dense(), np.eye(len(y))), 'identity')
    previous = None
    for k, pick in enumerate(itertools.product(*choices)):
        if k % chunks != chunk:
            continue
        names = [l.name for l in pick]
        grid_ops = [[pick[i * len(cols) + j].op for j in range(len(cols))] for i in range(len(rows))]
        M = np.block([[pick[i * len(cols) + j].M for j in range(len(cols))] for i in range(len(rows))])
        B = np.abs(M)
        rec.state(grid, rows, cols, names)
        op = BlockOperator(grid_ops, ndim=2)

        def near(D, M, what, scale=None):
            require(D.shape == M.shape and (np.abs(D - M) <= 1e-5 * (1 + (np.abs(M) if scale is None else scale))).all(), what, str(names))
        require(op.rows == len(rows) and op.cols == len(cols) and op.block.shape == (len(rows), len(cols)), 'rows and columns')
        require(op.shape == [Lr, Lc], 'shape of operator', str(op.shape))
        require(bool(op.is_square) == (Lr == Lc), 'is_square')
        near(op.to_dense(), M, 'to_dense')
        near((op * BlockArray(list(X), ndim=1)).to_dense(), M @ x, 'product with array', (B @ np.abs(x)).max())
        T = op.transpose()
        near(T.to_dense(), M.T, 'transpose')
        near((T * BlockArray(list(Y), ndim=1)).to_dense(), M.T @ y, 'transposed product', (B.T @ np.abs(y)).max())
        near(op.simplify().to_dense(), M, 'simplify')
        near((T * op).to_dense(), M.T @ M, 'normal product', (B.T @ B).max())
        near((op * T).simplify().to_dense(), M @ M.T, 'outer product', (B @ B.T).max())
        near((op + op).to_dense(), 2 * M, 'sum')
        near((eye * op).to_dense(), M, 'product with identity')
        near((op + zero).to_dense(), M, 'sum with zero')
        L = op.aslinearoperator()
        require(L.shape == M.shape, 'linear operator shape')
        near(L.matvec(x), M @ x, 'linear operator', (B @ np.abs(x)).max())
        near(L.rmatvec(y), M.T @ y, 'transposed linear operator', (B.T @ np.abs(y)).max())
        require(isinstance(repr(op), str), 'repr')
        if previous is not None:
            near((op + previous[0]).to_dense(), M + previous[1], 'sum of operators')
            near((op * previous[0].transpose()).to_dense(), M @ previous[1].T, 'product of operators', (B @ np.abs(previous[1].T)).max())
        previous = op, M
        c = op.copy()
        for i in range(len(rows)):
            for j in range(len(cols)):
                c[i, j] = 0
                if Lr[i] == Lc[j]:
                    c[i, j] = 1
                    near(c[i, j].to_dense(), np.eye(int(np.prod(Lr[i]))), 'one assigned')
                c[i, j] = op[i, j]
                c[i, j] = 0
        require(not c.to_dense().any(), 'zero assigned')
        near(op.to_dense(), M, 'copy shares blocks')
        for i in range(len(rows)):
            near(op.__getslice__((slice(i, i + 1), slice(None))).to_dense(), M[sum(size[r] for r in rows[:i]):sum(size[r] for r in rows[:i + 1])], 'slice')
        require(all(np.array_equal(p, q) for p, q in zip(X, [block(s, k) for k, s in enumerate(Lc)])), 'modifies its argument')
        rec.step(16)
        rec.trace()
        rec.outcome('square' if Lr == Lc else 'not square')


# --- systems

def cases_systems(tier):
    quick = tier == 'quick'
    shapes = [(1,), (2,), (3,), (4,), (5,), (1, 2), (2, 2), (2, 3), (3, 3), (4, 3), (4, 2), (1, 1), (2, 2, 2), (3, 2, 1)]
    if not quick:
        shapes += [(6,), (7,), (4, 4), (5, 4), (5, 5), (3, 3, 2), (2, 2, 4), (3, 3, 3), (2, 2, 2, 2)]
    for s in shapes:
        for scale in (1, 0.5, 2):
            yield [list(s), scale]


def slices(N):
    """subsystems: ranges of rows and columns, and explicit selections of rows"""
    S = [slice(a, b) for a in range(N + 1) for b in range(a + 1, N + 2)]
    lists = [list(c) for n in (1, 2) for c in itertools.combinations(range(N + 1), n)]
    for r in S + lists:
        for c in S:
            yield r, c


def check_systems(case, rec):
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.linear_system import System
    shape, scale = tuple(case[0]), case[1]
    N = len(shape)
    rec.state(shape, scale)
    c = StencilComplex.from_shape(shape, scale=scale)
    NE = [(len(s),) + shape for s in c14.symbols(N)]
    size = [int(np.prod(n)) for n in NE]
    at = np.concatenate([[0], np.cumsum(size)])
    h = [scale ** (N - 2 * n) for n in range(N + 1)]
    # reference
    M = np.zeros((at[-1], at[-1]))
    for n in range(N + 1):
        M[at[n]:at[n + 1], at[n]:at[n + 1]] = np.eye(size[n]) * h[n]
        if n < N:
            D = c14.coboundary(shape, n)
            M[at[n + 1]:at[n + 2], at[n]:at[n + 1]] = h[n + 1] * D
            M[at[n]:at[n + 1], at[n + 1]:at[n + 2]] = D.T * h[n + 1]
    s = System.canonical(c)

    def near(D, M, what):
        require(D.shape == M.shape and np.abs(D - M).max() <= 1e-5 * (1 + np.abs(M).max()), what)
    small = sum(size) <= 64
    if small:
        near(s.A.to_dense(), M, 'canonical system')
        near(s.B.to_dense(), np.eye(at[-1]), 'right hand side')
        require(np.allclose(M, M.T), 'harness', 'symmetric')
    require(list(s.L) == list(s.R) == list(range(N + 1)), 'rows and columns of system')
    allx, ally = s.allocate_x(), s.allocate_y()
    require([b.shape for b in allx.block] == NE and not allx.to_dense().any() and [b.shape for b in ally.block] == NE, 'allocate')

    def numbers(sl, what=None):
        return list(range(N + 1))[sl] if isinstance(sl, slice) else sl

    for r, q in slices(N):
        R, C = numbers(r), numbers(q)
        try:
            sub = s[r, q]
        except Exception as e:
            raise AssertionError('subsystem {} {}: {}'.format(R, C, repr(e)))
        require(sub.A.block.shape == (len(R), len(C)) and sub.B.block.shape == (len(R), len(R)), 'shape of subsystem', lambda: '{} {}'.format(R, C))
        require(list(sub.L) == R and list(sub.R) == C, 'labels of subsystem')
        require([b.shape for b in sub.allocate_x().block] == [NE[k] for k in C] and [b.shape for b in sub.allocate_y().block] == [NE[k] for k in R], 'allocate')
        ri = np.concatenate([np.arange(at[k], at[k + 1]) for k in R])
        ci = np.concatenate([np.arange(at[k], at[k + 1]) for k in C])
        S = M[np.ix_(ri, ci)]
        x = BlockArray([block(NE[k], k) for k in C], ndim=1)
        y = BlockArray([block(NE[k], k) for k in R], ndim=1)
        near((sub.A * x).to_dense(), S @ x.to_dense(), 'subsystem')
        near((sub.B * y).to_dense(), y.to_dense(), 'right hand side of subsystem')
        normal = sub.normal()
        near((normal.A * x).to_dense(), S.T @ (S @ x.to_dense()), 'normal equations')
        near((normal.B * y).to_dense(), S.T @ y.to_dense(), 'right hand side of normal equations')
        require(list(normal.L) == C and list(normal.R) == C, 'labels of normal equations')
        ne = sub.normal_ne()
        near((ne.A * y).to_dense(), S @ (S.T @ y.to_dense()), 'outer normal equations')
        near((ne.B * y).to_dense(), y.to_dense(), 'right hand side of outer normal equations')
        require(list(ne.L) == R and list(ne.R) == R, 'labels of outer normal equations')
        if small:
            near(sub.A.to_dense(), S, 'subsystem matrix')
            near(normal.A.to_dense(), S.T @ S, 'normal matrix')
            near(ne.A.to_dense(), S @ S.T, 'outer normal matrix')
        d = normal.A.diagonal()
        near(d.to_dense(), np.diag(S.T @ S), 'diagonal of normal equations')
        near(ne.A.diagonal().to_dense(), np.diag(S @ S.T), 'diagonal of outer normal equations')
        # overwriting blocks of a subsystem leaves the system alone
        sub.A[0, 0] = 0
        rec.step(10)
        rec.trace()
        rec.outcome('subsystem')
    if small:
        near(s.A.to_dense(), M, 'subsystem shares blocks')
    rec.outcome('{}d'.format(N))
    if any(k % 2 for k in shape):
        rec.outcome('odd')


SPACES = [
    Space('arrays', cases_arrays, check_arrays, 'all arrays of 1-3 (4) blocks out of seven shapes', expect=['equal shapes', 'distinct shapes', 'size refused', 'shape refused'], chunk=8),
    Space('operators', cases_operators, check_operators, 'all block operators up to 2x2 (2x3, 3x2) with blocks from catalogues of 2-8 operators on three grids', expect=['square', 'not square'], chunk=1),
    Space('systems', cases_systems, check_systems, 'canonical systems on 14 (23) shapes with 3 scales, and all their subsystems of ranges or selections of equations', expect=['1d', '2d', '3d', 'subsystem', 'odd'], chunk=1),
]
