"""C14: implicit (stencil) calculus on periodic grids"""
import itertools

import numpy as np

from .harness import Space, require

PROPERTY = 'C14'
ASSUMPTIONS = ['operators on float32 output: comparisons to 1e-5 relative']


def shapes(tier):
    quick = tier == 'quick'
    for n, top in [(1, 6), (2, 5), (3, 4)] if quick else [(1, 9), (2, 7), (3, 5)]:
        yield from itertools.product(range(1, top + 1), repeat=n)
    yield from itertools.product(*([[1, 2, 3]] if quick else [[1, 2, 3, 4]]) * 4)
    yield from itertools.product([1, 2], repeat=5)


def symbols(N):
    """components of n-forms: sorted sets of axes"""
    return [list(itertools.combinations(range(N), n)) for n in range(N + 1)]


def flat(n_elements, c, x, shape):
    return int(np.ravel_multi_index((c,) + tuple(int(i) % s for i, s in zip(x, shape)), n_elements))


def coboundary(shape, n):
    """forward differences along each axis of a component, with the sign of appending that axis to the symbol"""
    N = len(shape)
    S = symbols(N)
    size = int(np.prod(shape))
    M = np.zeros((len(S[n + 1]) * size, len(S[n]) * size))
    for c, s in enumerate(S[n + 1]):
        for k, a in enumerate(s):
            rest = s[:k] + s[k + 1:]
            sign = (-1) ** (n - k)
            b = S[n].index(rest)
            for x in np.ndindex(*shape):
                y = list(x)
                y[a] += 1
                r = flat((len(S[n + 1]),) + shape, c, x, shape)
                M[r, flat((len(S[n]),) + shape, b, y, shape)] += sign
                M[r, flat((len(S[n]),) + shape, b, x, shape)] -= sign
    return M


def averaging(shape, n):
    """mean over the vertices of each n-cube"""
    S = symbols(len(shape))
    size = int(np.prod(shape))
    M = np.zeros((len(S[n]) * size, size))
    for c, s in enumerate(S[n]):
        for x in np.ndindex(*shape):
            for corner in itertools.product([0, 1], repeat=n):
                y = list(x)
                for a, q in zip(s, corner):
                    y[a] += q
                M[flat((len(S[n]),) + shape, c, x, shape), flat((1,) + shape, 0, y, shape)] += 2. ** -n
    return M


def dense(op, rec, rows, cols):
    """the matrix of an operator from all impulses"""
    shape = op.shape[1]
    out = np.zeros((rows, cols))
    for j, i in enumerate(np.ndindex(*shape)):
        e = np.zeros(shape)
        e[i] = 1
        r = op(e)
        require(e.sum() == 1 and e[i] == 1, 'operator modifies its argument')
        out[:, j] = r.reshape(-1)
    rec.step(cols)
    return out


def layouts(f):
    """the same form in different layouts of memory"""
    yield 'C', np.ascontiguousarray(f)
    yield 'F', np.asfortranarray(f)
    big = np.full(tuple(2 * s for s in f.shape), 7, f.dtype)
    v = big[tuple(slice(None, None, 2) for s in f.shape)]
    v[...] = f
    yield 'strided', v
    yield 'reversed', np.flip(np.flip(f).copy())
    r = f.copy()
    r.flags.writeable = False
    yield 'readonly', r


def generic(shape, kind=float):
    k = np.arange(int(np.prod(shape))).reshape(shape)
    if kind == 'float':
        return np.cos(k * 1.7 + 0.3 * (k % 5)) * 3
    if kind == 'single':
        return (np.cos(k * 1.7 + 0.3 * (k % 5)) * 3).astype(np.float32)
    if kind == 'bool':
        return (k * 7 + k // 3) % 3 == 0
    return ((k * 37 + k // 2) % 100 + (0 if kind == 'uint8' else -50)).astype(kind)


KINDS = ['float', 'single', 'bool', 'uint8', 'int8', 'int64']


def check_operator(op, M, n_in, n_out, rec, what, impulses=True):
    """an operator equals the matrix M, for any type and layout, each time it is called"""
    require(tuple(op.shape[0]) == tuple(n_out) and tuple(op.shape[1]) == tuple(n_in), what + ' shape')
    if impulses:
        D = dense(op, rec, *M.shape)
        require(np.abs(D - M).max() < 1e-6, what + ' matrix', lambda: 'at {}'.format(np.argwhere(np.abs(D - M) > 1e-6)[0].tolist()))
    for kind in KINDS:
        f = generic(n_in, kind)
        own = (M @ f.reshape(-1).astype(float)).reshape(n_out)
        for layout, g in layouts(f):
            r = op(g)
            require(r.shape == tuple(n_out) and np.abs(r - own).max() <= 1e-5 * (1 + np.abs(own).max()), what + ' values',
                    lambda: '{} {}'.format(kind, layout))
            require(np.array_equal(g, f), what + ' modifies its argument')
            # results are not shared between calls
            keep = np.array(r)
            q = op(generic(n_in, 'float') + 1)
            require(np.array_equal(r, keep), what + ' results share memory')
            rec.step(2)
    # in place changes of a result have no effect on the next
    f = generic(n_in, 'float')
    a = op(f)
    b = np.array(a)
    if a.flags.writeable:
        a += 1
    require(np.allclose(op(generic(n_in, 'float')), b), what + ' repeated')
    rec.trace()


def check_topology(case, rec):
    from pycomplex.stencil.topology import StencilTopology
    shape = tuple(case)
    N = len(shape)
    rec.state(shape)
    t = StencilTopology(shape=shape)
    S = symbols(N)
    size = int(np.prod(shape))
    require([list(map(tuple, s)) for s in t.symbols] == S, 'symbols', str(t.symbols))
    NE = [(len(s),) + shape for s in S]
    require([tuple(n) for n in t.n_elements] == NE, 'n_elements')
    require(t.is_even == all(s % 2 == 0 for s in shape), 'is_even')
    require(t.fine.shape == tuple(2 * s for s in shape), 'fine')
    require(t.fine.coarse.shape == shape, 'coarse of fine')
    if t.is_even:
        require(t.coarse.shape == tuple(s // 2 for s in shape), 'coarse')
    else:
        try:
            t.coarse
        except AssertionError:
            rec.outcome('odd refused')
        else:
            require(False, 'odd shape coarsened')
    require(len(t.primal) == len(t.dual) == N, 'number of operators')
    for n in range(N + 1):
        for init, value in [('zeros', 0), ('ones', 1)]:
            f = t.form(n, init=init)
            require(f.shape == NE[n] and (f == value).all() and f.dtype == np.float32, 'form')
            f[...] = 5
            require((t.form(n, init=init) == value).all(), 'form shared')
        require(t.form(n, dtype=np.float64).dtype == np.float64 and t.form(n, init='empty').shape == NE[n], 'form dtype')
    impulses = size <= 81
    previous = None
    for n in range(N):
        M = coboundary(shape, n)
        check_operator(t.primal[n], M, NE[n], NE[n + 1], rec, 'primal derivative', impulses)
        check_operator(t.dual[n], M.T, NE[n + 1], NE[n], rec, 'dual derivative', impulses)
        check_operator(t.dual[n].transpose(), M, NE[n], NE[n + 1], rec, 'transposed dual derivative', False)
        if previous is not None:
            require(np.abs(M @ previous).max() == 0, 'harness', 'dd')
            f = generic(NE[n - 1], 'int8')
            require((t.primal[n](t.primal[n - 1](f)) == 0).all(), 'd d')
            f = generic(NE[n + 1], 'int8')
            require((t.dual[n - 1](t.dual[n](f)) == 0).all(), 'dual d d')
            rec.outcome('dd')
        previous = M
    A = t.averaging_operators_0
    require(len(A) == N + 1, 'number of averaging operators')
    for n in range(N + 1):
        check_operator(A[n], averaging(shape, n), NE[0], NE[n], rec, 'averaging', impulses and n < 3)
    for bad in [NE[0][1:], (2,) + shape] + ([(1,) + shape[::-1]] if shape[::-1] != shape else []):
        try:
            t.primal[0](np.zeros(bad))
        except AssertionError:
            pass
        else:
            require(False, 'wrong shape accepted', str(bad))
    rec.outcome('{}d'.format(N))


def cases_complex(tier):
    quick = tier == 'quick'
    for scale in [1, 2, 0.5, 0.3]:
        for shape in [(1,), (2,), (3,), (5,), (1, 3), (2, 2), (2, 3), (3, 2), (4, 1), (2, 1, 3), (1, 2, 2), (3, 2, 2)] + ([] if quick else [(4,), (7,), (4, 5), (3, 3, 3), (2, 3, 4), (2, 2, 2, 2)]):
            yield [list(shape), scale]


def check_complex(case, rec):
    from pycomplex.stencil.complex import StencilComplex
    shape, scale = tuple(case[0]), case[1]
    N = len(shape)
    rec.state(shape, scale)
    c = StencilComplex.from_shape(shape, scale=scale)
    S = symbols(N)
    NE = [(len(s),) + shape for s in S]
    require(StencilComplex.from_shape(shape).scale == 1, 'default scale')
    require(c.n_dim == N and c.shape == shape and [tuple(n) for n in c.n_elements] == NE, 'properties')
    require(c.fine.scale == scale / 2 and c.fine.shape == tuple(2 * s for s in shape), 'fine')
    require(c.fine.coarse.scale == scale and c.fine.coarse.shape == shape, 'coarse')
    # hodge: dual volume over primal volume
    for n in range(N + 1):
        f = generic(NE[n], 'float')
        h = scale ** (N - n) / scale ** n
        require(np.allclose(c.hodge[n](f), f * h), 'hodge')
        require(np.allclose(c.hodge[n].transpose()(f), f * h), 'hodge transposed')
        require(np.allclose(c.hodge[n].inverse()(f), f / h) and np.allclose(c.hodge[n].I(f), f / h), 'inverse hodge')
        require(np.array_equal(f, generic(NE[n], 'float')), 'hodge modifies its argument')
        rec.step(4)
    p = c.primal_position[0]
    require(p.shape == (1,) + shape + (N,), 'primal_position shape')
    for x in np.ndindex(*shape):
        require(np.allclose(p[(0,) + x], np.array(x) * scale), 'primal_position')
    # hodge laplacian is symmetric, semi-definite, and scales as 1 / scale ** 2
    for n in range(N):
        d = c.topology.primal[n]
        M = coboundary(shape, n)
        delta = c.hodge[n].I * c.topology.dual[n] * c.hodge[n + 1] * d
        f = generic(NE[n], 'float')
        own = (M.T @ (M @ f.reshape(-1))).reshape(NE[n]) / scale ** 2
        require(np.abs(delta(f) - own).max() < 1e-4 * (1 + np.abs(own).max()), 'laplacian')
        rec.step()
    # sampling: periodic multilinear interpolation
    steps = 4 if N < 3 else 2
    grid = [np.arange(-s * steps, 2 * s * steps + 1) for s in shape]
    Q = np.stack(np.meshgrid(*grid, indexing='ij'), axis=-1).reshape(-1, N) / steps
    for offset in [0, 0.11]:
        q = Q + offset
        for kind in ['float', 'single', 'int8']:
            f = generic(NE[0], kind)
            base = np.floor(q).astype(int)
            t = q - base
            own = np.zeros(len(q))
            for corner in itertools.product([0, 1], repeat=N):
                w = np.prod([ti if b else 1 - ti for ti, b in zip(t.T, corner)], axis=0)
                idx = [(base[:, a] + corner[a]) % shape[a] for a in range(N)]
                own += w * f[0][tuple(idx)]
            P = q * scale
            r = c.sample_0(f, P)
            bad = np.abs(r - own) > 1e-5 * (1 + np.abs(own).max()) * (1 + 1 / scale)
            require(r.shape == (len(q),) and not bad.any(), 'sample_0', lambda: '{}: {} should be {}'.format(P[bad][0], r[bad][0], own[bad][0]))
            require(np.array_equal(P, q * scale) and np.array_equal(f, generic(NE[0], kind)), 'sample_0 modifies its arguments')
            r = c.sample_0(f, P.tolist())
            require(not (np.abs(r - own) > 1e-4 * (1 + np.abs(own).max())).any(), 'sample_0 of a list')
            inside = ((q >= 0) & (q <= np.array(shape) - 1)).all(axis=1)
            r = c.sample_0(f, P[inside], assume_interior=True)
            require(np.abs(r - own[inside]).max() < 1e-5 * (1 + np.abs(own).max()) * (1 + 1 / scale) if inside.any() else len(r) == 0, 'sample_0 interior')
            for k in (None, 0, len(q) // 2, len(q) - 1):
                one = P[:0] if k is None else P[k:k + 1]
                r1 = c.sample_0(f, one)
                require(r1.shape == (len(one),) and (k is None or abs(r1[0] - own[k]) <= 1e-5 * (1 + np.abs(own).max()) * (1 + 1 / scale)), 'sample_0 alone', lambda: str(one))
            rec.step(3)
            rec.trace(2 * len(q))
            rec.outcome('sampled', len(q))
    rec.outcome('{}d'.format(N))


SPACES = [
    Space('topology', shapes, check_topology, 'all shapes up to 6 (9) in 1-d, 5 (7) in 2-d, 4 (5) in 3-d, 3 (4) in 4-d, 2 in 5-d; all impulses on up to 81 vertices; six types and five memory layouts',
          expect=['1d', '2d', '3d', '4d', '5d', 'dd', 'odd refused'], chunk=4),
    Space('complex', cases_complex, check_complex, '12 (18) shapes with 4 scales; samples on a lattice of three periods in each direction',
          expect=['sampled', '1d', '2d', '3d'], chunk=1),
]
