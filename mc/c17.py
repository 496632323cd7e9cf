"""C17: transfers between stencil grids, and multigrid cycles on them"""
import itertools

import numpy as np

from . import c14, c15
from .harness import Space, require

PROPERTY = 'C17'
ASSUMPTIONS = ['comparisons to single precision', 'iterative solvers of scipy are trusted up to their tolerance']


def sizes(shape):
    return [(len(s),) + tuple(shape) for s in c14.symbols(len(shape))]


def transfer(shape, n):
    """coarse n-cubes from the fine ones that they are made of: mean along their extent, coinciding in other directions"""
    S = c14.symbols(len(shape))
    out = []
    for s in S[n]:
        K = np.ones((1, 1))
        for a, m in enumerate(shape):
            k = np.zeros((m // 2, m))
            for i in range(m // 2):
                k[i, 2 * i] = 1
                if a in s:
                    k[i, 2 * i] = k[i, 2 * i + 1] = 0.5
            K = np.kron(K, k)
        out.append(K)
    r, c = sum(k.shape[0] for k in out), sum(k.shape[1] for k in out)
    M = np.zeros((r, c))
    i = j = 0
    for k in out:
        M[i:i + k.shape[0], j:j + k.shape[1]] = k
        i, j = i + k.shape[0], j + k.shape[1]
    return M


def coarsen(shape, n):
    return transfer(shape, n) @ c15.smoothing(shape, n, True)


def refine(shape, n):
    return c15.smoothing(shape, n, False).T @ (2 ** n * transfer(shape, n).T)


def cases_transfers(tier):
    quick = tier == 'quick'
    spec = [(1, range(2, 13, 2)), (2, range(2, 9, 2) if quick else range(2, 13, 2)), (3, (2, 4) if quick else (2, 4, 6)), (4, (2,) if quick else (2, 4))]
    for N, r in spec:
        for s in itertools.product(r, repeat=N):
            if np.prod(s) <= (256 if quick else 600):
                yield list(s)


def check_transfers(case, rec):
    from pycomplex.stencil.complex import StencilComplex
    shape = tuple(case)
    N = len(shape)
    half = tuple(s // 2 for s in shape)
    F, C = sizes(shape), sizes(half)
    rec.state(shape)
    c = StencilComplex.from_shape(shape, scale=0.5)
    t = c.topology
    impulses = np.prod(shape) <= 64
    require(len(t.transfers) == len(c.coarsen) == len(c.refine) == len(c.smoothers(True)) == N + 1, 'number of operators')
    for n in range(N + 1):
        T = transfer(shape, n)
        c14.check_operator(t.transfers[n], T, F[n], C[n], rec, 'transfer', impulses)
        c14.check_operator(t.transfers[n].transpose(), T.T * 2 ** n, C[n], F[n], rec, 'transposed transfer', impulses)
        for total in (True, False):
            S = c15.smoothing(shape, n, total)
            c14.check_operator(c.smoothers(total)[n], S, F[n], F[n], rec, 'smoother', impulses)
            c14.check_operator(c.smoothers(total)[n].transpose(), S.T, F[n], F[n], rec, 'transposed smoother', False)
        R, P = coarsen(shape, n), refine(shape, n)
        c14.check_operator(c.coarsen[n], R, F[n], C[n], rec, 'coarsen', impulses)
        c14.check_operator(c.refine[n], P, C[n], F[n], rec, 'refine', impulses)
        c14.check_operator(c.coarsen[n].transpose(), R.T * 2 ** n, C[n], F[n], rec, 'transposed coarsen', False)
        # constants are kept
        for v in (1, -3.5):
            require(np.allclose(c.coarsen[n](np.full(F[n], v)), v) and np.allclose(c.refine[n](np.full(C[n], v)), v), 'constants')
        # refine is coarsen transposed, up to a factor
        require(np.allclose(P, R.T * 2 ** N), 'harness', 'transpose')
        f, g = c14.generic(F[n], 'float'), c14.generic(C[n], 'float')
        a, b = (c.coarsen[n](f) * g).sum(), (f * c.refine[n](g)).sum()
        require(abs(a * 2 ** N - b) < 1e-4 * (1 + abs(f).sum() * 20), 'transposition', lambda: '{} {}'.format(a * 2 ** N, b))
        # interpolation commutes with the derivative
        if n < N:
            l = t.primal[n](c.refine[n](g))
            r = c.refine[n + 1](c.coarse.topology.primal[n](g))
            require(np.abs(l * 2 - r).max() < 1e-4 * (1 + np.abs(r).max()), 'derivative of refined form')
            rec.outcome('commutes')
        # and is exact at coinciding vertices
        if n == 0:
            P0 = c.refine[0](g)
            require(np.allclose(P0[(slice(None),) + (slice(None, None, 2),) * N], g), 'refined vertices')
        rec.step(10)
        rec.trace()
    # through more levels
    if all(s % 4 == 0 for s in shape):
        f = c14.generic(F[0], 'float')
        q = c.coarse.coarsen[0](c.coarsen[0](f))
        own = coarsen(half, 0) @ (coarsen(shape, 0) @ f.reshape(-1))
        require(np.allclose(q.reshape(-1), own, atol=1e-5), 'two levels')
        rec.outcome('two levels')
    rec.outcome('{}d'.format(N))


# --- cycles: the recursion itself, on equations of dense matrices

def cases_cycles(tier):
    quick = tier == 'quick'
    for kind in ('stencil',):
        for levels in range(0, 4 if quick else 6):
            for smoothing in ('damped', 'none', 'strong', 'shift'):
                for coarse in ('galerkin', 'rediscretized', 'wrong'):
                    for start in ('none', 'zero', 'random', 'exact'):
                        yield [kind, levels, smoothing, coarse, start]


class Dense(object):
    """an equation A x = y of dense matrices, that records what is asked of it"""
    log = None


def make_hierarchy(levels, smoothing, coarse, mg, log):
    n = 2 ** levels * 2
    MG = mg.MultiGridEquation

    class Equation(MG):
        def __init__(self, A, level):
            self.A, self.level = A, level
            n = len(A)
            if n > 1:
                R = np.zeros((n // 2, n))
                for i in range(n // 2):
                    for o, w in ((-1, .25), (0, .5), (1, .25)):
                        R[i, (2 * i + o) % n] += w
                self.R, self.P = R, R.T * 2
            w = {'damped': 0.6, 'none': 0, 'strong': 1.1, 'shift': 0.5}[smoothing]
            self.W = w / np.diag(A)
            if smoothing == 'shift':
                self.W = np.roll(self.W, 1) * np.linspace(0.5, 1, n)

        @property
        def coarse(self):
            if coarse == 'galerkin':
                return Equation(self.R @ self.A @ self.P, self.level + 1)
            if coarse == 'rediscretized':
                return Equation(matrix(len(self.A) // 2), self.level + 1)
            return Equation(matrix(len(self.A) // 2) * 1.7 + np.eye(len(self.A) // 2), self.level + 1)

        def residual(self, x, y):
            log.append(('residual', self.level))
            return self.A @ x - y

        def smooth(self, x, y):
            log.append(('smooth', self.level))
            return x - self.W * (self.A @ x - y)

        def solve(self, y, x=None):
            log.append(('solve', self.level))
            return np.linalg.solve(self.A, y)

        def restrict(self, y):
            log.append(('restrict', self.level))
            return self.R @ y

        def interpolate(self, x):
            log.append(('interpolate', self.level))
            return self.P @ x

    def matrix(n):
        A = np.eye(n) * 2.5
        for i in range(n):
            A[i, (i + 1) % n] -= 1
            A[i, (i - 1) % n] -= 1
        return A
    return Equation(matrix(n), 0)


def check_cycles(case, rec):
    import importlib
    kind, levels, smoothing, coarse, start = case
    if kind == 'stencil':
        mg = importlib.import_module('pycomplex.stencil.multigrid')
    else:
        mg = plain()
        if mg is None:
            return
    rec.state(case)
    log = []
    if kind == 'plain':
        class Base(object):
            def hierarchy(self, levels):
                out = [self]
                for l in range(levels):
                    out.append(out[-1].coarse)
                return out[::-1]
        holder = type('holder', (), {'MultiGridEquation': Base})
        finest = make_hierarchy(levels, smoothing, coarse, holder, log)
    else:
        finest = make_hierarchy(levels, smoothing, coarse, mg, log)
    H = finest.hierarchy(levels)
    require(len(H) == levels + 1 and H[-1] is finest and [h.level for h in H] == list(range(levels, -1, -1)), 'hierarchy')
    n = len(finest.A)
    y = np.cos(np.arange(n) * 1.9) + 0.2
    exact = np.linalg.solve(finest.A, y)
    # error propagation of a v-cycle: smooth, correct by the cycle of the coarser level, smooth
    E = np.zeros((len(H[0].A),) * 2)
    for h in H[1:]:
        m = len(h.A)
        S = np.eye(m) - np.diag(h.W) @ h.A
        Ac = H[H.index(h) - 1].A
        correction = np.eye(m) - h.P @ (np.eye(m // 2) - E) @ np.linalg.inv(Ac) @ h.R @ h.A
        E = S @ correction @ S
    x0 = {'none': None, 'zero': np.zeros(n), 'random': np.sin(np.arange(n) * 2.3), 'exact': exact.copy()}[start]
    given = None if x0 is None else x0.copy()
    error = -exact if x0 is None else x0 - exact
    size = (1 + np.abs(error).max()) * (1 + np.abs(E).max())

    def near(x, e, what):
        require(np.abs(x - exact - e).max() < 1e-9 * size, what, lambda: str(np.abs(x - exact - e).max()))
    yc = y.copy()
    x = mg.v_cycle(H, y) if x0 is None else mg.v_cycle(H, y, x0)
    near(x, E @ error, 'v-cycle')
    require(np.array_equal(y, yc) and (given is None or np.array_equal(given, x0)), 'modifies its arguments')
    # on each level but the coarsest: smooth, residual, restrict, (recursion), interpolate, smooth
    own = []
    for l in range(levels):
        own += [('smooth', l), ('residual', l), ('restrict', l)]
    own += [('solve', levels)]
    for l in reversed(range(levels)):
        own += [('interpolate', l), ('smooth', l)]
    require(log == own, 'work of a v-cycle', lambda: str(log))
    if start == 'exact':
        near(x, 0, 'fixed point')
        rec.outcome('fixed point')
    if kind == 'stencil' or x0 is not None:
        for k in (0, 1, 2, 3):
            if k == 0 and x0 is None:
                continue
            x = mg.solve_v_cycle(H, y, x0, iterations=k) if kind == 'stencil' else mg.solve_v_cycle(H, y, x0, iterations=k)
            near(x, np.linalg.matrix_power(E, k) @ error, 'repeated v-cycles')
    for k in (0, 1, 2):
        x = mg.solve_full_cycle(H, y, iterations=k)
        # right hand sides of all levels
        rhs = [y]
        for h in H[:0:-1]:
            rhs.append(h.R @ rhs[-1])
        rhs = rhs[::-1]
        z = np.linalg.solve(H[0].A, rhs[0])
        Ek = np.zeros_like(H[0].A)
        for i, h in enumerate(H[1:], 1):
            m = len(h.A)
            S = np.eye(m) - np.diag(h.W) @ h.A
            Ek = S @ (np.eye(m) - h.P @ (np.eye(m // 2) - Ek) @ np.linalg.inv(H[i - 1].A) @ h.R @ h.A) @ S
            sol = np.linalg.solve(h.A, rhs[i])
            z = sol + np.linalg.matrix_power(Ek, k) @ (h.P @ z - sol)
        require(np.abs(x - z).max() < 1e-9 * (1 + np.abs(z).max()) * size, 'full cycle')
    if coarse == 'galerkin' and smoothing == 'damped' and levels:
        require(np.abs(np.linalg.eigvals(E)).max() < 0.5, 'harness', 'convergence')
        x = mg.solve_v_cycle(H, y, np.zeros(n), iterations=30)
        require(np.abs(x - exact).max() < 1e-7, 'convergence')
        rec.outcome('converges')
    rec.step(8)
    rec.trace()
    rec.outcome('{} levels'.format(levels))
    rec.outcome(kind)


def plain():
    return None


# --- equations of diffusion

def cases_diffusion(tier):
    quick = tier == 'quick'
    for shape, fields, chunks in [((2, 2), 'ck', 16), ((4,), 'ckrf', 16), ((2,), 'ckrf', 4), ((1, 2), 'ckrf', 16)] + ([((4, 2), 'c', 4)] if quick else [((2, 2), 'cr', 16), ((2, 2), 'cf', 16), ((4, 2), 'c', 16), ((6,), 'ck', 16), ((4, 4), 'c', 512)]):
        for scale in (1, 0.5):
            for k in range(chunks):
                yield [list(shape), scale, fields, k, chunks]


VALUES = {'c': (0, 0.5), 'k': (1, 0.2), 'r': (1, 0.3), 'f': (1, 0.4)}


def patterns(shape, fields):
    """all fields of two values in the given letters, other fields are one (the constraint is partial)"""
    NE = sizes(shape)
    cells = [(f, i) for f in fields for i in range(int(np.prod(NE[0 if f == 'c' else 1])))]
    return cells, NE


def check_diffusion(case, rec):
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.diffusion import Diffusion
    shape, scale, letters, chunk, chunks = tuple(case[0]), case[1], case[2], case[3], case[4]
    N = len(shape)
    cells, NE = patterns(shape, letters)
    n0, n1 = int(np.prod(NE[0])), int(np.prod(NE[1]))
    c = StencilComplex.from_shape(shape, scale=scale)
    D = c14.coboundary(shape, 0)
    h0, h1 = scale ** N, scale ** (N - 2)
    total = 2 ** len(cells)
    # all patterns when there are few; otherwise those of few deviating cells
    masks = range(total) if total <= 4096 else [sum(1 << i for i in q) for m in range(3) for q in itertools.combinations(range(len(cells)), m)]
    for number, mask in enumerate(masks):
        if number % chunks != chunk:
            continue
        values = {f: np.full(n0 if f == 'c' else n1, VALUES[f][0], float) for f in 'ckrf'}
        if 'c' not in letters:
            values['c'][0] = 0.5
        for b, (f, i) in enumerate(cells):
            if mask >> b & 1:
                values[f][i] = VALUES[f][1]
        rec.state(shape, scale, letters, mask)
        fields = dict(constraint=values['c'].reshape(NE[0]), conductance=values['k'].reshape(NE[1]), resistance=values['r'].reshape(NE[1]), foo=values['f'].reshape(NE[1]))
        keep = {k: v.copy() for k, v in fields.items()}
        e = Diffusion.formulate(c, fields)
        A = np.block([[-h0 * np.diag(values['c']), D.T * h1 * values['k']], [values['f'][:, None] * h1 * D, h1 * np.diag(values['r'])]])

        def arr(v):
            return BlockArray([v[:n0].reshape(NE[0]).copy(), v[n0:].reshape(NE[1]).copy()], ndim=1)

        def near(b, v, what, scale=0):
            r = b.to_dense() if hasattr(b, 'to_dense') else b
            require(r.shape == v.shape and np.abs(r - v).max() <= 2e-5 * (1 + np.abs(v).max() + scale), what, lambda: 'mask {}: {}'.format(mask, np.abs(r - v).max()))
        k = np.arange(n0 + n1)
        x, y = np.cos(k * 1.1), np.sin(k * 2.3 + 0.4)
        X, Y = arr(x), arr(y)
        near(e.residual(X, Y), A @ x - y, 'residual')
        Nn = A.T @ A
        d = np.diag(Nn)
        require((d > 0).all(), 'harness', 'diagonal')
        near(e.inverse_normal_diagonal, 1 / d, 'diagonal')

        def jacobi(x, w):
            return x - w / 2 * (A.T @ (A @ x - y)) / d
        for w in (1, 0.5, 2):
            near(e.jacobi(X, Y, w), jacobi(x, w), 'jacobi')
        near(e.jacobi(X, Y), jacobi(x, 1), 'jacobi')
        z = x
        for w in (0.5, 1.25, 2):
            z = jacobi(z, w)
        near(e.smooth(X, Y), z, 'smooth', np.abs(x).max() * 10)
        require(np.linalg.norm(A @ z - y) <= np.linalg.norm(A @ x - y) * (1 + 1e-9), 'smoothing increases the residual')
        s = [slice(0, n0), slice(n0, n0 + n1)]
        z = x.copy()
        for q in s:
            z[q] = z[q] - (Nn[q] @ z - (A.T @ y)[q]) / d[q] / 2
        near(e.NR_BLOCK_GS(X, Y), z, 'block gauss-seidel on columns')
        require(np.linalg.norm(A @ z - y) <= np.linalg.norm(A @ x - y) * (1 + 1e-9), 'gauss-seidel increases the residual')
        z = x.copy()
        dd = np.diag(A @ A.T)
        for q in s:
            z = z - A[q].T @ ((A[q] @ z - y[q]) / (dd[q] + 1e-16) / 2)
        near(e.NE_BLOCK_GS(X, Y), z, 'block gauss-seidel on rows')
        near(X, x, 'modifies its arguments')
        near(Y, y, 'modifies its arguments')
        # direct solution in the least squares sense
        if number % 8 == 0 or total <= 256:
            r = e.solve_minres_normal(Y, rtol=1e-10).to_dense()
            require(np.abs(A.T @ (A @ r - y)).max() < 1e-4 * (1 + np.abs(y).max()) * (1 + np.abs(A).max() ** 2), 'solution', lambda: str(np.abs(A.T @ (A @ r - y)).max()))
            r = e.solve(Y, X, rtol=1e-10).to_dense()
            require(np.abs(A.T @ (A @ r - y)).max() < 1e-4 * (1 + np.abs(y).max()) * (1 + np.abs(A).max() ** 2), 'solution from a guess')
            if np.linalg.cond(A) < 1e3:
                # a guess that is right is kept
                z = np.linalg.solve(A, y)
                near(e.solve(Y, arr(z), maxiter=1, rtol=1e-3), z, 'right guess', np.abs(z).max() * 50)
                rec.outcome('guess')
            rec.outcome('solved')
        # the coarser equation
        if all(q % 2 == 0 for q in shape):
            half = tuple(q // 2 for q in shape)
            CE = sizes(half)
            g = e.coarse
            require(g.complex.shape == half and g.complex.scale == 2 * scale, 'coarse equation')
            T0, T1 = coarsen(shape, 0), coarsen(shape, 1)
            m0, m1 = T0.shape[0], T1.shape[0]
            vc = T0 @ values['c']
            vk, vr, vf = (T1 @ values[q] for q in 'krf')
            Dc = c14.coboundary(half, 0)
            g0, g1 = (2 * scale) ** N, (2 * scale) ** (N - 2)
            B = np.block([[-g0 * np.diag(vc), Dc.T * g1 * vk], [vf[:, None] * g1 * Dc, g1 * np.diag(vr)]])
            xc, yc = np.cos(np.arange(m0 + m1) * 1.7), np.sin(np.arange(m0 + m1) * 0.9)
            XC = BlockArray([xc[:m0].reshape(CE[0]), xc[m0:].reshape(CE[1])], ndim=1)
            YC = BlockArray([yc[:m0].reshape(CE[0]), yc[m0:].reshape(CE[1])], ndim=1)
            near(g.residual(XC, YC), B @ xc - yc, 'coarse residual')
            near(e.restrict(Y), np.concatenate([g0 * (T0 @ y[:n0]) / h0, g1 * (T1 @ y[n0:]) / h1]), 'restrict')
            near(e.system.restrict_dual(Y), np.concatenate([g0 * (T0 @ y[:n0]) / h0, g1 * (T1 @ y[n0:]) / h1]), 'restrict')
            near(e.restrict_primal(Y), np.concatenate([T0 @ y[:n0], T1 @ y[n0:]]), 'restrict')
            near(e.system.restrict_primal(Y), np.concatenate([T0 @ y[:n0], T1 @ y[n0:]]), 'restrict')
            near(e.interpolate(XC), np.concatenate([refine(shape, 0) @ xc[:m0], refine(shape, 1) @ xc[m0:]]), 'interpolate')
            require(g.fine is e, 'fine')
            rec.outcome('coarse')
        require(all(np.array_equal(keep[q], fields[q]) for q in keep), 'modifies fields')
        rec.step(12)
        rec.trace()
    rec.outcome('{}d'.format(N))


def cases_formulations(tier):
    for kind in ('flux', 'all'):
        for shape, chunks in [((2, 2), 8), ((3, 2), 8), ((2, 2, 2), 24)] + ([((4, 2), 16), ((3, 3), 16), ((4, 3), 16)] if tier != 'quick' else []):
            for scale in (1, 0.5):
                for k in range(chunks):
                    yield [kind, list(shape), scale, k, chunks]


def check_formulations(case, rec):
    """formulations with more equations than unknowns"""
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.diffusion import Diffusion
    kind, shape, scale, chunk, chunks = case[0], tuple(case[1]), case[2], case[3], case[4]
    N = len(shape)
    NE = sizes(shape)
    letters = 'kr' if kind == 'flux' else 'ckr'
    cells = patterns(shape, letters)[0]
    n = [int(np.prod(q)) for q in NE]
    D0, D1 = c14.coboundary(shape, 0), c14.coboundary(shape, 1)
    h = [scale ** (N - 2 * k) for k in range(3)]
    c = StencilComplex.from_shape(shape, scale=scale)
    R, L = ([1], [0, 2]) if kind == 'flux' else ([0, 1], [0, 1, 2])
    masks = [sum(1 << i for i in q) for m in range(3) for q in itertools.combinations(range(len(cells)), m)]
    if len(masks) > 300:
        masks = masks[:1 + len(cells)]
    if len(masks) > 50 and n[2] > 12:
        masks = masks[:20]
    for number, mask in enumerate(masks):
        if number % chunks != chunk:
            continue
        rec.state(kind, shape, scale, mask)
        values = {f: np.full(n[0] if f == 'c' else n[1], VALUES[f][0], float) for f in 'ckrf'}
        if kind == 'all':
            values['c'][0] = 0.5
        for b, (f, i) in enumerate(cells):
            if mask >> b & 1:
                values[f][i] = VALUES[f][1]
        fields = dict(constraint=values['c'].reshape(NE[0]), conductance=values['k'].reshape(NE[1]), resistance=values['r'].reshape(NE[1]), foo=values['f'].reshape(NE[1]))
        keep = {k: v.copy() for k, v in fields.items()}
        if kind == 'flux':
            e = Diffusion.formulate_flux_only(c, fields)
            A = np.vstack([D0.T * h[1] * values['k'], h[2] * D1 * values['r']])
        else:
            e = Diffusion.formulate_all(c, fields)
            A = np.block([[-h[0] * np.diag(values['c']), D0.T * h[1] * values['k']], [h[1] * D0, h[1] * np.diag(values['r'])], [np.zeros((n[2], n[0])), h[2] * D1 * values['r']]])

        def arr(v, blocks):
            cut = np.cumsum([0] + [n[k] for k in blocks])
            return BlockArray([v[a:b].reshape(NE[k]).copy() for a, b, k in zip(cut, cut[1:], blocks)], ndim=1)

        def near(b, v, what, extra=0):
            r = b.to_dense()
            require(r.shape == v.shape and np.abs(r - v).max() <= 2e-5 * (1 + np.abs(v).max() + extra), what, lambda: 'mask {}: {}'.format(mask, np.abs(r - v).max() if r.shape == v.shape else r.shape))
        x, y = np.cos(np.arange(A.shape[1]) * 1.1), np.sin(np.arange(A.shape[0]) * 2.3 + 0.4)
        X, Y = arr(x, R), arr(y, L)
        near(e.residual(X, Y), A @ x - y, 'residual')
        G = A.T @ A
        d, dd = np.diag(G), np.diag(A @ A.T)
        near(e.inverse_normal_diagonal, 1 / d, 'diagonal')

        def jacobi(x, w):
            return x - w / 2 * (A.T @ (A @ x - y)) / d
        near(e.jacobi(X, Y, 0.75), jacobi(x, 0.75), 'jacobi', np.abs(A).max() ** 2)
        z = x
        for w in (0.5, 1.25, 2):
            z = jacobi(z, w)
        near(e.smooth(X, Y), z, 'smooth', np.abs(A).max() ** 2 * 10)
        cut = np.cumsum([0] + [n[k] for k in R])
        z = x.copy()
        for a, b in zip(cut, cut[1:]):
            z[a:b] = z[a:b] - (G[a:b] @ z - (A.T @ y)[a:b]) / d[a:b] / 2
        near(e.NR_BLOCK_GS(X, Y), z, 'block gauss-seidel on columns', np.abs(A).max() ** 2)
        cut = np.cumsum([0] + [n[k] for k in L])
        z = x.copy()
        for a, b in zip(cut, cut[1:]):
            z = z - A[a:b].T @ ((A[a:b] @ z - y[a:b]) / (dd[a:b] + 1e-16) / 2)
        near(e.NE_BLOCK_GS(X, Y), z, 'block gauss-seidel on rows', np.abs(A).max() ** 2)
        for r in (e.solve(Y, rtol=1e-10), e.solve(Y, X, rtol=1e-10), e.normal.solve(Y, rtol=1e-10)):
            require([b.shape for b in r.block] == [NE[k] for k in R], 'solution structure', lambda: 'shapes {}'.format([b.shape for b in r.block]))
            g = A.T @ (A @ r.to_dense() - y)
            require(np.abs(g).max() < 1e-4 * (1 + np.abs(y).max()) * (1 + np.abs(A).max() ** 2), 'solution', lambda: str(np.abs(g).max()))
        near(X, x, 'modifies its arguments')
        near(Y, y, 'modifies its arguments')
        require(all(np.array_equal(keep[q], fields[q]) for q in keep), 'modifies fields')
        rec.outcome(kind)
        rec.step(9)
        rec.trace()


SPACES = [
    Space('transfers', cases_transfers, check_transfers, 'all even shapes up to 12 in 1-d, 8 (12) in 2-d, 4 (6) in 3-d, 2 (4) in 4-d; all impulses up to 64 vertices; six types and five layouts', expect=['1d', '2d', '3d', '4d', 'commutes', 'two levels'], chunk=1),
    Space('cycles', cases_cycles, check_cycles, 'hierarchies of up to 4 (6) levels, four smoothers, three kinds of coarse equation, four initial guesses', expect=['fixed point', 'converges', '3 levels', 'stencil'], chunk=4),
    Space('diffusion', cases_diffusion, check_diffusion, 'all patterns of two values for the fields (or of at most two deviating cells) on grids of up to 4 (16) vertices', expect=['1d', '2d', 'solved', 'coarse'], chunk=1),
    Space('formulations', cases_formulations, check_formulations, 'diffusion with more equations than unknowns, patterns of up to two (one) deviating cells on grids of 4-12 cells', expect=['flux', 'all'], chunk=1),
]
