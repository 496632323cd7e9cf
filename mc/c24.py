"""C24: multigrid transfers of cubical complexes, and iterative solvers"""
import itertools

import numpy as np

from mc import gen, ref, topo
from mc.c02 import oriented
from mc.c06 import Lattice
from mc.c07 import elements, inside
from mc.c08 import build, embed
from mc.harness import Space, require
from pycomplex.solvers import solve_cg, solve_minres

PROPERTY = 'C24'
ASSUMPTIONS = ['coarse and fine complexes and their incidence are correct (C01, C06), eigenvalues of numpy are trusted',
               'transfers are compared to 1e-5, solutions of linear systems to 1e-4 of the right hand side']


# --- transfers

def laplacian(t, k):
    m = [topo.dense(x).astype(float) for x in t.matrices]
    n = t.n_elements[k]
    L = np.zeros((n, n))
    if k > 0:
        L += m[k - 1].T @ m[k - 1]
    if k < t.n_dim:
        L += m[k] @ m[k].T
    return L


def reference(t, f):
    """direct ancestry, followed by as many steps of smoothing as the rank of the order of the coarse elements
    that a fine element is in the interior of"""
    L = Lattice(t)
    els = elements(f)
    T = inside(L, els, L.which)
    out = []
    for k in range(t.n_dim + 1):
        # a fine element lies in the interior of the coarse element of highest order among those its vertices were
        # inserted on; it extends from the one of lowest order
        low = np.array([min(L.which(v)[0] for v in e) for e in els[k]])
        A = laplacian(f, k)
        S = np.eye(len(A)) - A / np.linalg.eigvalsh(A).max()
        R = np.zeros(T[k].shape)
        for steps, order in enumerate(sorted(set(low))):
            rows = low == order
            R[rows] = (np.linalg.matrix_power(S, steps) @ T[k])[rows]
        out.append(R)
    return out


def check_transfers(case, rec):
    cells, depth = case
    c = build('c', cells, embed(max(v for q in cells for v in q) + 1, 0, 'unit'))
    for level in range(depth):
        f = c.subdivide_cubical()
        rec.state(cells, level)
        keep = [topo.dense(m) for m in f.topology.transfer_matrices]
        got = f.multigrid_transfers
        want = reference(c.topology, f.topology)
        require(len(got) == len(want), 'length', 'number of transfers')
        for k, (g, w) in enumerate(zip(got, want)):
            g = np.asarray(g.todense())
            require(g.shape == w.shape, 'shape', lambda: 'transfer of {}-forms has shape {} instead of {}'.format(k, g.shape, w.shape))
            require(np.isfinite(g).all() and np.abs(g - w).max() < 1e-5, 'transfer', lambda: 'transfer of {}-forms off by {}'.format(k, np.abs(g - w).max()))
        require(all((a == topo.dense(b)).all() for a, b in zip(keep, f.topology.transfer_matrices)), 'ancestry', 'direct relations were modified')
        rec.step()
        rec.trace(len(want))
        rec.outcome('{}d'.format(c.topology.n_dim))
        faces = np.abs(topo.dense(c.topology.matrices[-1])).sum(axis=1)
        rec.outcome('closed' if (faces == 2).all() else 'open')
        c = f


def cases_transfers(tier):
    big = tier != 'quick'
    for kind, cells in gen.base_complexes(tier):
        if kind != 'c':
            continue
        N = topo.model(kind, cells).n_dim
        if N > (3 if not big else 4) or len(cells) > ({1: 8, 2: 6, 3: 2, 4: 1} if not big else {1: 14, 2: 12, 3: 4, 4: 1})[N]:
            continue
        o = ref.orientation_model(topo.model(kind, cells))
        variants = [cells]
        if o['orientable'] and not o['consistent']:
            variants.append(oriented(kind, cells))
        for v in variants:
            yield [v, (3 if N == 1 else 2 if N == 2 and len(v) <= (2 if not big else 4) else 1)]


# --- solvers

def symmetric(n, values):
    iu = np.triu_indices(n)
    for v in itertools.product(values, repeat=len(iu[0])):
        A = np.zeros((n, n))
        A[iu] = v
        yield A + A.T - np.diag(np.diag(A))


SIZES = {'quick': [(1, (-2, -1, 0, 1, 2)), (2, (-2, -1, 0, 1, 2)), (3, (-1, 0, 1, 2))], 'thorough': [(1, (-3, -2, -1, 0, 1, 2, 3)), (2, (-3, -2, -1, 0, 1, 2, 3)), (3, (-2, -1, 0, 1, 2))]}


def cases_solvers(tier):
    for i, (n, values) in enumerate(SIZES['quick' if tier == 'quick' else 'thorough']):
        chunks = 1 if n < 3 else 32
        for k in range(chunks):
            yield [n, list(values), k, chunks]


def sides(n):
    return [np.array(b, float) for b in itertools.product((-1, 0, 1), repeat=n)]


def check_solvers(case, rec):
    n, values, chunk, chunks = case
    for number, A in enumerate(symmetric(n, values)):
        if number % chunks != chunk:
            continue
        w, v = np.linalg.eigh(A)
        rank = np.abs(w) > 1e-9
        P = v[:, rank] @ v[:, rank].T
        kernel = v[:, ~rank]
        rec.state(A.tolist())
        for b in sides(n):
            keep = A.copy(), b.copy()
            # minres: any consistent symmetric system
            q = P @ b
            for rhs in ([b] if np.abs(q - b).max() < 1e-9 else [q]):
                x = solve_minres(A, rhs)
                require(x.shape == (n,) and np.abs(A @ x - rhs).max() < 1e-4, 'minres', lambda: '{} {}: {}'.format(A.tolist(), rhs.tolist(), x))
                x = solve_minres(A, rhs, x0=np.zeros(n), tol=1e-8)
                require(np.abs(A @ x - rhs).max() < 1e-6, 'minres', lambda: '{} {}: {}'.format(A.tolist(), rhs.tolist(), x))
                rec.step(2)
            # with a shift of the spectrum
            for shift in (0.5, -1.5):
                B = A - shift * np.eye(n)
                if np.abs(np.linalg.eigvalsh(B)).min() > 0.05:
                    x = solve_minres(A, b, shift=shift)
                    require(np.abs(B @ x - b).max() < 2e-4, 'minres shift', lambda: '{} {}: {}'.format(A.tolist(), b.tolist(), x))
                    rec.step()
            rec.outcome('indefinite' if w.min() < -1e-9 < 1e-9 < w.max() else 'definite')
            if w.min() > -1e-9 and rank.any():
                # conjugate gradients: positive semidefinite systems, deflated by their kernel
                def deflate(x):
                    if kernel.size:
                        x -= kernel @ (kernel.T @ x)
                for x0 in (None, np.ones(n), b):
                    start = None if x0 is None else x0.copy()
                    x = solve_cg(deflate, lambda x: A @ x, b, x0)
                    require(np.abs(A @ x - q).max() < 1e-4, 'cg', lambda: '{} {} from {}: {}'.format(A.tolist(), b.tolist(), x0, x))
                    require(np.abs(kernel.T @ x).max() < 1e-6 if kernel.size else True, 'cg constraint', lambda: '{} {}: {}'.format(A.tolist(), b.tolist(), x))
                    require(x0 is None or np.array_equal(start, x0), 'modifies its arguments')
                    require(x is not x0, 'aliases its arguments')
                    rec.step()
                rec.outcome('deflated' if kernel.size else 'positive definite')
                # some unknowns kept at zero
                if not kernel.size:
                    for fixed in [[i] for i in range(n)] + [[0, i] for i in range(1, n)]:
                        free = [i for i in range(n) if i not in fixed]

                        def clamp(x):
                            x[fixed] = 0
                        x = solve_cg(clamp, lambda x: A @ x, b)
                        require(np.abs(x[fixed]).max() == 0, 'cg clamped', lambda: str(x))
                        if free:
                            require(np.abs(A[np.ix_(free, free)] @ x[free] - b[free]).max() < 1e-4, 'cg clamped', lambda: '{} {} {}: {}'.format(A.tolist(), b.tolist(), fixed, x))
                            rec.outcome('clamped')
                        rec.step()
            require(np.array_equal(keep[0], A) and np.array_equal(keep[1], b), 'modifies its arguments')
            rec.trace()


UNITS = (1e-8, 1, 1e8)


def cases_units(tier):
    for n, values in [(1, (-2, -1, 1, 2)), (2, (-2, -1, 0, 1, 2)), (3, (-1, 0, 2) if tier == 'quick' else (-1, 0, 1, 2))]:
        chunks = 1 if n < 3 else 32
        for k in range(chunks):
            yield [n, list(values), k, chunks]


def check_units(case, rec):
    """a system in other units has the same solution, in other units"""
    n, values, chunk, chunks = case
    for number, M in enumerate(symmetric(n, values)):
        if number % chunks != chunk:
            continue
        w, v = np.linalg.eigh(M)
        rank = np.abs(w) > 1e-9
        P = v[:, rank] @ v[:, rank].T
        kernel = v[:, ~rank]
        if not rank.any():
            continue

        def deflate(x):
            if kernel.size:
                x -= kernel @ (kernel.T @ x)
        for t in UNITS:
            A = M * t
            for s in UNITS:
                rec.state(M.tolist(), t, s)
                for b in sides(n):
                    q = (P @ b if kernel.size else b) * s
                    if np.abs(q).max() < 1e-9 * s:
                        continue
                    for x0 in (None, b * s / t):
                        tol = 1e-4 * (s + (0 if x0 is None else np.abs(A @ x0).max()))
                        if w.min() > -1e-9:
                            x = solve_cg(deflate, lambda x: A @ x, b * s, x0)
                            require(np.abs(A @ x - q).max() < tol, 'cg in other units', lambda: '{} {} from {}: {}'.format(A.tolist(), (b * s).tolist(), x0, x))
                            require(np.abs(kernel.T @ x).max() < 1e-6 * (1e-300 + np.abs(x).max() + s / t) if kernel.size else True, 'cg constraint', lambda: str(x))
                            rec.outcome('positive')
                            rec.step()
                    x = solve_minres(A, q)
                    require(np.abs(A @ x - q).max() < 1e-4 * s, 'minres in other units', lambda: '{} {}: {}'.format(A.tolist(), q.tolist(), x))
                    if np.abs(w + 1.5).min() > 0.05:
                        x = solve_minres(A, b * s, shift=-1.5 * t)
                        require(np.abs(A @ x + 1.5 * t * x - b * s).max() < 2e-4 * s, 'minres with a shift in other units', lambda: '{} {}: {}'.format(A.tolist(), q.tolist(), x))
                    rec.step(2)
                    rec.outcome('any sign')
                rec.trace()


def cases_large(tier):
    """laplacians of paths and grids, which take many iterations"""
    for n in range(2, 14 if tier == 'quick' else 40):
        yield [[n]]
    for n in (60, 110, 250) + (() if tier == 'quick' else (501,)):
        yield [[n]]         # more than 50 iterations, after which the residual is computed anew
    for shape in itertools.combinations_with_replacement(range(2, 9 if tier == 'quick' else 14), 2):
        yield [list(shape)]


def check_large(case, rec):
    shape = tuple(case[0])
    rec.state(shape)
    L = np.zeros((1, 1))
    for n in shape:
        D = np.diff(np.eye(n), axis=0)
        L = np.kron(L, np.eye(n)) + np.kron(np.eye(len(L)), D.T @ D)
    n = len(L)
    sides = np.eye(n) if n < 60 or len(shape) > 1 else [np.eye(n)[0], np.eye(n)[n // 3] + 1, np.eye(n)[-1] - 2, np.cos(np.arange(n) ** 1.3) + 1]
    for b in sides:
        def deflate(x):
            x -= x.mean()
        q = b - b.mean()
        tol = 1e-4 * (1 + np.linalg.norm(b))
        count = []
        x = solve_cg(deflate, lambda x: count.append(0) or L @ x, b)
        if len(count) > 60:
            rec.outcome('restarted')
        require(np.abs(L @ x - q).max() < tol and abs(x.mean()) < 1e-6, 'cg', lambda: 'laplacian of {}: {}'.format(shape, np.abs(L @ x - q).max()))
        # n-d arrays do just as well
        y = solve_cg(deflate, lambda x: (L @ x.ravel()).reshape(shape), b.reshape(shape))
        require(y.shape == shape and np.abs(y.ravel() - x).max() < 1e-9 * (1 + np.abs(x).max()), 'cg of an array')
        x = solve_minres(L, q, tol=1e-9)
        require(np.abs(L @ x - q).max() < 1e-5, 'minres', lambda: 'laplacian of {}: {}'.format(shape, np.abs(L @ x - q).max()))
        A = L + np.eye(n) / 10
        x = solve_cg(lambda x: None, lambda x: A @ x, b)
        require(np.abs(A @ x - b).max() < tol, 'cg', lambda: 'shifted laplacian of {}: {}'.format(shape, np.abs(A @ x - b).max()))
        rec.step(4)
        rec.trace(3)
    rec.outcome('{} unknowns'.format('over 50' if n > 50 else 'few'))


SPACES = [
    Space('transfers', cases_transfers, check_transfers, 'every cubical catalogue complex of dimension <=3 (4) and up to 8/6/2 (14/12/4) cells, over 1-3 levels', chunk=2, expect=['1d', '2d', '3d', 'open', 'closed']),
    Space('solvers', cases_solvers, check_solvers, 'all symmetric matrices up to 3x3 with entries -2..2 (3x3: -1..2; thorough: -3..3, 3x3: -2..2), right hand sides of -1, 0, 1, guesses, kernels and clamped unknowns', chunk=1, expect=['indefinite', 'deflated', 'positive definite', 'clamped']),
    Space('units', cases_units, check_units, 'the same for matrices up to 2x2 with entries -2..2 and 3x3 with entries -1, 0, 2 (thorough: -1..2), matrix and right hand side in units of 1e-8, 1 and 1e8', chunk=1, expect=['positive', 'any sign']),
    Space('large', cases_large, check_large, 'unit right hand sides for laplacians of paths up to 13 (39), several for paths of 60, 110, 250 (501), and grids up to 8x8 (13x13)', chunk=1, expect=['over 50 unknowns', 'restarted']),
]
