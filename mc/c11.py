"""C11: locating points in regular complexes, and sampling forms at them"""
import itertools

import numpy as np

from mc import gen, large, scales, topo
from mc.harness import Space, require
from pycomplex.complex.cubical import ComplexCubical
from pycomplex.topology.cubical import TopologyCubical

PROPERTY = 'C11'
ASSUMPTIONS = ['queries are compared with exhaustive search over all cubes and all parts of cubes around a vertex, to 1e-9', 'averages over dual elements are those of C05']
SPACINGS = [[0, 1, 2, 3, 4], [0, 1, 3, 3.5, 7], [-10, 2, 2.25, 9, 9.5], [0, 1e-3, 2e-3, 3e-3, 4e-3]]


def symmetries(n):
    """all corner orders of an n-cube, as permutations of its 2^n corners, and whether they reverse it"""
    shape = (2,) * n
    base = np.arange(2 ** n).reshape(shape)
    for p in itertools.permutations(range(n)):
        odd = sum(p[i] > p[j] for i in range(n) for j in range(i + 1, n)) % 2
        for f in itertools.product((0, 1), repeat=n):
            b = base.transpose(p)
            for axis, flip in enumerate(f):
                if flip:
                    b = np.flip(b, axis)
            yield b.ravel().tolist(), (odd + sum(f)) % 2


def build(cells, V, dim, given=lambda x: x):
    t = TopologyCubical.from_cubes(given(np.array(cells).reshape((-1,) + (2,) * dim)))
    base = ComplexCubical(vertices=V, topology=t)
    return {1: lambda: base.as_11().as_regular(), 2: lambda: base.as_22().as_regular(), 3: lambda: base.as_33().as_regular(), 4: lambda: base.as_44().as_regular()}[dim]()


def grid(shape, spacing, sub, order):
    """cells, positions of part of a tensor grid"""
    cells = gen.grid_cubes(shape)
    dim = len(shape)
    syms = list(symmetries(dim))
    corners = list(itertools.product(*[range(s + 1) for s in shape]))
    chosen = [cells[i] for i in sub]
    even = [s for s, odd in syms if not odd]
    if isinstance(order, int):
        chosen = [[c[i] for i in syms[order][0]] for c in chosen]
    elif order == 'mixed':
        # every cube listed from another corner, all oriented alike
        chosen = [[c[i] for i in even[(3 * k + 1) % len(even)]] for k, c in enumerate(chosen)]
    used = sorted({v for c in chosen for v in c})
    if order == 'mixed':
        used = used[::-1]
    m = {v: i for i, v in enumerate(used)}
    V = np.array([[SPACINGS[(spacing + a) % 3 if spacing < 3 else 3][corners[v][a]] for a in range(dim)] for v in used], dtype=float)
    if spacing == 4:
        # no two axes alike, uniform
        V = np.array([[corners[v][a] * (a + 1.) for a in range(dim)] for v in used])
    return [[m[v] for v in c] for c in chosen], V


def check_case(case, rec):
    shape, spacing, sub, order = case
    dim = len(shape)
    cells, V = grid(shape, spacing, sub, order)
    c = build(cells, V, dim)
    rec.state(shape, spacing, sub, order)
    judge_complex(c, cells, V, len(sub) == int(np.prod(shape)), spacing in (3, 4), rec)


def judge_complex(c, cells, V, full, uniform, rec):
    dim = V.shape[1]
    t = c.topology
    span = V.max(axis=0) - V.min(axis=0)
    tol = 1e-9 * (1 + np.abs(V).max())

    # queries: a lattice finer than the cells, also outside; and all corners and midpoints
    axes = []
    for a in range(dim):
        x = np.unique(V[:, a])
        q = [x[0] - span[a], x[0] - 0.01 * span[a], x[-1] + 0.01 * span[a], x[-1] + 0.7 * span[a]] if dim < 4 else [x[0] - 0.1 * span[a]]
        for f in (0, 0.1, 0.49, 0.5, 0.51, 0.93) if dim < 3 else (0, 0.3, 0.5, 0.9) if dim < 4 else (0.3, 0.9):
            q += list(x[:-1] + f * (x[1:] - x[:-1]))
        axes.append(sorted(q + [x[-1]]))
    P = np.array(list(itertools.product(*axes)))
    keepP = P.copy()

    # own cells and own parts of cells
    lo = np.array([V[x].min(axis=0) for x in cells])
    hi = np.array([V[x].max(axis=0) for x in cells])
    inside = ((P[:, None] >= lo[None] - tol) & (P[:, None] <= hi[None] + tol)).all(axis=-1)
    some = inside.any(axis=1)
    rec.outcome('inside', int(some.sum()))
    rec.outcome('outside', int((~some).sum()))
    rec.trace(len(P))
    T = np.asarray(t.elements[-1]).reshape(len(cells), -1)
    require(np.array_equal(T, np.array(cells)), 'cells')
    C = np.array(list(itertools.product((0, 1), repeat=dim)))

    def position(cube, bary):
        """multilinear map from the corners of a cube"""
        w = np.prod(np.where(C[None] == 1, bary[:, None, :], 1 - bary[:, None, :]), axis=-1)
        return np.einsum('pc,pcd->pd', w, V[T[cube]])

    def judge(cube, bary, what):
        require(cube.shape == (len(P),) and bary.shape == (len(P), dim), what + ' shape')
        bad = some & ~inside[np.arange(len(P)), cube]
        require(not bad.any(), what + ' wrong cube', lambda: '{} of {}: {} not in {} but in {}'.format(bad.sum(), len(P), P[bad][0], cube[bad][0], np.flatnonzero(inside[bad][0])))
        bad = np.abs(position(cube, bary) - P).max(axis=1) > 100 * tol
        require(not bad.any(), what + ' barycentric', lambda: '{}: {} of cube {}'.format(P[bad][0], bary[bad][0], cells[cube[bad][0]]))
        ok = some & ((bary < -1e-9).any(axis=1) | (bary > 1 + 1e-9).any(axis=1))
        require(not ok.any(), what + ' barycentric range')

    rec.step(3)
    cube, bary = c.pick_primal(P)
    judge(cube, bary, 'pick_primal')
    for h in (list(range(min(len(cells), 6))) + [None]):
        hint = np.full(len(P), h) if h is not None else (np.arange(len(P)) * 7 + 3) % len(cells)
        keep = hint.copy()
        i2, b2 = c.pick_primal(P, cube=hint)
        require(np.array_equal(keep, hint), 'pick_primal changes its hint')
        judge(i2, b2, 'pick_primal hint')
        strictly = ((P > lo[hint] + tol) & (P < hi[hint] - tol)).all(axis=1)
        require(np.array_equal(i2[strictly], hint[strictly]), 'pick_primal hint not honoured')
        rec.step()
    # a hint that needs no update at all
    i2, b2 = c.pick_primal(P[some], cube=cube[some])
    require(np.array_equal(i2, cube[some]) and np.allclose(b2, bary[some]), 'pick_primal repeated')

    # parts of cubes: one per cube and corner
    every = np.asarray(t.cubical_domains()).reshape((-1,) + (2,) * dim)
    number = {tuple(d.ravel().tolist()): i for i, d in enumerate(every)}
    X = c.primal_position

    def parts(dom):
        """lower and upper corner of each part, and vertex and cube it belongs to"""
        d = dom.reshape(len(dom), -1)
        v, k = d[:, 0], d[:, -1]
        a, b = V[v], X[-1][k]
        return np.minimum(a, b), np.maximum(a, b), v, k

    def judge_part(dom, bary, what):
        require(dom.shape == (len(P),) + (2,) * dim and bary.shape == (len(P), dim), what + ' shape', lambda: '{} {}'.format(dom.shape, bary.shape))
        require(all(tuple(d.ravel().tolist()) in number for d in dom), what + ' domain', 'not a fundamental domain')
        l, h, v, k = parts(dom)
        bad = some & ~((P >= l - tol) & (P <= h + tol)).all(axis=1)
        require(not bad.any(), what + ' wrong domain', lambda: '{}: not in {}..{}'.format(P[bad][0], l[bad][0], h[bad][0]))
        # multilinear over the positions of the elements of the domain
        pos = np.zeros(P.shape)
        for corner in C:
            w = np.prod(np.where(corner[None] == 1, bary, 1 - bary), axis=1)
            pos += w[:, None] * X[corner.sum()][dom[(slice(None),) + tuple(corner)]]
        bad = np.abs(pos - P).max(axis=1) > 100 * tol
        require(not bad.any(), what + ' barycentric', lambda: '{}: {} in {}'.format(P[bad][0], bary[bad][0], dom[bad][0].tolist()))
        return l, h, v, k

    dom, db = c.pick_fundamental(P)
    l, h, v, k = judge_part(dom, db, 'pick_fundamental')
    own = np.array([number[tuple(d.ravel().tolist())] for d in dom])
    for hint in (np.zeros(len(P), dtype=int), own, (np.arange(len(P)) * 5 + 1) % len(every)):
        keep = hint.copy()
        judge_part(*c.pick_fundamental(P, domain_idx=hint), what='pick_fundamental hint')
        require(np.array_equal(keep, hint), 'pick_fundamental changes its hint')
        rec.step()
    # dual cells: those parts of the cubes around a vertex
    d = c.pick_dual(P)
    al, ah, av, ak = parts(every)
    within = ((P[:, None] >= al[None] - tol) & (P[:, None] <= ah[None] + tol)).all(axis=-1)
    bad = some & ~(within & (av[None] == d[:, None])).any(axis=1)
    require(not bad.any(), 'pick_dual', lambda: '{} not in the dual cell of {}'.format(P[bad][0], V[d[bad][0]]))
    require(np.array_equal(P, keepP), 'points changed')
    rec.step()

    # sampling of primal forms: multilinear functions are exact, and constant beyond the grid
    A = np.clip(P, V.min(axis=0), V.max(axis=0)) if full else P
    judged = np.ones(len(P), dtype=bool) if full else some
    for axes_used in itertools.chain.from_iterable(itertools.combinations(range(dim), r) for r in range(dim + 1)):
        def f(p):
            return np.prod((p[:, list(axes_used)] / span[list(axes_used)]) + 0.3, axis=1) if axes_used else np.ones(len(p))
        s = c.sample_primal_0(f(V), P)
        scale = 1 + np.abs(f(V)).max()
        bad = judged & (np.abs(s - f(A)) > 1e-9 * scale)
        require(not bad.any(), 'sample_primal_0', lambda: '{}: {} not {}'.format(P[bad][0], s[bad][0], f(A)[bad][0]))
    two = np.stack([f(V), 2 * f(V) - 1], axis=1)
    s2 = c.sample_primal_0(two, P)
    require(s2.shape == (len(P), 2) and np.allclose(s2[:, 1], 2 * s2[:, 0] - 1), 'sample_primal_0 trailing dimensions')
    rec.step(3)

    # sampling of dual forms against our own interpolation
    forms_of = [np.asarray(a.todense()) for a in t.dual.averaging_operators_0][::-1]
    n0 = t.dual.n_elements[0]
    DP = c.dual_position[0]
    # our own parts around each point and their coordinates
    first = within.argmax(axis=1)
    for seed in range(2 + dim):
        if seed == 0:
            d0 = np.ones(n0)
        elif seed == 1:
            d0 = np.cos(np.arange(n0) * 1.7 + 1)
        else:
            d0 = DP[:, seed - 2].copy()
        keep0 = d0.copy()
        s = c.sample_dual_0(d0, P)
        require(np.array_equal(keep0, d0), 'form changed')
        forms = [f @ d0 for f in forms_of]
        total = np.zeros(len(P))
        a = V[av[first]]
        b = X[-1][ak[first]]
        dom0 = every[first]
        for corner in C:
            e = dom0[(slice(None),) + tuple(corner)]
            x = X[corner.sum()][e]
            # weight: along every axis, the element sits either at the vertex or at the centre
            at_centre = np.abs(x - b) < np.abs(x - a)
            r = (P - a) / (b - a)
            w = np.prod(np.where(at_centre, r, 1 - r), axis=1)
            total += w * forms[corner.sum()][e]
        scale = 1 + np.abs(d0).max()
        bad = some & (np.abs(s - total) > 1e-9 * scale)
        require(not bad.any(), 'sample_dual_0', lambda: '{}: {} not {}'.format(P[bad][0], s[bad][0], total[bad][0]))
        require(s.min() >= d0.min() - 1e-9 * scale and s.max() <= d0.max() + 1e-9 * scale, 'sample_dual_0 extrapolates')
        at = c.sample_dual_0(d0, X[-1])
        require(np.allclose(at, d0[:t.n_elements[-1]], atol=1e-9 * scale), 'sample_dual_0 at dual vertices')
        if seed >= 2 and uniform and full:
            # linear forms are exact away from the boundary of a uniform grid
            middle = ((P >= X[-1].min(axis=0) - tol) & (P <= X[-1].max(axis=0) + tol)).all(axis=1)
            require(np.allclose(s[middle], P[middle][:, seed - 2], atol=1e-9 * scale), 'sample_dual_0 linear')
            rec.outcome('linear', int(middle.sum()))
        rec.step(2)
    three = np.stack([d0, d0 * 2, d0 - 1], axis=1).reshape(n0, 3, 1)
    s3 = c.sample_dual_0(three, P)
    require(s3.shape == (len(P), 3, 1) and np.allclose(s3[:, 1, 0], 2 * s3[:, 0, 0]) and np.allclose(s3[:, 0, 0], s), 'sample_dual_0 trailing dimensions')
    # no point depends on which others are asked for, if any
    for k in (None, 0, len(P) // 3, 2 * len(P) // 3, len(P) - 1):
        one = P[:0] if k is None else P[k:k + 1]
        n = len(one)
        i1, b1 = c.pick_primal(one)
        f1, fb1 = c.pick_fundamental(one)
        d1 = c.pick_dual(one)
        require(i1.shape == d1.shape == (n,) and b1.shape == fb1.shape == (n, dim) and f1.shape == (n,) + (2,) * dim, 'alone shape', lambda: '{} points'.format(n))
        p1, q1 = c.sample_primal_0(two, one), c.sample_dual_0(three, one)
        require(p1.shape == (n, 2) and q1.shape == (n, 3, 1), 'alone shape', lambda: 'sampled at {} points'.format(n))
        if n and some[k]:
            require(np.allclose(p1[0], s2[k]) and np.allclose(q1[0], s3[k]), 'alone', lambda: 'sample at {} depends on the other points'.format(P[k]))
        rec.step(5)
    if len(cells) > 1:
        rec.outcome('several')


def operations(c):
    t = c.topology
    n, dim = t.n_elements[-1], c.n_dim
    out = []
    if n * 2 ** dim <= 32:
        out.append(('refine', lambda: c.subdivide_cubical()))
    if n > 1:
        out.append(('tail', lambda: c.select_subset(np.arange(n) > 0)))
        out.append(('alternate', lambda: c.select_subset(np.arange(n) % 2 == 0)))
    out.append(('stretch', lambda: c.scale(np.array([1, 1.5, .75, 2][:dim]))))
    out.append(('shift', lambda: c.translate(np.array([.5, -2, 3, 1][:dim]))))
    out.append(('mirror', lambda: c.transform(np.diag([-1.] + [1] * (dim - 1)))))
    if dim > 1:
        out.append(('turn', lambda: c.transform(np.roll(np.eye(dim), 1, axis=0) * np.array([-1] + [1] * (dim - 1)))))
    if dim < 3 and n <= 8:
        line = ComplexCubical(vertices=np.array([[0.], [1.], [1.5]]), cubes=np.array([[0, 1], [1, 2]]))
        out.append(('product', lambda: getattr(c.product(line), 'as_{0}{0}'.format(dim + 1))().as_regular()))
    return out


def check_history(case, rec):
    shape, spacing, sub, order, first, depth = case
    cells, V = grid(shape, spacing, sub, order)

    def walk(c, left, path):
        options = operations(c)
        if not path:
            options = options[first:first + 1]
        for name, act in options:
            d = act()
            rec.step()
            here = path + [name]
            rec.state(shape, spacing, sub, order, here)
            rec.outcome(name)
            T = np.asarray(d.topology.elements[-1])
            try:
                judge_complex(d, T.reshape(len(T), -1).tolist(), np.asarray(d.vertices), False, False, rec)
            except Exception as e:
                e.args = ('after {}: {}'.format('.'.join(here), e.args[0] if e.args else ''),) + e.args[1:]
                raise
            if left > 1:
                walk(d, left - 1, here)
    walk(build(cells, V, V.shape[1]), depth, [])


def cases_history(tier):
    starts = [((2,), 0, (0, 1), 'mixed'), ((2, 1), 4, (0, 1), 'mixed'), ((2, 2), 1, (0, 1, 3), 0), ((1, 1, 1), 2, (0,), 5), ((2, 1, 1), 4, (0, 1), 'mixed')]
    for shape, spacing, sub, order in starts:
        cells, V = grid(shape, spacing, sub, order)
        for first in range(len(operations(build(cells, V, V.shape[1])))):
            yield [list(shape), spacing, list(sub), order, first, 3 if tier == 'quick' else 4]


def cases(tier):
    big = tier != 'quick'
    shapes = [(1,), (2,), (3,), (4,), (1, 1), (2, 1), (2, 2), (2, 3), (1, 1, 1), (2, 1, 1), (1, 1, 1, 1)]
    if big:
        shapes += [(3, 2), (3, 3), (4, 2), (2, 2, 1), (2, 2, 2), (2, 1, 1, 1)]
    for shape in shapes:
        n = int(np.prod(shape))
        dim = len(shape)
        subsets = [s for r in range(1, n + 1) for s in itertools.combinations(range(n), r)] if n <= (6 if big else 4) else [tuple(range(n))] + [s for s in itertools.combinations(range(n), 2)]
        orders = list(range(len(list(symmetries(dim))))) + ['mixed'] if dim < 4 else [0, 5, 'mixed']
        for sub in subsets:
            whole = len(sub) == n
            for spacing in range(5):
                for order in orders if whole and (dim < 3 or spacing in (1, 4)) else [0, 'mixed']:
                    if dim == 3 and not big and isinstance(order, int) and order % 5:
                        continue
                    yield [list(shape), spacing, list(sub), order]


SPACES = [
    Space('units', *scales.space(['regular'], scales.pick), 'locations and samples of regular grids, each in seven units from 2^-40 to 2^40', chunk=1, expect=['scaled']),
    Space('arrays', *scales.arrays_space(['regular'], scales.pick), 'locations and samples of the same meshes with whole coordinates, made and asked with the same numbers in arrays of 6 layouts and 8 types of integer', chunk=1, expect=['same']),
    Space('grids', cases, check_case, 'all sets of cubes of small tensor grids in 1-4 d, five spacings, all corner orders; queries on a finer lattice, inside and outside', expect=['inside', 'outside', 'linear', 'several'], chunk=2),
    Space('histories', cases_history, check_history, 'every sequence of 3 (4) refinements, subsets, stretches, shifts, mirror images, turns and products of five regular complexes of 1-3 d', chunk=1, expect=['refine', 'tail', 'alternate', 'stretch', 'shift', 'mirror', 'turn', 'product', 'inside']),
    Space('large', large.cases('quads', 'hex'), large.check_pick, '40 to 16500 copies of two small complexes: more than 2^15 vertices', chunk=1, expect=['large']),
]
