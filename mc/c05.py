"""C05: derived incidence: averaging operators, degrees, connectivity, manifoldness, components and subsets"""
import itertools

import numpy as np

from mc import gen, large, ref, topo
from mc.c02 import oriented
from mc.harness import Space, require
from pycomplex.topology import ManifoldException

PROPERTY = 'C05'
ASSUMPTIONS = ['floating point averages compared with rational ones to 1e-6']


def elements(m, t):
    """vertex sets of the elements of a topology, by dimension"""
    return [[frozenset(c) for c in m.cells(np.asarray(e))] for e in t.elements]


def uniform(rows, n):
    """averaging matrix of a list of index sets"""
    A = np.zeros((len(rows), n))
    for i, r in enumerate(rows):
        for j in r:
            A[i, j] = 1.0 / len(r)
    return A


def support(rows, n):
    A = np.zeros((len(rows), n), dtype=int)
    for i, r in enumerate(rows):
        A[i, list(r)] = 1
    return A


def close(a, b, tag, message):
    a = np.asarray(a.todense(), dtype=float)
    require(a.shape == b.shape, tag, lambda: '{}: shape {} expected {}'.format(message, a.shape, b.shape))
    require(np.abs(a - b).max(initial=0) < 1e-6, tag, message)


def judge_operators(t, low, high, rec, what):
    """low[k][i]: set of 0-elements of the i-th k-element;  high[k][i]: set of N-elements that contain it"""
    N = t.n_dim
    n0, nN = len(low[0]), len(low[N])
    A0, AN = t.averaging_operators_0, t.averaging_operators_N
    C0, CN = t.accumulated_operators_0(), t.accumulated_operators_N()
    deg = t.degree
    rec.step(5)
    require(len(A0) == len(AN) == len(C0) == len(CN) == len(deg) == N + 1, what + '_length', 'wrong number of operators')
    for k in range(N + 1):
        close(A0[k], uniform(low[k], n0), what + '_averaging_0', 'average over 0-elements of {}-elements ({})'.format(k, what))
        close(AN[k], uniform(high[k], nN), what + '_averaging_N', 'average over N-elements of {}-elements ({})'.format(k, what))
        require(((np.asarray(C0[k].todense()) != 0) == support(low[k], n0).T).all(), what + '_accumulated_0', 'incidence of 0- and {}-elements'.format(k))
        require(((np.asarray(CN[k].todense()) != 0) == support(high[k], nN).T).all(), what + '_accumulated_N', 'incidence of N- and {}-elements'.format(k))
        require(np.array_equal(np.asarray(deg[k]).reshape(-1), [len(h) for h in high[k]]), what + '_degree', lambda: 'degree of {}-elements is {} expected {}'.format(k, deg[k], [len(h) for h in high[k]]))
    rec.trace()


def check_operators(case, rec):
    kind, cells = case
    t = topo.build(kind, cells)
    m = topo.model(kind, cells)
    N = m.n_dim
    rec.state(kind, cells)
    els = elements(m, t)

    def contained(a, i, b):
        return [j for j, e in enumerate(els[b]) if e <= els[a][i]]

    def containing(a, i, b):
        return [j for j, e in enumerate(els[b]) if els[a][i] <= e]
    # incidence between elements of cells glued along more than a common face is not determined by vertex sets alone
    if any(len(s) != len(set(s)) for s in els):
        return
    low = [[contained(k, i, 0) for i in range(len(els[k]))] for k in range(N + 1)]
    high = [[containing(k, i, N) for i in range(len(els[k]))] for k in range(N + 1)]
    judge_operators(t, low, high, rec, 'primal')
    # dual
    o = ref.orientation_model(m)
    if not (o.get('orientable') and o['consistent']):
        return
    try:
        d = t.dual
    except ValueError:
        rec.outcome('no dual')
        return
    b = t.boundary
    bels = [[]] * N + [[]]
    if b is not None:
        idx = [np.asarray(i) for i in b.parent_idx]
        bels = [[els[k][i] for i in idx[k]] for k in range(N)] + [[]]
        rec.outcome('open')
    else:
        rec.outcome('closed')
    # dual elements of dimension k: (primal element of dimension N-k, False) then (boundary element of dimension N-1-k, True)
    D = [[(e, False) for e in els[N - k]] + ([(e, True) for e in bels[N - 1 - k]] if k < N else []) for k in range(N + 1)]

    def below(x, y):
        """is the dual element x part of the closure of y"""
        (ex, bx), (ey, by) = x, y
        return ey <= ex and (bx or not by)
    low = [[[j for j, x in enumerate(D[0]) if below(x, y)] for y in D[k]] for k in range(N + 1)]
    high = [[[j for j, x in enumerate(D[N]) if below(y, x)] for y in D[k]] for k in range(N + 1)]
    judge_operators(d, low, high, rec, 'dual')


def judge_graph(t, m, rec):
    n, labels = t.label_connections()
    dsu = ref.face_components(m)
    groups = sorted(sorted(g) for g in dsu.groups())
    rec.step(4)
    labels = [int(x) for x in np.asarray(labels)]
    got = {}
    for i, l in enumerate(labels):
        got.setdefault(l, []).append(i)
    require(sorted(got.values()) == groups, 'label_connections', lambda: 'components {} expected {}'.format(sorted(got.values()), groups))
    require(n == len(groups) and sorted(got) == list(range(n)), 'n_components', 'number of components or labels')
    require(bool(t.is_connected) == (len(groups) == 1), 'is_connected', 'is_connected')
    stars = ref.star_components(m)
    regions = [int(r) for r in t.regions_per_vertex]
    require(regions == [stars[v] for v in range(len(stars))], 'regions_per_vertex', lambda: 'regions {} expected {}'.format(regions, stars))
    manifold = all(r == 1 for r in stars.values())
    require(bool(t.is_manifold) == manifold, 'is_manifold', lambda: 'is_manifold is {}'.format(t.is_manifold))
    try:
        t.check_manifold()
        ok = True
    except ManifoldException:
        ok = False
    require(ok == manifold, 'check_manifold', 'check_manifold')
    rec.outcome('manifold' if manifold else 'not manifold')
    rec.outcome('connected' if len(groups) == 1 else 'disconnected')
    rec.trace()
    return groups


def judge_subset(t, s, m, chosen):
    """s must be the sub complex of t that consists of the chosen cells"""
    N = m.n_dim
    require(type(s) is type(t), 'subset_type', lambda: 'a subset of a {} is a {}'.format(type(t).__name__, type(s).__name__))
    require(s.parent is t, 'subset_parent', 'a subset does not refer to its parent')
    sm = topo.model_of(s)
    require(s.n_elements[-1] == len(chosen), 'subset_count', 'wrong number of cells')
    topo.check_lattice(s, sm)
    pe = [m.cells(np.asarray(e)) for e in t.elements]
    se = [m.cells(np.asarray(e)) for e in s.elements]
    idx = [np.asarray(i).tolist() for i in s.parent_idx]
    require(len(idx) == N + 1, 'subset_parent_idx', 'parent_idx has the wrong length')
    require(idx[N] == list(chosen), 'subset_cells', lambda: 'subset has cells {} expected {}'.format(idx[N], chosen))
    for k in range(N + 1):
        require(len(idx[k]) == len(se[k]) == len(set(idx[k])), 'subset_one_to_one', 'parent_idx is not one to one')
        for i, c in zip(idx[k], se[k]):
            mapped = tuple(idx[0][v] for v in c)
            require(frozenset(mapped) == frozenset(pe[k][i]), 'subset_idx', lambda: '{}-element {} refers to {}'.format(k, mapped, pe[k][i]))
            if k == N:
                require(mapped == pe[k][i], 'subset_orientation', 'a cell of a subset changed its vertices or their order')


def check_graph(case, rec):
    kind, cells = case
    t = topo.build(kind, cells)
    m = topo.model(kind, cells)
    rec.state(kind, cells)
    groups = judge_graph(t, m, rec)
    parts = t.split_connected_components()
    rec.step()
    require(len(parts) == len(groups), 'split_count', 'wrong number of components')
    sizes = [p.n_elements[-1] for p in parts]
    require(sizes == sorted(sizes, reverse=True), 'split_order', lambda: 'components are not sorted by size: {}'.format(sizes))
    seen = []
    for p in parts:
        g = [int(i) for i in p.parent_idx[-1]]
        seen.append(sorted(g))
        judge_subset(t, p, m, sorted(g))
        require(bool(p.is_connected), 'split_connected', 'a component is not connected')
    require(sorted(seen) == groups, 'split_partition', lambda: 'components {} expected {}'.format(sorted(seen), groups))
    rec.trace()


def check_subset(case, rec):
    kind, cells, most = case
    t = topo.build(kind, cells)
    m = topo.model(kind, cells)
    n = len(cells)
    for r in range(1, n + 1):
        if r > most and r < n - most:
            continue
        for chosen in itertools.combinations(range(n), r):
            rec.state(kind, cells, chosen)
            mask = np.zeros(n, dtype=bool)
            mask[list(chosen)] = True
            for chain in (mask, mask.astype(np.int8), mask.tolist(), t.chain(-1, fill=np.array(chosen))):
                s = t.select_subset(chain)
                rec.step()
                judge_subset(t, s, m, list(chosen))
            judge_graph(s, topo.model_of(s), rec)
            # subset of a subset
            for j in range(len(chosen)):
                mm = np.ones(len(chosen), dtype=bool)
                mm[j] = False
                if mm.any():
                    u = s.select_subset(mm)
                    rec.step()
                    judge_subset(s, u, topo.model_of(s), [i for i in range(len(chosen)) if i != j])
            rec.trace()
    for wrong in range(0, n + 3):
        if wrong != n:
            rec.step()
            try:
                t.select_subset(np.ones(wrong, dtype=bool))
            except ValueError:
                rec.outcome('wrong length refused')
            else:
                require(False, 'wrong_length', 'a chain of length {} was accepted for {} cells'.format(wrong, n))


def check_chains(case, rec):
    kind, cells = case
    t = topo.build(kind, cells)
    N = t.n_dim
    for k in list(range(N + 1)) + [-1]:
        n = t.n_elements[k]
        rec.state(kind, cells, k)
        for fill in (0, 1, -1):
            c = t.chain(k, fill=fill)
            require(c.shape == (n,) and c.dtype == np.int8 and (c == fill).all(), 'chain', 'chain filled with {}'.format(fill))
            rec.step()
        if n <= 4:
            subsets = [s for r in range(n + 1) for s in itertools.combinations(range(n), r)]
        else:
            subsets = [s for r in range(3) for s in itertools.combinations(range(n), r)]
        for s in subsets:
            c = t.chain(k, fill=np.array(s, dtype=int))
            rec.step()
            require(c.tolist() == [1 if i in s else 0 for i in range(n)], 'chain_indices', 'chain of elements {}'.format(s))
        f = t.form(k, fill=0.5)
        require(f.shape == (n,) and f.dtype.kind == 'f' and (f == 0.5).all(), 'form', 'form')
        require(t.range(k).tolist() == list(range(n)), 'range', 'range')
        require(t.chain(k, fill=300, dtype=np.int32).tolist() == [300] * n, 'chain_dtype', 'chain of another type')
        rec.step(3)
        rec.trace()


def check_fan(case, rec):
    """many cells around one vertex: nothing may overflow"""
    kind, n, closed = case
    if kind == 's1':
        cells, kind = [[0, i + 1] for i in range(n)], 's'
        # n edges in one vertex is not a pseudo-manifold curve, but a star graph is still a complex
    elif kind == 's2':
        cells, kind = [[0, i + 1, (i + 1) % n + 1 if closed else i + 2] for i in range(n)], 's'
    elif kind == 's3':
        # suspension: n tets around a common edge
        cells, kind = [[0, 1, i + 2, (i + 1) % n + 2 if closed else i + 3] for i in range(n)], 's'
    else:
        # quads around a vertex: centre, rim vertices 2i+1, corners 2i+2
        cells, kind = [], 'c'
        for i in range(n):
            a, b, c = 2 * i + 1, 2 * i + 2, (2 * i + 3 if not (closed and i == n - 1) else 1)
            cells.append([0, a, c, b])
    t = topo.build(kind, cells)
    rec.state(case)
    N = t.n_dim
    deg = [np.asarray(d).reshape(-1) for d in t.degree]
    rec.step()
    m = topo.model(kind, cells)
    top = [frozenset(c) for c in m.top]
    els = elements(m, t)
    for k in range(N + 1):
        want = [sum(1 for c in top if e <= c) for e in els[k]]
        require(deg[k].tolist() == want, 'degree', lambda: 'degree of {}-elements: {} expected {}'.format(k, sorted(deg[k].tolist())[-3:], sorted(want)[-3:]))
    A = t.averaging_operators_N
    rec.step()
    for k in range(N + 1):
        require(np.allclose(np.asarray(A[k].sum(axis=1)).reshape(-1), 1, atol=1e-4), 'averaging_sum', 'averages do not sum to one')
    judge_graph(t, m, rec)
    rec.outcome('closed' if closed else 'open')
    rec.trace()


def cases_operators(tier):
    for kind, cells in gen.base_complexes(tier):
        if ref.orientation_model(topo.model(kind, cells))['orientable']:
            cells = oriented(kind, cells)
        yield [kind, cells]
    if tier != 'quick':
        for cells in gen.uniform_classes(5, 3) + gen.uniform_classes(5, 4):
            yield ['s', cells]
    # elements of so many dimensions that the number of paths to a corner passes that of a byte
    yield ['s', [list(range(7))]]
    yield ['s', [list(range(8))]]
    yield ['s', [list(range(7)), list(range(1, 8))]]
    if tier != 'quick':
        yield ['s', [list(range(9))]]


def cases_graph(tier):
    """arbitrary complexes, also not pseudo-manifold: every uniform complex up to isomorphism"""
    for n, size in [(4, 2), (5, 2), (5, 3), (5, 4), (6, 5)] + ([(6, 2), (6, 4)] if tier != 'quick' else []):
        for cells in gen.uniform_classes(n, size, max_cells=None if (n, size) != (6, 4) else 6):
            yield ['s', gen.compact(cells)]
    for kind, cells in gen.base_complexes(tier):
        yield [kind, cells]
    # disjoint unions in every order of size
    comps = [[[0, 1, 2]], [[0, 1, 2], [1, 3, 2]], gen.simplex_boundary(3)]
    for r in (2, 3):
        for c in itertools.product(comps, repeat=r):
            yield ['s', gen.disjoint(*c)]
            yield ['t', gen.disjoint(*c)]
    # interleaved cells of several components
    for perm in itertools.permutations(range(5)):
        cells = gen.disjoint([[0, 1, 2], [1, 3, 2], [2, 3, 4]], [[0, 1, 2], [1, 3, 2]])
        yield ['s', [cells[i] for i in perm]]


def cases_subset(tier):
    for kind, cells in gen.base_complexes(tier):
        if len(cells) <= (5 if tier == 'quick' else 8):
            yield [kind, cells, 99]
        elif len(cells) <= 14:
            yield [kind, cells, 1 if tier == 'quick' else 2]
    yield ['t', [[0, 1, 2], [1, 3, 2], [2, 3, 4]], 99]
    yield ['t', gen.simplex_boundary(3), 99]


def cases_chains(tier):
    for kind, cells in gen.base_complexes('quick'):
        if len(cells) <= 4:
            yield [kind, cells]


def cases_fan(tier):
    big = [2, 3, 4, 5, 8, 63, 64, 65, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300] if tier == 'quick' else list(range(3, 310))
    for kind in ('s1', 's2', 's3', 'c2'):
        for n in big:
            if n <= 129 or kind != 's3' or tier != 'quick':
                yield [kind, n, False]
            if n > 2 and kind != 's1' and (n <= 129 or kind != 's3' or tier != 'quick'):
                yield [kind, n, True]


SPACES = [
    Space('operators', cases_operators, check_operators, 'every catalogue complex and simplices of 6 and 7 (8) dimensions: averaging, accumulated incidence and degree, of the complex and of its dual', chunk=4, expect=['open', 'closed']),
    Space('graph', cases_graph, check_graph, 'every uniform complex on <=5 (6) vertices up to isomorphism and the catalogue: components, connectivity, manifoldness', chunk=16, expect=['manifold', 'not manifold', 'connected', 'disconnected']),
    Space('subset', cases_subset, check_subset, 'every non-empty subset of cells of complexes of <=5 (8) cells, singletons/co-singletons (pairs) up to 14 cells, subsets of subsets, and every wrong chain length', chunk=2, expect=['wrong length refused']),
    Space('chains', cases_chains, check_chains, 'chains and forms on complexes of <=4 cells', chunk=8),
    Space('fan', cases_fan, check_fan, 'fans of 2..300 cells around a vertex/edge', chunk=1, expect=['open', 'closed']),
    Space('large', large.cases('edges', 'fan', 'sphere', 'tets', 'quads', 'hex'), large.check_graph, '40 to 33000 copies of six small complexes: more than 2^15 elements of every kind', chunk=1, expect=['split', 'large']),
    Space('star', large.cases_star, large.check_star, '127 to 33000 (66000) triangles or quads around one vertex', chunk=1),
]
