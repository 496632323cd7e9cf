"""C02: orientation is decided and repaired exactly"""
import itertools

import numpy as np

from mc import gen, large, ref, topo
from mc.harness import Space, require

PROPERTY = 'C02'
ASSUMPTIONS = ['complexes are pseudo-manifolds: every codimension-1 face bounds at most two cells']


def judge(kind, cells, rec):
    m = topo.model(kind, cells)
    o = ref.orientation_model(m)
    assert o['pseudo']
    t = topo.build(kind, cells)
    rec.step(4)
    rec.state(kind, cells)
    # ---- is_oriented
    try:
        got = bool(t.is_oriented)
        raised = False
    except ValueError:
        raised = True
    if not o['orientable']:
        rec.outcome('non-orientable')
        require(raised or not got, 'oriented_nonorientable', 'a non-orientable complex is reported as oriented')
        for what in (t.fix_orientation, t.relative_parity):
            try:
                what()
            except ValueError:
                pass
            else:
                require(False, 'nonorientable_accepted', 'orienting a non-orientable complex did not raise ValueError')
        rec.trace()
        return
    require(not raised, 'orientable_rejected', 'an orientable complex is reported as non-orientable')
    rec.outcome('consistent' if o['consistent'] else 'inconsistent')
    if len(set(o['comp'].values())) > 1:
        rec.outcome('several components')
    require(got == o['consistent'], 'is_oriented', lambda: 'is_oriented is {} but the cells are {}consistently oriented'.format(got, '' if o['consistent'] else 'not '))
    # ---- relative_parity: equal within a component exactly where the orientation agrees
    p = np.asarray(t.relative_parity())
    require(p.shape == (len(cells),), 'parity_shape', lambda: 'parity has shape {} for {} cells'.format(p.shape, len(cells)))
    for a, b, s in o['edges']:
        require((bool(p[a]) == bool(p[b])) == (s == 1), 'parity', 'relative parity of two adjacent cells is wrong')
    # ---- fix_orientation
    before = np.array(t.elements[-1])
    f = t.fix_orientation()
    require(np.array_equal(before, t.elements[-1]), 'mutated', 'fix_orientation changed its input')
    fc = np.asarray(f.elements[-1]).reshape(len(f.elements[-1]), -1).tolist()
    require(len(fc) == len(cells), 'fix_count', 'fix_orientation changed the number of cells')
    fm = topo.model(kind, fc)
    for a, b in zip(m.top, fm.top):
        require(frozenset(a) == frozenset(b) and m.relative(a, b) in (1, -1), 'fix_cells', lambda: 'fix_orientation turned cell {} into {}'.format(a, b))
    if m.n_dim > 0:
        fo = ref.orientation_model(fm)
        require(fo['consistent'], 'fix_inconsistent', 'fix_orientation did not produce consistently oriented cells')
        require(bool(f.is_oriented), 'fix_not_oriented', 'the result of fix_orientation is not reported as oriented')
    require(type(f) is type(t), 'fix_type', 'fix_orientation changed the type')
    rec.trace()


def check_flips(case, rec):
    """all orientations of the cells of one complex, up to a number of flipped cells"""
    kind, cells, bound = case
    n = len(cells)
    # start from a consistent orientation if there is one
    for r in range(0, min(n, bound) + 1):
        for sub in itertools.combinations(range(n), r):
            judge(kind, [gen.flip(c, kind) if i in sub else c for i, c in enumerate(cells)], rec)


def check_orders(case, rec):
    """all orders of the cells of a small complex with all flips"""
    kind, cells = case
    n = len(cells)
    for p in itertools.permutations(range(n)):
        c2 = [cells[i] for i in p]
        for f in itertools.product((0, 1), repeat=n):
            judge(kind, [gen.flip(c, kind) if b else c for c, b in zip(c2, f)], rec)


def oriented(kind, cells):
    o = ref.orientation_model(topo.model(kind, cells))
    if not o.get('orientable'):
        return cells
    return [c if o['colour'][i] == 1 else gen.flip(c, kind) for i, c in enumerate(cells)]


def cases_flips(tier):
    for kind, cells in gen.base_complexes(tier):
        cells = oriented(kind, cells)
        n = len(cells)
        bound = n if n <= (6 if tier == 'quick' else 9) else (2 if n <= 14 or tier != 'quick' else 1)
        if n > 30:
            bound = 1
        yield [kind, cells, bound]


def cases_orders(tier):
    for kind, cells in gen.base_complexes(tier):
        if len(cells) <= (3 if tier == 'quick' else 4):
            yield [kind, oriented(kind, cells)]
    if tier == 'quick':
        yield ['s', gen.disjoint([[0, 1, 2]], [[0, 1, 2], [2, 1, 3]], [[0, 1, 2]])]
        yield ['c', gen.disjoint(gen.grid_cubes((1, 1)), gen.grid_cubes((1, 2)), gen.grid_cubes((1, 1)))]


def check_components(case, rec):
    """interleavings of several components, each with its own orientation"""
    kind, sizes, order, flips = case
    parts = []
    for s in sizes:
        if kind == 'c':
            parts.append(gen.grid_cubes((1, s)))
        else:
            strip = [[i, i + 1, i + 2] if i % 2 == 0 else [i + 1, i, i + 2] for i in range(s)]
            parts.append(strip)
    cells = gen.disjoint(*parts)
    lab = [i for i, s in enumerate(sizes) for _ in range(s)]
    cells = [gen.flip(c, kind) if flips[l] else c for c, l in zip(cells, lab)]
    judge(kind, [cells[i] for i in order], rec)


def cases_components(tier):
    total = 4 if tier == 'quick' else 5
    for n in range(2, total + 1):
        for k in range(2, n + 1):
            for sizes in itertools.product(range(1, n), repeat=k):
                if sum(sizes) != n:
                    continue
                for order in itertools.permutations(range(n)):
                    for flips in itertools.product((0, 1), repeat=k):
                        for kind in 'sc':
                            yield [kind, list(sizes), list(order), list(flips)]


SPACES = [
    Space('flips', cases_flips, check_flips, 'every catalogue complex; all 2^n orientations for n<=6 (9) cells, at most 2 (1) deviating cells above', chunk=4,
          expect=['consistent', 'inconsistent', 'non-orientable', 'several components']),
    Space('orders', cases_orders, check_orders, 'every catalogue complex of <=3 (4) cells: all orders x all orientations', chunk=2, expect=['consistent', 'inconsistent']),
    Space('components', cases_components, check_components, 'all partitions of <=4 (5) cells into components, all interleavings, all component orientations',
          expect=['consistent', 'several components']),
    Space('large', large.cases('edges', 'fan', 'sphere', 'tets', 'quads', 'hex'), large.check_orientation, '40 to 33000 copies of six small complexes: more than 2^15 elements of every kind', chunk=1, expect=['consistent', 'inconsistent']),
]
