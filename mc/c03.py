"""C03: boundary, closedness and the boundary / interior selectors"""
import itertools

import numpy as np

from mc import gen, large, ref, topo
from mc.c02 import oriented
from mc.harness import Space, require

PROPERTY = 'C03'
ASSUMPTIONS = ['complexes are pseudo-manifolds']


def boundary_faces(m):
    return {f for f, o in ref.face_owners(m).items() if len(o) == 1}


def subfaces(m, faces, k):
    """vertex sets of the k-faces of the given codimension-1 faces, given as ordered cells"""
    cls = type(m)
    return cls(faces).faces(k)


def judge(kind, cells, rec, depth=0, t=None):
    m = topo.model(kind, cells) if t is None else topo.model_of(t)
    o = ref.orientation_model(m)
    if not o['pseudo']:
        return
    if t is None:
        t = topo.build(kind, cells)
    N = m.n_dim
    rec.state(m.kind, m.top, depth)
    rec.step()
    if not o['consistent']:
        rec.outcome('not oriented')
        for what in ('boundary', 'is_closed', 'dual'):
            try:
                getattr(t, what)
            except ValueError:
                pass
            else:
                require(False, 'unoriented_accepted', '{} of a complex that is not oriented must raise ValueError'.format(what))
        rec.trace()
        return
    expected = boundary_faces(m)
    b = t.boundary
    require(t.boundary is b, 'unstable', 'boundary is a different object every time')
    require((b is None) == (not expected), 'closed', lambda: 'boundary is {} but {} faces have a single cell'.format(b, len(expected)))
    require(bool(t.is_closed) == (not expected), 'is_closed', 'is_closed is wrong')
    parents = [m.cells(np.asarray(e)) for e in t.elements]
    if b is None:
        rec.outcome('closed')
        on = [set() for _ in range(N + 1)]
    else:
        rec.outcome('open')
        require(b.n_dim == N - 1, 'boundary_dim', 'boundary has the wrong dimension')
        require(b.parent is t, 'parent', 'boundary does not refer back to its parent')
        require(len(b.parent_idx) == N, 'parent_idx', 'parent_idx has the wrong length')
        if N > 1:
            topo.check_lattice(b, topo.model_of(b))
        idx = [np.asarray(i) for i in b.parent_idx]
        mine = [m.cells(np.asarray(e)) for e in b.elements]
        on = []
        for k in range(N):
            require(len(idx[k]) == len(mine[k]) == len(set(idx[k].tolist())), 'parent_idx_unique', 'parent_idx is not one to one')
            for i, c in zip(idx[k], mine[k]):
                mapped = tuple(int(idx[0][v]) for v in c)
                require(frozenset(mapped) == frozenset(parents[k][i]), 'parent_idx_value',
                        lambda: 'boundary {}-element {} is referred to parent element {}'.format(k, mapped, parents[k][i]))
                if k == N - 1:
                    require(m.relative(mapped, parents[k][i]) == 1, 'boundary_orientation', 'boundary element lost the orientation of its parent element')
            on.append(set(idx[k].tolist()))
        got = {frozenset(parents[N - 1][i]) for i in on[N - 1]}
        require(got == expected, 'boundary_elements', lambda: 'boundary has faces {} expected {}'.format(sorted(map(sorted, got)), sorted(map(sorted, expected))))
        on.append(set())
        # the chain complex of the boundary is the restriction of that of the parent
        for k in range(N - 1):
            A, B = topo.dense(b.matrices[k]), topo.dense(t.matrices[k])
            require((A == B[idx[k]][:, idx[k + 1]]).all(), 'restriction', lambda: 'boundary matrix {} is not the restriction of the parent matrix'.format(k))
        if N > 1:
            # boundary elements are all oriented outward (or all inward)
            chain = topo.dense(t.matrices[-1]).sum(axis=1)
            require(len(set(chain[sorted(on[N - 1])].tolist())) == 1, 'outward', 'boundary elements do not agree on which side is outward')
            bm = topo.model_of(b)
            bo = ref.orientation_model(bm)
            if bo['pseudo']:
                require(bo['consistent'], 'boundary_consistent', 'the boundary of an oriented manifold is not consistently oriented')
                require(bool(b.is_oriented), 'boundary_is_oriented', 'the boundary is not reported as oriented')
                require(not boundary_faces(bm), 'boundary_of_boundary', 'the boundary has a boundary')
                require(b.boundary is None and b.is_closed, 'boundary_closed', 'the boundary of a boundary is not empty')
                rec.step(2)
    # selectors
    SI, SB = t.selector_interior, t.selector_boundary
    rec.step(2)
    require(len(SI) == len(SB) == N + 1, 'selectors', 'wrong number of selectors')
    for k in range(N + 1):
        n = len(parents[k])
        B = sorted(on[k])
        I = [i for i in range(n) if i not in on[k]]
        for S, want, name in ((SI[k], I, 'interior'), (SB[k], B, 'boundary')):
            A = topo.dense(S)
            require(A.shape == (len(want), n), 'selector_shape', lambda: '{} selector {} has shape {} expected {}'.format(name, k, A.shape, (len(want), n)))
            E = np.zeros((len(want), n), dtype=int)
            E[np.arange(len(want)), want] = 1
            require((A == E).all(), 'selector', lambda: '{} selector for {}-elements selects the wrong elements'.format(name, k))
        if b is not None and k < N:
            require(np.array_equal(topo.dense(SB[k]) @ np.arange(n), idx[k]), 'selector_order', 'boundary selector and boundary topology enumerate elements differently')
    rec.trace()


def check_flips(case, rec):
    kind, cells, bound = case
    n = len(cells)
    for r in range(0, min(n, bound) + 1):
        for sub in itertools.combinations(range(n), r):
            judge(kind, [gen.flip(c, kind) if i in sub else c for i, c in enumerate(cells)], rec)
    judge(kind, [gen.flip(c, kind) for c in cells], rec)


def check_relabel(case, rec):
    kind, cells, orders = case
    n = max(v for c in cells for v in c) + 1
    for shift in range(n):
        judge(kind, [[(v + shift) % n for v in c] for c in cells], rec)
        judge(kind, [[(n - 1 - v + shift) % n for v in c] for c in cells[::-1]], rec)
    # every even re-ordering of the corners of the cells, all cells at once
    size = len(cells[0])
    m = topo.model(kind, cells)
    sym = gen.perms(size) if kind != 'c' else gen.cube_symmetries(size.bit_length() - 1)
    for p in sym[:orders]:
        if m.relative(tuple(gen.apply(list(range(size)), p)), tuple(range(size))) == 1 or size == 1:
            judge(kind, [gen.apply(c, p) for c in cells], rec)


def cases_flips(tier):
    for kind, cells in gen.base_complexes(tier):
        yield [kind, oriented(kind, cells), 1 if tier == 'quick' or len(cells) > 12 else 2]


def cases_relabel(tier):
    for kind, cells in gen.base_complexes(tier):
        if ref.orientation_model(topo.model(kind, cells))['orientable']:
            yield [kind, oriented(kind, cells), 48 if tier == 'quick' else 384]


SPACES = [
    Space('flips', cases_flips, check_flips, 'every catalogue complex, with every single (thorough: pair of) cell flipped, and all flipped', chunk=4, expect=['open', 'closed', 'not oriented']),
    Space('relabel', cases_relabel, check_relabel, 'every orientable catalogue complex under all cyclic shifts and reflections of labels and all common even corner orders', chunk=2, expect=['open', 'closed']),
    Space('large', large.cases('edges', 'fan', 'sphere', 'tets', 'quads', 'hex'), large.check_boundary, '40 to 33000 copies of six small complexes: more than 2^15 elements of every kind', chunk=1, expect=['open', 'closed']),
]
