"""C04: the dual of an oriented complex is a closed chain complex attached to its boundary"""
import numpy as np

from mc import gen, large, ref, topo
from mc.c02 import oriented
from mc.harness import Space, require

PROPERTY = 'C04'
ASSUMPTIONS = ['complexes are oriented pseudo-manifolds whose boundary is a pseudo-manifold']


def ball_like(m):
    """every vertex star is a disc: enough for a cell decomposition of the same space in dimension <= 2"""
    return m.n_dim <= 2 and all(v == 1 for v in ref.star_components(m).values())


def judge(kind, cells, rec, homology=False):
    m = topo.model(kind, cells)
    o = ref.orientation_model(m)
    if not (o['pseudo'] and o['consistent']):
        return
    N = m.n_dim
    owners = ref.face_owners(m)
    bfaces = [f for f, w in owners.items() if len(w) == 1]
    if bfaces and N > 1:
        bm = type(m)([ref.induced(m, m.top[owners[f][0]], f)[0] for f in bfaces])
        if any(len(w) > 2 for w in ref.face_owners(bm).values()):
            rec.outcome('skipped: boundary is not a manifold')
            return
    t = topo.build(kind, cells)
    d = t.dual
    rec.step(3)
    rec.state(kind, cells)
    P = list(t.n_elements)
    if bfaces:
        rec.outcome('open')
        B = list(t.boundary.n_elements)
    else:
        rec.outcome('closed')
        B = [0] * N
    # dual n-elements: one per primal (N-n)-element, plus one per boundary (N-1-n)-element
    expected = [P[N - n] + (B[N - 1 - n] if n < N else 0) for n in range(N + 1)]
    require(d.n_dim == N, 'n_dim', 'dual has the wrong dimension')
    require(list(d.n_elements) == expected, 'n_elements', lambda: 'dual has {} elements expected {}'.format(list(d.n_elements), expected))
    if bfaces:
        # of the primal elements, those on the boundary, those inside; and the dual elements that cap the boundary ones
        counts = [list(c) for c in (d.p_elements, d.i_elements, d.d_elements)]
        rec.step(3)
        wanted = [B + [0], [p - b for p, b in zip(P, B + [0])], [0] + B]
        require(counts == wanted, 'counts', lambda: 'boundary, internal and dual boundary elements {} expected {}'.format(counts, wanted))
    M = [topo.dense(x) for x in d.matrices]
    require(len(M) == N, 'matrices', 'dual has the wrong number of matrices')
    D = [topo.dense(x) for x in t.matrices]
    for n in range(N):
        require(M[n].shape == (expected[n], expected[n + 1]), 'shape', lambda: 'dual matrix {} has shape {} expected {}'.format(n, M[n].shape, (expected[n], expected[n + 1])))
        r, c = P[N - n], P[N - n - 1]
        require((M[n][:r, :c] == D[N - n - 1].T).all(), 'interior', 'the interior part of the dual is not the transposed primal')
        require(not M[n][:r, c:].any(), 'mixed', 'interior dual elements border on dual boundary elements only')
        require((dense_item(d, n) == M[n]).all(), 'getitem', 'dual[n] differs from dual.matrices[n]')
        if bfaces and N - n - 1 >= 0:
            # the part that connects the boundary: boundary element i of dual dimension n caps the dual of its parent
            glue = M[n][r:, :c]
            if n < N:
                idx = np.asarray(t.boundary.parent_idx[N - 1 - n])
                require((np.abs(glue).sum(axis=1) == 1).all() and (np.abs(glue)[np.arange(len(idx)), idx] == 1).all(), 'glue',
                        'dual boundary elements are not attached to the dual of the element they cap')
            if n + 1 < N:
                BB = topo.dense(t.boundary.matrices[N - 2 - n])
                require((np.abs(M[n][r:, c:]) == np.abs(BB.T)).all(), 'boundary_part', 'the dual boundary is not the dual of the boundary')
    for a, b in zip(M[:-1], M[1:]):
        require(not (a @ b).any(), 'dd', 'the dual is not a chain complex')
    # every dual edge has one head and one tail: the dual derivative of a constant vanishes
    require((np.abs(M[0]).sum(axis=0) == 2).all(), 'two_ends', 'a dual edge does not have two ends')
    require(not M[0].sum(axis=0).any(), 'constant', 'the dual derivative of a constant does not vanish')
    # selectors are indexed by primal dimension
    SI, SB, M2 = d.selector_interior, d.selector_boundary, d.matrices_2
    rec.step(3)
    require(len(SI) == len(SB) == N + 1, 'selectors', 'wrong number of dual selectors')
    for k in range(N + 1):
        n = N - k
        nd = expected[n]
        require((topo.dense(SI[k]) == np.eye(P[k], nd, dtype=int)).all() and topo.dense(SI[k]).shape == (P[k], nd), 'selector_interior', 'dual interior selector is wrong')
        A = topo.dense(SB[k])
        require(A.shape == (nd - P[k], nd), 'selector_boundary_shape', 'dual boundary selector has the wrong shape') if bfaces else require(A.shape == (0, nd), 'selector_boundary_shape', 'boundary selector of a closed dual should be empty')
        require((A == np.eye(nd, dtype=int)[P[k]:]).all(), 'selector_boundary', 'dual boundary selector is wrong')
    require(len(M2) == N, 'matrices_2', 'wrong number of dual derivatives')
    for n in range(N):
        require((topo.dense(M2[n]) == M[n][:, :P[N - n - 1]]).all() and topo.dense(M2[n]).shape == (expected[n], P[N - n - 1]), 'matrices_2_value',
                'dual matrices without dual boundary elements are wrong')
    if homology or ball_like(m):
        rec.outcome('homology')
        bp = ref.betti(D, P)
        bd = ref.betti(M, expected)
        require(bp == bd, 'homology', lambda: 'dual has homology {} but primal has {}'.format(bd, bp))
    require(d.check_chain() is None, 'check_chain', '')
    rec.trace()


def dense_item(d, n):
    return topo.dense(d[n])


def check_flip_all(case, rec):
    kind, cells, homology = case
    judge(kind, cells, rec, homology)
    judge(kind, [gen.flip(c, kind) for c in cells], rec, homology)


def check_relabel(case, rec):
    kind, cells, homology = case
    n = max(v for c in cells for v in c) + 1
    for shift in range(n):
        judge(kind, [[(v + shift) % n for v in c] for c in cells], rec, homology and shift == 0)
        judge(kind, [[(n - 1 - v + shift) % n for v in c] for c in cells[::-1]], rec)
    size = len(cells[0])
    m = topo.model(kind, cells)
    sym = gen.perms(size) if kind != 'c' else gen.cube_symmetries(size.bit_length() - 1)
    for p in sym[:48]:
        if m.relative(tuple(gen.apply(list(range(size)), p)), tuple(range(size))) == 1:
            judge(kind, [gen.apply(c, p) for c in cells], rec)


def check_unoriented(case, rec):
    kind, cells = case
    t = topo.build(kind, cells)
    rec.step()
    rec.state(kind, cells)
    try:
        t.dual
    except ValueError:
        rec.outcome('refused')
    else:
        require(False, 'unoriented', 'dual of a complex that is not oriented')
    rec.trace()


def manifolds(tier):
    """genuine manifolds with (or without) boundary in dimension 2, 3 and 4: homology must agree"""
    out = []
    for shape in [(1, 1), (2, 2), (1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 1, 1, 1)] + ([(2, 2, 2), (2, 1, 1, 1), (3, 2, 1)] if tier != 'quick' else []):
        out.append(('c', gen.grid_cubes(shape)))
        if len(shape) < 4 and int(np.prod(shape)) <= 4:
            out.append(('s', gen.kuhn(shape)))
    # annulus / solid torus / thick sphere
    ring = [c for i, c in enumerate(gen.grid_cubes((3, 3))) if i != 4]
    out.append(('c', gen.compact(ring)))
    ring3 = [c for i, c in enumerate(gen.grid_cubes((3, 3, 1))) if i != 4]
    out.append(('c', gen.compact(ring3)))
    out.append(('s', gen.split_quads(gen.compact(ring))))
    if tier != 'quick':
        shell = [c for i, c in enumerate(gen.grid_cubes((3, 3, 3))) if i != 13]
        out.append(('c', gen.compact(shell)))
        out.append(('c', gen.periodic_cubes((3, 3, 3))))
    for n in (2, 3, 4):
        out.append(('s', gen.cross_polytope(n)))
        out.append(('s', gen.simplex_boundary(n)))
        out.append(('s', [list(range(n + 1))]))
    out.append(('s', gen.TORUS7))
    out.append(('c', gen.periodic_cubes((3, 3))))
    return out


def cases_catalogue(tier):
    for kind, cells in gen.base_complexes(tier):
        yield [kind, oriented(kind, cells), False]
    for kind, cells in manifolds(tier):
        yield [kind, oriented(kind, cells), True]


def cases_relabel(tier):
    for kind, cells in gen.base_complexes(tier):
        if len(cells) <= (4 if tier == 'quick' else 8) and ref.orientation_model(topo.model(kind, cells))['orientable']:
            yield [kind, oriented(kind, cells), False]


def cases_unoriented(tier):
    for kind, cells in gen.base_complexes(tier):
        c = oriented(kind, cells)
        for i in range(len(c)):
            f = [gen.flip(x, kind) if j == i else x for j, x in enumerate(c)]
            if not ref.orientation_model(topo.model(kind, f))['consistent']:
                yield [kind, f]


SPACES = [
    Space('catalogue', cases_catalogue, check_flip_all, 'every oriented catalogue complex and its mirror image, plus manifolds of dimension 2-4 with homology', chunk=4, expect=['open', 'closed', 'homology']),
    Space('relabel', cases_relabel, check_relabel, 'catalogue complexes of <=4 (8) cells under all cyclic/reflected labels and common even corner orders', chunk=2, expect=['open', 'closed']),
    Space('unoriented', cases_unoriented, check_unoriented, 'every catalogue complex with one cell flipped', expect=['refused']),
    Space('large', large.cases('edges', 'fan', 'sphere', 'tets', 'quads', 'hex'), large.check_dual, '40 to 33000 copies of six small complexes: more than 2^15 elements of every kind', chunk=1, expect=['open', 'closed']),
]
