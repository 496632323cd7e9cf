"""C07: transfer operators and parent relations between a complex and its subdivision"""
import numpy as np

from mc import gen, large, ref, topo
from mc.c02 import oriented
from mc.c06 import Lattice
from mc.harness import Space, require
from pycomplex.topology.cubical import TopologyCubical
from pycomplex.topology.simplicial import TopologyTriangular

PROPERTY = 'C07'
ASSUMPTIONS = ['coarse and fine complexes are correct (C01, C06)']


def inside(L, fine_elements, numbering):
    """expected transfers [n][fine, coarse] = 1 iff the fine n-element lies in the coarse n-element.
    numbering: fine vertex -> coarse (dim, index) it was inserted on"""
    out = []
    for n, els in enumerate(fine_elements):
        A = np.zeros((len(els), L.n[n]), dtype=int)
        for i, e in enumerate(els):
            origin = [numbering(v) for v in e]
            for c in range(L.n[n]):
                if all(k <= n and j in L.below[n, c][k] for k, j in origin):
                    A[i, c] = 1
        out.append(A)
    return out


def elements(t):
    m = topo.model_of(t)
    return [m.cells(np.asarray(e)) for e in t.elements]


def judge_transfers(t, f, rec, name, chain_map=True):
    L = Lattice(t)
    want = inside(L, elements(f), L.which)
    T = [topo.dense(x) for x in f.transfer_matrices]
    require(len(T) == t.n_dim + 1, 'length', lambda: '{}: number of transfer matrices'.format(name))
    for n in range(t.n_dim + 1):
        require(T[n].shape == want[n].shape, 'shape', lambda: '{}: transfer {} has shape {} expected {}'.format(name, n, T[n].shape, want[n].shape))
        require((T[n] == want[n]).all(), 'transfer', lambda: '{}: transfer of {}-elements relates the wrong elements'.format(name, n))
    # every coarse n-element is covered by 2^n (cubes, triangles: 4, edges: 2) fine ones
    for n in range(t.n_dim + 1):
        require((T[n].sum(axis=0) == 2 ** n).all(), 'covered', lambda: '{}: a coarse {}-element is not covered'.format(name, n))
    if chain_map:
        for n in range(t.n_dim):
            a = topo.dense(f.matrices[n]) @ T[n + 1]
            b = T[n] @ topo.dense(t.matrices[n])
            require((a == b).all(), 'chain_map', lambda: '{}: transfers of {}-elements do not commute with the boundary: relative signs are not inherited'.format(name, n))
    rec.trace()


def judge_relations(t, f, rec):
    L = Lattice(t)
    order, parent = t.subdivide_cubical_relations(f)
    rec.step()
    require(len(order) == len(parent) == t.n_dim + 1, 'relations_length', 'number of relations')
    for n, els in enumerate(elements(f)):
        o = np.asarray(order[n]).reshape(len(els), -1)
        p = np.asarray(parent[n]).reshape(len(els), -1)
        got = [[(int(a), int(b)) for a, b in zip(x, y)] for x, y in zip(o, p)]
        want = [[L.which(v) for v in e] for e in els]
        require(got == want, 'relations', lambda: 'order/parent of fine {}-elements are wrong'.format(n))
    pairs = t.subdivide_cubical_transfers(f)
    want = inside(L, elements(f), L.which)
    rec.step()
    for n, (a, b) in enumerate(pairs):
        got = sorted(zip(np.asarray(a).tolist(), np.asarray(b).tolist()))
        require(got == sorted(zip(*[x.tolist() for x in np.nonzero(want[n])])), 'transfer_pairs', lambda: 'transfers of {}-elements'.format(n))
    rec.trace()


def judge_dual(t, f, rec):
    """dual transfers: coincident interior elements, and coincident elements of the boundary"""
    o = ref.orientation_model(topo.model_of(t))
    if not (o['pseudo'] and o['consistent']):
        return
    if t.boundary is None:
        rec.outcome('closed')
        return
    bm = topo.model_of(t.boundary) if t.n_dim > 1 else None
    if bm is not None and not ref.orientation_model(bm)['pseudo']:
        return
    N = t.n_dim
    L = Lattice(t)
    P = inside(L, elements(f), L.which)
    D = [topo.dense(x) for x in f.dual.transfer_matrices]
    rec.step()
    require(len(D) == N + 1, 'dual_length', 'number of dual transfers')
    fb, cb = f.boundary.parent_idx, t.boundary.parent_idx
    for n in range(N + 1):
        p = P[N - n]
        if n < N:
            q = P[N - 1 - n][np.asarray(fb[N - 1 - n])][:, np.asarray(cb[N - 1 - n])]
        else:
            q = np.zeros((0, 0), dtype=int)
        want = np.zeros((p.shape[0] + q.shape[0], p.shape[1] + q.shape[1]), dtype=int)
        want[:p.shape[0], :p.shape[1]] = p
        want[p.shape[0]:, p.shape[1]:] = q
        require(want.shape == (f.dual.n_elements[n], t.dual.n_elements[n]) == D[n].shape, 'dual_shape', lambda: 'dual transfer {} has shape {} expected {}'.format(n, D[n].shape, want.shape))
        require((D[n] == want).all(), 'dual_transfer', lambda: 'dual transfer of {}-elements'.format(n))
    rec.outcome('dual')
    rec.trace()


def check(case, rec):
    kind, cells, depth = case
    t = topo.build(kind, cells)
    level = 0
    while True:
        rec.state(kind, cells, level)
        if isinstance(t, TopologyCubical):
            f = t.subdivide_cubical()
            rec.step()
            rec.outcome('cubical')
            judge_transfers(t, f, rec, 'cubical')
            judge_relations(t, f, rec)
            judge_dual(t, f, rec)
            if t.n_dim == 2:
                judge_quads(t.as_2(), rec)
        else:
            a = t.subdivide_loop()
            f = t.subdivide_loop_direct()
            rec.step(2)
            rec.outcome('loop')
            judge_transfers(t, a, rec, 'loop')
            judge_transfers(t, f, rec, 'loop_direct')
            judge_dual(t, a, rec)
            judge_dual(t, f, rec)
        level += 1
        if level >= depth:
            return
        t = f


def judge_quads(t, rec):
    """four triangles per quad"""
    f = t.subdivide_simplicial()
    rec.step()
    rec.outcome('quads to triangles')
    require(f.parent is t, 'quad_parent', 'parent')
    T = f.transfer_operators
    n0, n2 = t.n_elements[0], t.n_elements[2]
    quads = elements(t)[2]
    A = np.asarray(T[0].todense(), dtype=float)
    W = np.zeros((n0 + n2, n0))
    W[:n0] = np.eye(n0)
    for i, q in enumerate(quads):
        for v in q:
            W[n0 + i, v] = 0.25
    require(A.shape == W.shape and np.abs(A - W).max() < 1e-6, 'quad_vertices', 'vertex transfer from quads to triangles')
    tri = elements(f)[2]
    B = topo.dense(T[2])
    E = np.zeros((len(tri), n2), dtype=int)
    for i, c in enumerate(tri):
        q = [v - n0 for v in c if v >= n0]
        require(len(q) == 1, 'quad_triangle', 'a triangle without exactly one quad vertex')
        E[i, q[0]] = 1
    require(B.shape == E.shape and (B == E).all(), 'quad_faces', 'face transfer from quads to triangles')
    rec.trace()


def cases(tier):
    big = tier != 'quick'
    for kind, cells in gen.base_complexes(tier):
        N = topo.model(kind, cells).n_dim
        if kind == 'c':
            if (N == 3 and len(cells) > 4 and not big) or N > (3 if not big else 4) or len(cells) > 14:
                continue
        elif N != 2 or len(cells) > (8 if not big else 14):
            continue
        o = ref.orientation_model(topo.model(kind, cells))
        variants = [cells]
        if o['orientable'] and not o['consistent']:
            variants.append(oriented(kind, cells))
        for v in variants:
            if N == 1:
                depth = 4 if big else 3
            elif N == 2:
                depth = 2 if len(v) <= (3 if not big else 6) else 1
            else:
                depth = 1 if len(v) > 1 or not big else 2
            yield [kind if kind == 'c' else 't', v, depth]


def cases_orders(tier):
    """cells in every corner order"""
    base = [('c', gen.grid_cubes((1, 2))), ('c', gen.grid_cubes((1, 1, 2))), ('t', [[0, 1, 2], [1, 3, 2]])]
    if tier != 'quick':
        base += [('c', gen.grid_cubes((2, 2))), ('t', oriented('s', gen.simplex_boundary(3)))]
    for kind, cells in base:
        size = len(cells[0])
        sym = gen.perms(size) if kind != 'c' else gen.cube_symmetries(size.bit_length() - 1)
        for which in range(len(cells)):
            for p in sym:
                yield [kind, [gen.apply(c, p) if i == which else c for i, c in enumerate(cells)], 1]
    # labels
    for kind, cells in base[:1] + base[2:3]:
        n = max(v for c in cells for v in c) + 1
        for p in gen.perms(n):
            yield [kind, [[p[v] for v in c] for c in cells], 1]


SPACES = [
    Space('catalogue', cases, check, 'every cubical catalogue complex of dimension <=3 (4) and every triangular one, over 1-3 levels of subdivision', chunk=2, expect=['cubical', 'loop', 'dual', 'closed', 'quads to triangles']),
    Space('orders', cases_orders, check, 'two glued cells, one in every corner order; relabellings', chunk=4, expect=['cubical', 'loop', 'dual']),
    Space('large', large.cases('fan', 'sphere', 'quads', 'hex'), large.check_transfers, '40 to 16500 copies of four small complexes: more than 2^15 elements of every kind', chunk=1, expect=['cubical', 'loop', 'loop_direct']),
]
