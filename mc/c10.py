"""C10: locating points in simplicial complexes, and sampling forms at them"""
import itertools
import math

import numpy as np

from mc import large, scales, topo
from mc.c09 import centre, index_of, reference
from mc.harness import Space, require
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
from pycomplex.complex.simplicial.spherical import ComplexCircular, ComplexSpherical, ComplexSpherical2

PROPERTY = 'C10'
ASSUMPTIONS = ['queries are compared with exhaustive search over all simplices / vertices / fundamental domains, to 1e-6 (1e-5 for fundamental domains)',
               'meshes are subsets of (weighted) Delaunay triangulations that satisfy is_pairwise_delaunay by the reference of C09']
TOL = 1e-6


def warp(dim, size):
    """lattice without cocircular points"""
    L = np.array(list(itertools.product(range(size), repeat=dim)), dtype=float).reshape(-1, dim)
    n = np.arange(1, len(L) + 1)
    for k in range(dim):
        L[:, k] += 0.13 * np.sin(n * (2.3 + k) + k)
    return L


def delaunay(V):
    """all simplices with an empty circumsphere"""
    d = V.shape[1]
    C = np.array(list(itertools.combinations(range(len(V)), d + 1)))
    det = np.linalg.det(V[C[:, 1:]] - V[C[:, :1]])
    C = C[np.abs(det) > 1e-6]
    if not len(C):
        return C
    c, _ = centre(V[C], np.zeros(C.shape))
    power = ((V[None] - c[:, None]) ** 2).sum(axis=-1) - ((V[C[:, :1]] - c[:, None]) ** 2).sum(axis=-1)
    power[np.arange(len(C))[:, None], C] = 1
    return C[(power > 1e-9).all(axis=1)]


def orient(V, cells, spherical=False):
    cells = np.array(cells)
    X = V[cells] if spherical else V[cells[:, 1:]] - V[cells[:, :1]]
    flip = np.linalg.det(X) < 0
    cells[flip, :2] = cells[flip, :2][:, ::-1]
    return cells


def compact(V, cells, W=None):
    u, inverse = np.unique(cells, return_inverse=True)
    return V[u], inverse.reshape(cells.shape), None if W is None else W[u]


def homogeneous(P, spherical):
    return P if spherical else np.concatenate([P, np.ones(P.shape[:-1] + (1,))], axis=-1)


def baries_of(V, cells, P, spherical):
    """normalized barycentric coordinates [point, cell, corner] of all points in all cells"""
    B = np.linalg.inv(homogeneous(V[cells], spherical))
    b = np.einsum('pc,tcv->ptv', homogeneous(P, spherical), B)
    if spherical:
        # the opposite side of the sphere is not inside
        return b
    return b


def queries(V, cells, size, spherical=False):
    N = cells.shape[1] - 1
    X = V[cells]
    P = [V]
    for w in itertools.product(range(4), repeat=N + 1):
        if 0 < sum(w):
            P.append((X * (np.array(w) / sum(w))[None, :, None]).sum(axis=1))
    if not spherical:
        lo, hi = V.min(axis=0), V.max(axis=0)
        axes = [np.linspace(a - 0.1, b + 0.1, size) for a, b in zip(lo, hi)]
        P.append(np.array(list(itertools.product(*axes))))
    P = np.concatenate(P)
    if spherical:
        G = np.array([g for g in itertools.product(range(-size, size + 1), repeat=V.shape[1]) if any(g)], dtype=float)
        P = np.concatenate([P, G])
        P = P / np.linalg.norm(P, axis=1, keepdims=True)
    return P


def circumscribed(V, cells, W):
    """(dual positions) of all top cells"""
    w = np.zeros(len(V)) if W is None else W
    return centre(V[cells], w[cells])


def check_mesh(V, cells, W, size, rec, cls=None, spherical=False, sampling=True, hints=True, expect_all=True):
    """everything about one mesh"""
    N = cells.shape[1] - 1
    cls = cls or ComplexSimplicialEuclidian
    c = cls(vertices=V, simplices=cells, weights=W) if cls is not ComplexTriangularEuclidian else cls(vertices=V, triangles=cells, weights=W)
    P = queries(V, cells, size, spherical)
    rec.step(2)
    rec.trace(len(P))
    B = baries_of(V, cells, P, spherical)
    inside = B.min(axis=-1) >= -1e-9
    some = inside.any(axis=1)
    if spherical and expect_all:
        require(some.all(), 'harness', 'sphere not covered')

    def judge(P, some, B, idx, bary, what, must=True):
        require(idx.shape == (len(P),) and bary.shape == (len(P), N + 1), what + ' shape', lambda: '{} {}'.format(idx.shape, bary.shape))
        own = B[np.arange(len(P)), idx]
        own = own / own.sum(axis=1, keepdims=True)
        bad = (np.abs(bary - own) > TOL * (1 + np.abs(own).max(axis=1, keepdims=True))).any(axis=1)
        require(not bad.any(), what + ' barycentric', lambda: '{} in {}: {} instead of {}'.format(P[bad][0], idx[bad][0], bary[bad][0], own[bad][0]))
        if must:
            bad = some & (B[np.arange(len(P)), idx].min(axis=1) < -TOL)
            require(not bad.any(), what + ' wrong simplex', lambda: '{} of {}: {} not in {} but in {}'.format(
                bad.sum(), len(P), P[bad][0], idx[bad][0], np.flatnonzero(B[bad][0].min(axis=1) >= -1e-9)))

    before = P.copy()
    idx, bary = c.pick_primal(P)
    judge(P, some, B, idx, bary, 'pick_primal')
    rec.outcome('inside', int(some.sum()))
    rec.outcome('outside', int((~some).sum()))
    if hints:
        for h in list(range(len(cells))) + [None]:
            hint = np.full(len(P), h) if h is not None else (np.arange(len(P)) * 7 + 3) % len(cells)
            keep = hint.copy()
            i2, b2 = c.pick_primal(P, simplex_idx=hint)
            require(np.array_equal(hint, keep), 'pick_primal changes its hint')
            judge(P, some, B, i2, b2, 'pick_primal hint')
            rec.step()
            # a valid hint is honoured where the point is strictly inside it
            ok = B[np.arange(len(P)), hint].min(axis=1) > TOL
            require(np.array_equal(i2[ok], hint[ok]), 'pick_primal hint not honoured')
    i3, b3 = c.pick_primal(P, weighted=False)
    judge(P, some, B, i3, b3, 'pick_primal unweighted', must=False)

    # dual picking: nearest (power distance) vertex
    D = ((P[:, None] - V[None]) ** 2).sum(axis=-1) - (0 if W is None else W[None])
    d = c.pick_dual(P)
    require(d.shape == (len(P),), 'pick_dual shape')
    best = D.min(axis=1)
    bad = D[np.arange(len(P)), d] > best + 1e-9 * (1 + np.abs(best)) + 1e-9
    require(not bad.any(), 'pick_dual', lambda: '{}: {} not {}'.format(P[bad][0], d[bad][0], D[bad][0].argmin()))
    require(np.array_equal(P, before), 'points changed by picking')

    # sampling of primal forms: linear functions are exact wherever there is a simplex
    Q, BQ = P[some], B[some]
    if len(Q):
        for k in range(V.shape[1]):
            s = c.sample_primal_0(V[:, k], Q)
            if spherical:
                # piecewise linear on the simplices: bary coordinates are normalized
                own = np.einsum('tv,tv->t', V[:, k][cells[idx[some]]], bary[some])
                require(np.allclose(s, own, atol=1e-6), 'sample_primal_0')
            else:
                require(np.allclose(s, Q[:, k], atol=1e-6 * (1 + np.abs(V).max())), 'sample_primal_0 linear', lambda: str(np.abs(s - Q[:, k]).max()))
        require(np.allclose(c.sample_primal_0(np.ones(len(V)), P), 1), 'sample_primal_0 constant')
        # no point depends on which others are asked for, if any
        for k in (None, 0, len(Q) // 2, len(Q) - 1):
            one = Q[:0] if k is None else Q[k:k + 1]
            i1, b1 = c.pick_primal(one)
            d1 = c.pick_dual(one)
            s1 = c.sample_primal_0(V[:, -1], one)
            require(i1.shape == d1.shape == (len(one),) and b1.shape == (len(one), len(cells[0])) and s1.shape == (len(one),), 'alone shape',
                    lambda: '{} points'.format(len(one)))
            if k is not None:
                require(abs(s1[0] - s[k]) <= 1e-6 * (1 + np.abs(V).max()), 'alone', lambda: 'sample at {} depends on the other points'.format(Q[k]))
        rec.step(3)
    return c, P, some


def chains_of(c):
    """fundamental domains as positions [cell, domain, k] and indices"""
    d = c.topology.fundamental_domains()
    return d.reshape(-1, d.shape[-1])


def domains_of(cells, index):
    """own fundamental domains: [n, N+1] element numbers"""
    out = []
    for cell in cells.tolist():
        for p in itertools.permutations(cell):
            out.append([index[k][frozenset(p[:k + 1])] for k in range(len(cell))])
    return np.array(out)


def mean_values(D, X, n_elements, spherical):
    """own mean value weights: list over k of [n_k, n_N] matrices"""
    N = D.shape[1] - 1

    def volume(p):
        n = p.shape[1]
        if n == 1:
            return np.ones(len(p))
        if spherical:
            from pycomplex.geometry import spherical as s
            return s.unsigned_volume(p)
        E = p[:, 1:] - p[:, :1]
        G = E @ np.swapaxes(E, 1, 2)
        return np.sqrt(np.maximum(np.linalg.det(G), 0)) / math.factorial(n - 1)

    C = [X[k][D[:, k]] for k in range(N + 1)]
    out = []
    for k in range(N + 1):
        M = np.zeros((n_elements[k], n_elements[-1]))
        if k == N:
            w = np.ones(len(D))
        else:
            w = volume(np.stack(C[k + 1:], axis=1))
            for m in range(k + 1, N + 1):
                w = w / volume(np.stack([C[k], C[m]], axis=1))
        np.add.at(M, (D[:, k], D[:, -1]), w)
        out.append(M / M.sum(axis=1, keepdims=True))
    return out


def even(D, positions, spherical):
    """distances around every vertex differ little"""
    N = D.shape[1] - 1
    if N > 2:
        return False
    d2 = ((positions[:, 1:] - positions[:, :1]) ** 2).sum(axis=-1)
    limit = 2 if spherical else 3
    for v in np.unique(D[:, 0]):
        q = d2[D[:, 0] == v]
        if q.max() > limit * q[:, 0].min() or (spherical and q.max() > 0.5):
            return False
    return True


def check_fundamental(c, V, cells, P, some, rec, spherical=False):
    """fundamental domains and dual forms of well centered meshes"""
    t = c.topology
    N = t.n_dim
    index = index_of(t)
    X = c.primal_position
    D = domains_of(cells, index)
    positions = np.stack([X[k][D[:, k]] for k in range(N + 1)], axis=1)      # [domain, corner, dim]
    inv = np.linalg.inv(homogeneous(positions, spherical))
    Q = P[some]
    rec.step(4)
    try:
        idx, bary, dom = c.pick_fundamental(Q)
    except AssertionError:
        # fundamental domains of very uneven elements are beyond optimize_weights_fundamental, and refused
        require(not even(D, positions, spherical), 'pick_fundamental refuses an even mesh')
        rec.outcome('refused')
        return
    require(idx.shape == (len(Q),) and bary.shape == (len(Q), N + 1) and dom.shape == (len(Q), N + 1), 'pick_fundamental shape')
    number = {tuple(d): i for i, d in enumerate(D.tolist())}

    def judge(idx, bary, dom, what):
        require(all(tuple(d) in number for d in dom.tolist()), what + ' domain', 'not a fundamental domain')
        i = np.array([number[tuple(d)] for d in dom.tolist()], dtype=int).reshape(-1)
        own = np.einsum('pc,pcv->pv', homogeneous(Q, spherical), inv[i])
        if spherical:
            own = own / own.sum(axis=1, keepdims=True)
        require(own.min() > -1e-5, what + ' wrong domain', lambda: '{}: {}'.format(Q[own.min(axis=1).argmin()], own[own.min(axis=1).argmin()]))
        require(np.abs(own - bary).max() < 1e-5, what + ' barycentric', lambda: '{}: {} not {}'.format(Q[np.abs(own - bary).max(axis=1).argmax()], bary[np.abs(own - bary).max(axis=1).argmax()], own[np.abs(own - bary).max(axis=1).argmax()]))
        return i

    own_i = judge(idx, bary, dom, 'pick_fundamental')
    every = t.fundamental_domains().reshape(-1, N + 1)
    require(np.array_equal(every[idx], dom), 'pick_fundamental index')
    for hint in (np.zeros(len(Q), dtype=int), (np.arange(len(Q)) * 5 + 1) % len(every), idx):
        keep = hint.copy()
        judge(*c.pick_fundamental(Q, domain_idx=hint), what='pick_fundamental hint')
        require(np.array_equal(keep, hint), 'pick_fundamental changes its hint')
        rec.step()

    # dual forms
    n0 = t.dual.n_elements[0]
    nN = t.n_elements[-1]
    own_b = np.einsum('pc,pcv->pv', homogeneous(Q, spherical), inv[own_i])
    own_b = own_b / own_b.sum(axis=1, keepdims=True)
    MV = mean_values(D, X, t.n_elements, spherical)
    ops = c.weighted_average_operators
    for k in range(N + 1):
        if isinstance(ops[N - k], int):
            continue
        A = np.asarray(ops[N - k].todense())[:t.n_elements[k]]
        require(np.allclose(A[:, :nN], MV[k], atol=1e-6) and np.allclose(A[:, nN:], 0), 'weighted_average_operators', lambda: 'dual of {}-elements'.format(k))
    plain = [np.asarray(a.todense()) for a in t.dual.averaging_operators_0][::-1]
    for seed in range(3):
        if seed == 0:
            d0 = np.ones(n0)
        else:
            d0 = np.cos(np.arange(n0) * (1.3 + seed) + seed)
        for weighted in (True, False):
            s = c.sample_dual_0(d0, Q, weighted=weighted)
            forms = [(MV[k] @ d0[:nN]) if weighted else (plain[k] @ d0) for k in range(N + 1)]
            own = sum(forms[k][D[own_i][:, k]] * own_b[:, k] for k in range(N + 1))
            require(np.allclose(s, own, atol=1e-4), 'sample_dual_0', lambda: 'weighted={} off by {}'.format(weighted, np.abs(s - own).max()))
            if weighted:
                require(s.min() > d0[:nN].min() - 1e-6 and s.max() < d0[:nN].max() + 1e-6, 'sample_dual_0 not a convex combination')
        # any trailing dimensions
        two = np.stack([d0, 2 * d0 + 1], axis=1)
        s2 = c.sample_dual_0(two, Q)
        require(s2.shape == (len(Q), 2) and np.allclose(s2[:, 0], c.sample_dual_0(d0, Q)) and np.allclose(s2[:, 1], 2 * s2[:, 0] + 1, atol=1e-6), 'sample_dual_0 trailing dimensions')
        rec.step(4)
    for k in (None, 0, len(Q) // 2, len(Q) - 1)[:1 if not len(Q) else 4]:
        one = Q[:0] if k is None else Q[k:k + 1]
        i1, b1, d1 = c.pick_fundamental(one)
        s1 = c.sample_dual_0(two, one)
        require(i1.shape == (len(one),) and b1.shape == d1.shape == (len(one), N + 1) and s1.shape == (len(one), 2), 'alone shape', lambda: '{} points'.format(len(one)))
        if k is not None:
            require(np.allclose(s1[0], s2[k], atol=1e-6), 'alone', lambda: 'dual sample at {} depends on the other points'.format(Q[k]))
    # at the dual vertices the values themselves come back
    d0 = np.cos(np.arange(n0) * 1.7)
    for weighted in (True, False):
        s = c.sample_dual_0(d0, X[-1], weighted=weighted)
        require(np.allclose(s, d0[:nN], atol=1e-4), 'sample_dual_0 at dual vertices')
    rec.outcome('well centered')


def usable(V, cells, W=None, spherical=False):
    """(pairwise delaunay, well centered) by the reference, None when too close to call"""
    from pycomplex.topology.simplicial import TopologySimplicial
    t = TopologySimplicial.from_simplices(cells)
    N = t.n_dim
    index = index_of(t)
    PM, DM, heights, bary_min = reference(cells, t.n_elements, index, V, W)
    edges = np.zeros(t.n_elements[N - 1])
    np.add.at(edges, np.array([[index[N - 1][frozenset(np.delete(cell, i).tolist())] for i in range(N + 1)] for cell in cells]), heights)
    return edges.min() > 1e-6, bary_min > 1e-3


# --- planar meshes

def face_connected(cells):
    """one component, linked through faces"""
    faces = [{frozenset(f) for f in itertools.combinations(c, len(c) - 1)} for c in cells.tolist()]
    done, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j in range(len(faces)):
            if j not in done and faces[i] & faces[j]:
                done.add(j)
                todo.append(j)
    return len(done) == len(faces)


def cases_split(tier):
    """well centered meshes in pieces that touch in a vertex at most"""
    yield [5, [1, 2, 3, 13, 20], [[3, 0, 4], [2, 1, 3]]]
    yield [4, [0, 3, 4, 8, 10, 13], [[1, 0, 4], [2, 3, 4], [4, 3, 5]]]
    yield [4, [3, 4, 5, 8, 9, 15], [[0, 2, 5], [1, 3, 4]]]


def check_split(case, rec):
    size, s, cells = case
    v = warp(2, size)[s]
    cells = orient(v, cells)
    rec.state(*case[:2])
    require(usable(v, cells)[0], 'harness', 'not delaunay')
    c, P, some = check_mesh(v, cells, None, 9, rec)
    if usable(v, cells)[1]:
        check_fundamental(c, v, cells, P, some, rec)


def cases_planar(tier):
    spec = [(3, 4, 24), (4, 4, 24), (5, 4, 64)] if tier == 'quick' else [(3, 5, 24), (4, 5, 128), (5, 5, 512), (6, 4, 256), (7, 4, 512)]
    for m, size, chunks in spec:
        for k in range(chunks):
            yield [m, size, k, chunks]


def check_planar(case, rec):
    m, size, k, chunks = case
    L = warp(2, size)
    done = 0
    for j, s in enumerate(itertools.combinations(range(len(L)), m)):
        if j % chunks != k:
            continue
        V = L[list(s)]
        cells = delaunay(V)
        if not len(cells):
            continue
        cells = orient(V, cells)
        rec.state(m, size, s)
        for r in range(1, len(cells) + 1) if len(cells) < 5 else (1, 2, len(cells) - 1, len(cells)):
            for sub in itertools.combinations(range(len(cells)), r):
                v, t, _ = compact(V, cells[list(sub)])
                pd, wc = usable(v, t)
                if not pd:
                    continue
                cls = ComplexTriangularEuclidian if done % 2 else ComplexSimplicialEuclidian
                try:
                    c, P, some = check_mesh(v, t, None, 9, rec, cls=cls, hints=done % 4 == 0)
                    rec.outcome('mesh')
                    done += 1
                    if wc and (r == len(cells) or done % 8 == 0) and face_connected(t):
                        check_fundamental(c, v, t, P, some, rec)
                except Exception as e:
                    e.args = e.args + ('vertices {} cells {}'.format(s, sub),)
                    if hasattr(e, 'message'):
                        e.message = '{} | vertices {} of the warped lattice, cells {}'.format(e.message, s, t.tolist())
                    raise
                if len(set(t.ravel().tolist())) < t.size and done % 3 == 0:
                    # scaled and moved
                    check_mesh(v * 1e-3 + 7, t, None, 5, rec, hints=False)
                    check_mesh(v * 1e4 - 3e4, t, None, 5, rec, hints=False)


def cases_weighted(tier):
    for m, size, chunks in [(3, 3, 8), (4, 3, 16), (5, 3, 24)] + ([(4, 4, 64), (5, 4, 128)] if tier != 'quick' else []):
        for k in range(chunks):
            yield [m, size, k, chunks]


def check_weighted(case, rec):
    m, size, k, chunks = case
    L = warp(2, size)
    for j, s in enumerate(itertools.combinations(range(len(L)), m)):
        if j % chunks != k:
            continue
        V = L[list(s)]
        cells = delaunay(V)
        if not len(cells) or len(np.unique(cells)) < m:
            continue
        cells = orient(V, cells)
        rec.state(m, size, s)
        for W in itertools.product([0, 0.3, -0.2], repeat=m):
            W = np.array(W, dtype=float)
            if not W.any():
                continue
            pd, wc = usable(V, cells, W)
            if not pd:
                continue
            check_mesh(V, cells, W, 7, rec, hints=False)
            rec.outcome('weighted mesh')


# --- other dimensions

BCC = [[x, y, z] for x in range(2) for y in range(2) for z in range(2)]


def bcc():
    """tetrahedra of a body centred cubic lattice: two neighbouring centres and an edge of the face between them"""
    V, number, cells = [], {}, []

    def add(p):
        if p not in number:
            number[p] = len(V)
            V.append(p)
        return number[p]
    for axis in range(3):
        a = [1, 1, 1]
        b = [1, 1, 1]
        b[axis] = 3
        face = []
        others = [i for i in range(3) if i != axis]
        for u, v in ((0, 0), (2, 0), (2, 2), (0, 2)):
            p = [0, 0, 0]
            p[axis] = 2
            p[others[0]], p[others[1]] = u, v
            face.append(tuple(p))
        for i in range(4):
            cells.append([add(tuple(a)), add(tuple(b)), add(face[i]), add(face[(i + 1) % 4])])
    return np.array(V, dtype=float), np.array(cells)


def cases_dims(tier):
    big = tier != 'quick'
    for n in range(2, 6 if big else 5):
        yield ['line', n]
    for r in (1, 2, 3) if big else (1, 2):
        yield ['bcc', r]
    yield ['bcc', 12]
    for n in range(1, 6 if big else 5):
        yield ['regular', n]
    for k in range(8 if big else 4):
        yield ['tetrahedra', k, 8 if big else 4]


def check_dims(case, rec):
    if case[0] == 'line':
        n = case[1]
        x = np.array([0, 1.1, 1.7, 3.1, 4.2, 4.9])
        for s in itertools.combinations(range(6), n):
            V = x[list(s)][:, None]
            for r in range(1, n):
                for sub in itertools.combinations(range(n - 1), r):
                    for perm in itertools.permutations(range(r)):
                        cells = np.array([[sub[i], sub[i] + 1] for i in perm])
                        v, t, _ = compact(V, cells)
                        rec.state(s, sub, perm)
                        c, P, some = check_mesh(v, t, None, 17, rec)
                        check_fundamental(c, v, t, P, some, rec)
                        if len(v) <= 4:
                            for W in itertools.product([0, 0.2, -0.1], repeat=len(v)):
                                W = np.array(W, dtype=float)
                                if W.any() and usable(v, t, W)[0]:
                                    check_mesh(v, t, W, 9, rec, hints=False)
                                    rec.outcome('weighted line')
    elif case[0] == 'bcc':
        V, cells = bcc()
        cells = orient(V, cells)
        for sub in itertools.combinations(range(len(cells)), case[1]):
            v, t, _ = compact(V, cells[list(sub)])
            pd, wc = usable(v, t)
            if pd:
                rec.state(sub)
                # disjoint interiors around one centre
                c, P, some = check_mesh(v, t, None, 5, rec, hints=len(t) < 3)
                rec.outcome('3d')
                if wc and len(t) < 3:
                    check_fundamental(c, v, t, P, some, rec)
    elif case[0] == 'regular':
        n = case[1]
        # regular simplex in its own hyperplane
        E = np.eye(n + 1)
        basis = np.linalg.qr((E[1:] - E[0]).T)[0]
        V0 = (E - E.mean(axis=0)) @ basis
        for f in itertools.product([1, 1.15], repeat=n + 1) if n < 4 else [(1,) * (n + 1), (1.1,) + (1,) * n]:
            V = V0 * np.array(f)[:, None] * 2
            t = orient(V, [list(range(n + 1))])
            pd, wc = usable(V, t)
            if pd:
                rec.state(n, f)
                c, P, some = check_mesh(V, t, None, 5 if n < 4 else 3, rec)
                rec.outcome('{}d'.format(n))
                if wc:
                    check_fundamental(c, V, t, P, some, rec)
    elif case[0] == 'tetrahedra':
        L = warp(3, 3)
        for j, s in enumerate(itertools.combinations(range(27), 4)):
            if j % (8 * case[2]) != case[1]:
                continue
            V = L[list(s)]
            if abs(np.linalg.det(V[1:] - V[0])) < 1e-3:
                continue
            t = orient(V, [[0, 1, 2, 3]])
            pd, wc = usable(V, t)
            if pd:
                rec.state(s)
                check_mesh(V, t, None, 4, rec)
                rec.outcome('tetrahedron')


# --- a vertex in the middle

def cases_fan(tier):
    for n in (5, 6, 7):
        for k in range(24 if tier == 'quick' else 96):
            yield [n, k, 24 if tier == 'quick' else 96, 2 if tier == 'quick' else 3]


def check_fan(case, rec):
    n, k, chunks, levels = case
    a = np.arange(n) * 2 * np.pi / n
    radii = [1, 1.13, 0.9][:levels]
    cells = np.array([[0, i + 1, (i + 1) % n + 1] for i in range(n)])
    for j, r in enumerate(itertools.product(radii, repeat=n)):
        if j % chunks != k:
            continue
        for m in ([0, 0], [0.05, 0.02], [-0.03, 0.08]):
            V = np.concatenate([[m], np.stack([np.cos(a) * r, np.sin(a) * r], axis=1)])
            pd, wc = usable(V, cells)
            if pd and wc:
                rec.state(n, r, m)
                c, P, some = check_mesh(V, cells, None, 7, rec, cls=ComplexTriangularEuclidian, hints=False)
                check_fundamental(c, V, cells, P, some, rec)
                rec.outcome('interior vertex')


# --- spheres

def hull(V):
    """facets of the convex hull of points on a sphere, oriented outward; None unless it strictly contains the origin"""
    d = V.shape[1]
    C = np.array(list(itertools.combinations(range(len(V)), d)))
    det = np.linalg.det(V[C])
    C, det = C[np.abs(det) > 1e-6], det[np.abs(det) > 1e-6]
    if not len(C):
        return None
    N = np.linalg.solve(V[C], np.ones(C.shape + (1,)))[..., 0]
    out = N @ V.T - 1
    out[np.arange(len(C))[:, None], C] = -1
    F = C[(out < -1e-6).all(axis=1)]
    if not len(F):
        return None
    # closed surface around the origin: every ridge twice, and every direction covered
    ridges = {}
    for f in F.tolist():
        for r in itertools.combinations(f, d - 1):
            ridges[r] = ridges.get(r, 0) + 1
    if set(ridges.values()) != {2}:
        return None
    return orient(V, F, spherical=True)


def sphere_points(d):
    if d == 2:
        a = np.array([0, 0.7, 1.3, 2.0, 2.5, 3.3, 4.0, 4.4, 5.3, 5.9])
        return np.stack([np.cos(a), np.sin(a)], axis=1)
    if d == 3:
        n = 14
    else:
        n = 9
    k = np.arange(n)
    V = np.stack([np.cos((k + 1) * (1.9 + 1.37 * i) + i * i) for i in range(d)], axis=1)
    return V / np.linalg.norm(V, axis=1, keepdims=True)


def cases_sphere(tier):
    big = tier != 'quick'
    for d, m, chunks in [(2, 3, 4), (2, 4, 8), (3, 4, 16), (3, 5, 32), (3, 6, 32), (4, 6, 8), (4, 7, 8)] + ([(2, 5, 8), (2, 6, 8), (3, 7, 64), (3, 8, 64), (4, 5, 8), (4, 8, 8), (4, 9, 1)] if big else []):
        for k in range(chunks):
            yield [d, m, k, chunks, 0 if big else 1]
    yield [3, 'ico', 0, 1, 0]
    yield [3, 'squeezed', 0, 1, 0]


def check_sphere(case, rec):
    d, m, k, chunks, thin = case
    L = sphere_points(d)
    uneven = [L[s].tolist() for s in UNEVEN] if d == 2 else []      # judged in the space 'uneven'
    done = 0
    if isinstance(m, str):
        from pycomplex import synthetic
        sets = [synthetic.icosphere(1).vertices, synthetic.n_cube_dual(3).vertices]
        if m == 'squeezed':
            q = np.arange(sets[0].size).reshape(sets[0].shape)
            sets = [sets[0] * [1, 1.2, 1.5] + 0.01 * np.sin(q * 3.1), synthetic.n_cube_dual(3).vertices * [1, 2, 3] + 0.1]
        sets = [s / np.linalg.norm(s, axis=1, keepdims=True) for s in sets]
    else:
        sets = (L[list(s)] for j, s in enumerate(itertools.combinations(range(len(L)), m)) if j % chunks == k)
    for V in sets:
        cells = hull(V)
        if cells is None or len(np.unique(cells)) < len(V):
            continue
        cls = {2: ComplexCircular, 3: ComplexSpherical2, 4: ComplexSpherical}[d]
        # neighbouring circumcentres must not cross: own criterion, on the sphere
        c = cls(vertices=V, simplices=cells)
        if not c.is_pairwise_delaunay:
            rec.outcome('not delaunay')
            continue
        rec.state(d, m, V.tolist())
        done += 1
        # from_simplices keeps cells
        require(np.array_equal(np.sort(c.topology.elements[-1], axis=1), np.sort(cells, axis=1)), 'cells')
        c, P, some = check_mesh(V, c.topology.elements[-1], None, 3 if d < 4 else 2, rec, cls=cls, spherical=True, hints=done % 3 == 0)
        rec.outcome('sphere {}d'.format(d))
        if d < 4 and min(b.min() for b in c.primal_barycentric) > 1e-3 and V.tolist() not in uneven:
            F, _ = c.pick_fundamental_precomp
            check_fundamental(c, V, c.topology.elements[-1], P, some, rec, spherical=True)
        if d == 3:
            W = 0.02 * np.cos(np.arange(len(V)) * 2.1)
            cw = cls(vertices=V, simplices=cells, weights=W)
            # a small weight keeps the hull of the lifted points the same
            lifted = V * (1 + W / 2)[:, None]
            h = hull_general(lifted)
            if cw.is_pairwise_delaunay and h == {frozenset(x) for x in cells.tolist()}:
                check_picks(cw, V, cells, W, rec)
                rec.outcome('weighted sphere')


# known findings: see check_uneven
UNEVEN = [[0, 1, 5, 8, 9], [0, 2, 5, 8, 9], [0, 2, 6, 8, 9], [0, 2, 7, 8, 9], [1, 5, 6, 7, 8],
          [0, 1, 5, 7, 8, 9], [0, 2, 3, 5, 8, 9], [0, 2, 3, 6, 8, 9], [0, 2, 4, 5, 8, 9], [0, 2, 4, 6, 8, 9],
          [0, 2, 4, 7, 8, 9], [0, 2, 5, 6, 8, 9], [0, 2, 5, 7, 8, 9], [1, 5, 6, 7, 8, 9]]


def cases_uneven(tier):
    yield from UNEVEN


def check_uneven(case, rec):
    """a mesh of the circle with a very long arc"""
    V = sphere_points(2)[case]
    rec.state(*case)
    c = ComplexCircular(vertices=V, simplices=hull(V))
    require(c.is_pairwise_delaunay, 'harness', 'not delaunay')
    c, P, some = check_mesh(V, c.topology.elements[-1], None, 3, rec, cls=ComplexCircular, spherical=True, hints=True)
    check_fundamental(c, V, c.topology.elements[-1], P, some, rec, spherical=True)


def hull_general(V):
    d = V.shape[1]
    out = set()
    for c in itertools.combinations(range(len(V)), d):
        A = V[list(c)]
        if abs(np.linalg.det(A)) < 1e-9:
            continue
        n = np.linalg.solve(A, np.ones(d))
        o = np.delete(V @ n - 1, list(c))
        if (o < 0).all():
            out.add(frozenset(c))
    return out


def check_picks(c, V, cells, W, rec):
    P = queries(V, cells, 3, True)
    B = baries_of(V, cells, P, True)
    some = (B.min(axis=-1) >= -1e-9).any(axis=1)
    idx, bary = c.pick_primal(P)
    require(B[np.arange(len(P)), idx][some].min() > -TOL, 'pick_primal weighted sphere')
    D = ((P[:, None] - V[None]) ** 2).sum(axis=-1) - W[None]
    d = c.pick_dual(P)
    require((D[np.arange(len(P)), d] <= D.min(axis=1) + 1e-9).all(), 'pick_dual weighted sphere')
    rec.step(2)
    rec.trace(len(P))


SPACES = [
    Space('units', *scales.space(['plane', 'weighted', 'line', 'solid'], scales.pick), 'locations and samples of meshes on 3-4 (5) points of a warped lattice, flat, lifted and weighted, each in seven units from 2^-40 to 2^40', chunk=1, expect=['scaled']),
    Space('arrays', *scales.arrays_space(['plane', 'weighted', 'line', 'solid'], scales.pick), 'locations and samples of the same meshes with whole coordinates, made and asked with the same numbers in arrays of 6 layouts and 8 types of integer', chunk=1, expect=['same']),
    Space('split', cases_split, check_split, 'three meshes in two pieces', chunk=1),
    Space('uneven', cases_uneven, check_uneven, 'a circle with one very long arc', chunk=1),
    Space('planar', cases_planar, check_planar, 'Delaunay triangulations of all 3-5 (thorough: 3-7) point subsets of a warped lattice and their sub-meshes, connected or not', expect=['inside', 'outside', 'mesh'], chunk=2),
    Space('weighted', cases_weighted, check_weighted, 'all 3-5 point subsets of a warped 3x3 (4x4) lattice with all weights from {0, 0.3, -0.2}', expect=['weighted mesh'], chunk=1),
    Space('dims', cases_dims, check_dims, 'all lines on six points with gaps and any numbering, sets of bcc tetrahedra, deformed regular simplices up to 4 (5) d, lattice tetrahedra', expect=['3d', 'well centered', 'weighted line', 'tetrahedron'], chunk=1),
    Space('fan', cases_fan, check_fan, 'fans of 5-7 triangles with every rim radius from 2 (3) values and three centres', expect=['interior vertex'], chunk=2),
    Space('sphere', cases_sphere, check_sphere, 'hulls of all subsets of points on the 1-, 2- and 3-sphere', expect=['sphere 2d', 'sphere 3d', 'sphere 4d', 'well centered', 'weighted sphere'], chunk=1),
    Space('large', large.cases('edges', 'fan', 'tets'), large.check_pick, '40 to 33000 copies of three small complexes: more than 2^15 simplices, edges or vertices', chunk=1, expect=['large']),
]
