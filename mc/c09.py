"""C09: primal and dual metrics, hodges and quality predicates"""
import itertools
import math

import numpy as np

from mc import gen, large, ref, scales, topo
from mc.c02 import oriented
from mc.c08 import embed
from mc.c12 import close, gram
from mc.harness import Space, require
from pycomplex.complex.cubical import ComplexCubical
from pycomplex.complex.regular import ComplexRegular1, ComplexRegular2, ComplexRegular3, ComplexRegular4
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
from pycomplex.topology.cubical import TopologyCubical
from pycomplex.topology.simplicial import TopologySimplicial, TopologyTriangular

PROPERTY = 'C09'
ASSUMPTIONS = ['face lattices are correct (C01)', 'the reference computes every fundamental domain separately as a signed orthoscheme in floating point']


def centre(P, W):
    """circumcentre (power centre) of simplices [n, k+1, m] and its barycentric coordinates"""
    n, k1, m = P.shape
    if k1 == 1:
        return P[:, 0], np.ones((n, 1))
    E = P[:, 1:] - P[:, :1]
    G = E @ np.swapaxes(E, 1, 2)
    rhs = ((E ** 2).sum(axis=-1) - (W[:, 1:] - W[:, :1])) / 2
    lam = np.linalg.solve(G, rhs[..., None])[..., 0]
    bary = np.concatenate([1 - lam.sum(axis=1, keepdims=True), lam], axis=1)
    return np.einsum('nk,nkm->nm', bary, P), bary


def reference(cells, n_elements, index, V, W=None):
    """metrics from signed orthoschemes. cells: [n, N+1]; index[k]: frozenset -> number of the k-element"""
    cells = np.asarray(cells)
    N = cells.shape[1] - 1
    W = np.zeros(len(V)) if W is None else W
    P = V[cells]
    w = W[cells]
    PM = [np.zeros(n) for n in n_elements]
    DM = [np.zeros(n) for n in n_elements[::-1]]
    above = [np.zeros(n) for n in n_elements]
    bary_min = np.inf
    heights = np.zeros((len(cells), N + 1))
    for p in itertools.permutations(range(N + 1)):
        C, H = [], [np.ones(len(cells))]
        for k in range(N + 1):
            c, b = centre(P[:, p[:k + 1]], w[:, p[:k + 1]])
            C.append(c)
            if k:
                H.append(np.linalg.norm(C[k] - C[k - 1], axis=1) * np.sign(b[:, k]))
                bary_min = min(bary_min, (b[:, k]).min())
        heights[:, p[-1]] = H[-1]
        for k in range(N + 1):
            idx = [index[k][frozenset(c)] for c in cells[:, list(p[:k + 1])].tolist()]
            low = np.prod(H[1:k + 1], axis=0) / math.factorial(k) if k else np.ones(len(cells))
            high = np.prod(H[k + 1:], axis=0) / math.factorial(N - k) if k < N else np.ones(len(cells))
            np.add.at(PM[k], idx, low)
            # every chain above the k-element is met once for every chain of faces below it
            np.add.at(DM[N - k], idx, high / math.factorial(k + 1))
            np.add.at(above[k], idx, 1. / math.factorial(k + 1))
    for k in range(N + 1):
        PM[k] /= above[k]
    PM[0][:] = 1
    DM[0][:] = 1
    return PM, DM, heights, bary_min


def index_of(t):
    m = topo.model_of(t)
    cells = [m.cells(np.asarray(e)) for e in t.elements]
    return [{frozenset(c): i for i, c in enumerate(cs)} for cs in cells]


def judge(c, V, W, rec, tol, scale=1.):
    """compare all metrics of the complex c with the reference at vertex positions V (c may be moved and scaled)"""
    t = c.topology
    N = t.n_dim
    index = index_of(t)
    cells = np.asarray(t.elements[-1]).reshape(t.n_elements[-1], -1)
    PM, DM, heights, bary_min = reference(cells, t.n_elements, index, V, W)
    P, D = c.primal_metric, c.dual_metric
    rec.step(2)
    require(len(P) == N + 1 and len(D) == N + 1, 'count', 'number of metrics')
    for k in range(N + 1):
        sp = max(1e-12, np.abs(PM[k]).max())
        sd = max(1e-12, np.abs(DM[k]).max())
        close(np.asarray(P[k]) / scale ** k, PM[k], tol, 'primal_{}'.format('top' if k == N else 'lower'), 'primal {}-metric'.format(k), sp)
        close(np.asarray(D[k]) / scale ** k, DM[k], tol, 'dual_{}'.format('top' if k == N else 'lower'), 'dual {}-metric'.format(k), sd)
    # volumes
    for k in range(1, N + 1):
        e = np.asarray(t.corners[k])
        G = gram(V[e]) if V.dtype.kind == 'i' else None
        if G is not None:
            close(np.asarray(P[k]) / scale ** k, np.sqrt(np.maximum(0, G).astype(float)) / math.factorial(k), max(tol, 1e-8), 'primal_volume',
                  'primal {}-metric is not the volume of the elements'.format(k), np.sqrt(max(1, G.max())))
    close(P[N].sum(), D[N].sum(), 1e-8, 'partition', 'dual cells do not add up to the primal cells', max(P[N].sum(), np.abs(D[N]).sum()))
    for k in range(N + 1):
        d = np.asarray(D[N - k])
        ok = np.abs(d) > 1e-6 * np.abs(d).max()
        close(np.asarray(c.hodge_DP[k]), d / P[k], 1e-9, 'hodge_DP', 'hodge', max(1e-300, np.abs(d / P[k]).max()))
        close(np.asarray(c.hodge_PD[k])[ok], (P[k] / d)[ok], 1e-9, 'hodge_PD', 'hodge')
    # predicates, where they are not decided by roundoff
    size = np.abs(heights).max()
    edges = np.zeros(t.n_elements[N - 1])
    np.add.at(edges, np.array([[index[N - 1][frozenset(np.delete(cell, i).tolist())] for i in range(N + 1)] for cell in cells]), heights)
    if np.abs(edges).min() > 1e-7 * size:
        require(bool(c.is_pairwise_delaunay) == bool((edges > 0).all()), 'is_pairwise_delaunay', lambda: 'is_pairwise_delaunay is {}, dual edges {}'.format(c.is_pairwise_delaunay, edges.min()))
        rec.outcome('delaunay' if (edges > 0).all() else 'not delaunay')
    if abs(bary_min) > 1e-7:
        require(bool(c.is_well_centered) == bool(bary_min > 0), 'is_well_centered', lambda: 'is_well_centered is {}, least coordinate {}'.format(c.is_well_centered, bary_min))
        rec.outcome('centered' if bary_min > 0 else 'not centered')
    least = min((d / max(1e-300, np.abs(d).max())).min() for d in DM)
    if abs(least) > 1e-7:
        require(bool(c.positive_dual_metric) == bool(least > 0), 'positive_dual_metric', 'positive_dual_metric')
    # dual metric including the boundary
    closed = c.dual_metric_closed
    rec.step()
    b = t.boundary
    if b is None:
        for k in range(N + 1):
            close(closed[k], D[k], 0, 'closed', 'closed dual metric of a closed complex', 1)
    else:
        require([len(x) for x in closed] == list(t.dual.n_elements), 'closed_count', lambda: 'closed dual metric {} for a dual with {}'.format([len(x) for x in closed], t.dual.n_elements))
        idx = [np.asarray(i) for i in b.parent_idx]
        bi = index_of(b)
        bcells = np.asarray(b.elements[-1]).reshape(b.n_elements[-1], -1)
        bw = None if W is None else W[idx[0]]
        _, BD, _, _ = reference(bcells, b.n_elements, bi, V[idx[0]], bw)
        for k in range(N + 1):
            want = np.concatenate([DM[k]] + ([BD[k]] if k < N else []))
            close(np.asarray(closed[k]) / scale ** k, want, tol, 'closed', 'dual {}-metric with boundary'.format(k), max(1e-12, np.abs(want).max()))
        rec.outcome('boundary')
    rec.trace()


def simplicial(cells, V, W=None, two=False):
    if two:
        return ComplexTriangularEuclidian(vertices=V, topology=TopologyTriangular.from_simplices(np.array(cells)), weights=W)
    return ComplexSimplicialEuclidian(vertices=V, topology=TopologySimplicial.from_simplices(np.array(cells)), weights=W)


def degenerate(cells, V):
    return (gram(V[np.array(cells)]) <= 0).any()


def check_lattice(case, rec):
    """all embeddings of one abstract complex in a lattice, as a disjoint union per chunk; first vertex positions fixed by chunk"""
    cells, dim, size, chunk, n_chunks, weights, scale, offset = case
    n = max(v for c in cells for v in c) + 1
    L = np.array(list(itertools.product(range(size), repeat=dim)), dtype=np.int64)
    total = len(L) ** n
    N = len(cells[0]) - 1
    V, C = [], []
    for e in range(chunk, total, n_chunks):
        digits = []
        r = e
        for _ in range(n):
            digits.append(r % len(L))
            r //= len(L)
        v = L[digits]
        if degenerate(cells, v):
            continue
        rec.state(cells, dim, size, e, weights, scale, offset)
        C += (np.array(cells) + len(V) * n).tolist()
        V.append(v)
    if not V:
        return
    copies = len(V)
    V = np.concatenate(V)
    W = None
    if weights is not None:
        W = np.array([weights[(i // n * 5 + i % n * i + i // 3) % len(weights)] for i in range(len(V))], dtype=float)
    X = V * scale + offset * scale
    c = simplicial(C, X, None if W is None else W * scale ** 2, two=N == 2)
    judge(c, V, W, rec, 1e-6, scale)
    rec.trace(copies - 1)
    if N == 2 and W is None:
        triangles(c, V, rec, scale)


def triangles(c, V, rec, scale):
    """triangle specific shortcuts"""
    t = c.topology
    P, D = c.primal_metric, c.dual_metric
    close(c.compute_triangle_areas, P[2], 1e-6, 'triangle_areas', 'areas of triangles', P[2].max())
    r = c.compute_edge_ratio
    h = np.asarray(c.hodge_DP[1])
    close(r, h, 1e-6, 'edge_ratio', 'cotangent formula', max(1, np.abs(h).max()))
    a = np.zeros(t.n_elements[0])
    np.add.at(a, np.asarray(t.elements[2]), np.repeat(P[2][:, None] / 3, 3, axis=1))
    close(c.compute_vertex_areas, a, 1e-6, 'vertex_areas', 'barycentric vertex areas', a.max())
    close(c.compute_triangle_angles.sum(axis=1), np.full(t.n_elements[2], np.pi), 1e-7, 'angles', 'angles of a triangle', 1)
    rec.step(4)


def check_catalogue(case, rec):
    cells, dim, which, weights, scale, offset = case
    n = max(v for c in cells for v in c) + 1
    N = len(cells[0]) - 1
    V = None
    i = np.arange(n)[:, None]
    j = np.arange(dim)[None, :]
    for salt in range(which * 20, which * 20 + 20):
        X = ((i * i * (3 * j + 7 + salt) + i * (5 * j + 1) * (salt + 2) + j * salt) % 23).astype(np.int64)
        if not degenerate(cells, X) and gram(X[np.array(cells)]).min() > 20:
            V = X
            break
    if V is None:
        rec.outcome('no embedding')
        return
    W = None if weights is None else np.array([weights[(k * 7 + k // 2) % len(weights)] for k in range(n)], dtype=float)
    rec.state(cells, dim, which, weights, scale, offset)
    c = simplicial(cells, V * scale + offset * scale, None if W is None else W * scale ** 2, two=N == 2)
    if not ref.orientation_model(topo.model('s', cells))['orientable']:
        rec.outcome('not oriented')
        try:
            c.metric
        except (AssertionError, ValueError):
            return
        require(False, 'unoriented', 'a metric was computed for a complex that is not oriented')
    judge(c, V, W, rec, 1e-6, scale)
    if N == 2 and W is None:
        triangles(c, V, rec, scale)


# ---------------------------------------------------------------- regular

def regular_reference(t, V):
    """primal and dual metrics of axis aligned cubes"""
    m = topo.model_of(t)
    N = t.n_dim
    cells = [m.cells(np.asarray(e)) for e in t.elements]
    lo = [np.array([V[list(c)].min(axis=0) for c in cs]) for cs in cells]
    hi = [np.array([V[list(c)].max(axis=0) for c in cs]) for cs in cells]
    PM = [np.array([np.prod([x for x in (h - l) if x > 1e-12]) if k else 1. for l, h in zip(lo[k], hi[k])]) for k in range(N + 1)]
    DM = [np.zeros(n) for n in t.n_elements[::-1]]
    DM[0][:] = 1
    tops = [set(c) for c in cells[N]]
    for k in range(N):
        for i, c in enumerate(cells[k]):
            for T, tc in enumerate(tops):
                if set(c) <= tc:
                    size = (hi[N][T] - lo[N][T])
                    flat = (hi[k][i] - lo[k][i]) <= 1e-12
                    used = size > 1e-12
                    DM[N - k][i] += np.prod(size[flat & used] / 2)
    return PM, DM


def check_regular(case, rec):
    cells, coords, dim = case
    n = max(v for c in cells for v in c) + 1
    V = np.array(coords, dtype=float)
    t = TopologyCubical.from_cubes(np.array(cells).reshape((-1,) + (2,) * dim))
    base = ComplexCubical(vertices=V, topology=t)
    c = {1: lambda: base.as_11().as_regular(), 2: lambda: base.as_22().as_regular(), 3: lambda: base.as_33().as_regular(), 4: lambda: base.as_44().as_regular()}[dim]()
    require(type(c) is {1: ComplexRegular1, 2: ComplexRegular2, 3: ComplexRegular3, 4: ComplexRegular4}[dim], 'type', 'as_regular')
    PM, DM = regular_reference(t, V)
    rec.state(case)
    rec.step(3)
    for k in range(dim + 1):
        close(c.primal_metric[k], PM[k], 1e-9, 'regular_primal', 'primal {}-metric'.format(k))
        close(c.dual_metric[k], DM[k], 1e-9, 'regular_dual', 'dual {}-metric'.format(k))
        close(c.hodge_DP[k], DM[dim - k] / PM[k], 1e-9, 'regular_hodge', 'hodge')
        close(c.hodge_PD[k], PM[k] / DM[dim - k], 1e-9, 'regular_hodge', 'hodge')
    require(c.is_well_centered and c.is_pairwise_delaunay and c.positive_dual_metric, 'regular_predicates', 'predicates')
    closed = c.dual_metric_closed
    b = t.boundary
    require([len(x) for x in closed] == list(t.dual.n_elements), 'regular_closed_count', 'number of closed dual metrics')
    BP, BD = regular_reference(b, V[np.asarray(b.parent_idx[0])])
    for k in range(dim + 1):
        want = np.concatenate([DM[k]] + ([BD[k]] if k < dim else []))
        close(closed[k], want, 1e-9, 'regular_closed', 'dual {}-metric with boundary'.format(k))
    for k in range(dim):
        close(c.boundary.primal_metric[k], BP[k], 1e-9, 'regular_boundary_primal', 'primal {}-metric of the boundary'.format(k))
    # primal positions, dual positions
    for k, e in enumerate(t.corners):
        close(c.primal_position[k], V[np.asarray(e)].mean(axis=1), 1e-12, 'regular_position', 'positions', 1 + np.abs(V).max())
    pp = c.primal_position
    dp = c.dual_position
    for k in range(dim + 1):
        want = [pp[dim - k]]
        if k < dim:
            want.append(pp[dim - 1 - k][np.asarray(b.parent_idx[dim - 1 - k])])
        close(dp[k], np.concatenate(want), 1e-12, 'regular_dual_position', 'dual positions', 1 + np.abs(V).max())
    rec.trace()


def cases_regular(tier):
    big = tier != 'quick'
    spacings = [[0, 1, 2, 3, 4], [0, 1, 3, 3.5, 7], [-10, 2, 2.25, 9, 9.5]]
    shapes = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 2), (2, 3), (1, 1, 1), (1, 1, 2), (1, 2, 2), (1, 1, 1, 1), (2, 1, 1, 1)]
    if big:
        shapes += [(4,), (3, 3), (2, 2, 2), (2, 2, 1, 1)]
    for shape in shapes:
        cells = gen.grid_cubes(shape)
        dim = len(shape)
        if len(cells) <= (6 if not big else 9):
            subsets = [s for r in range(1, len(cells) + 1) for s in itertools.combinations(range(len(cells)), r)]
        else:
            subsets = [tuple(range(len(cells)))]
        grid = list(itertools.product(*[range(s + 1) for s in shape]))
        for sub in subsets:
            chosen = [cells[i] for i in sub]
            used = sorted({v for c in chosen for v in c})
            m = {v: i for i, v in enumerate(used)}
            comp = [[m[v] for v in c] for c in chosen]
            for s in (range(len(spacings)) if len(sub) > 1 or big else (1,)):
                coords = [[spacings[(s + a) % 3][grid[v][a]] for a in range(dim)] for v in used]
                yield [comp, coords, dim]


FANS = {
    'interior': [[0, 1, 2], [0, 2, 3], [0, 3, 1]],
    'pair': [[0, 1, 2], [2, 1, 3]],
    'sphere': [[0, 1, 2], [0, 2, 3], [0, 3, 1], [3, 2, 1]],
}


def cases_lattice(tier):
    big = tier != 'quick'
    plain = [(None, 1, 0)]
    moved = [(None, 1, 0), (None, 1e-3, 100), (None, 1e4, 0)]
    weighted = [([0, 0.5, 1, -0.5], 1, 0), ([0, 3, -2], 1, 0)]
    spec = [
        ([[0, 1]], 1, 5, 1, moved + weighted), ([[0, 1], [1, 2]], 2, 3, 4, moved + weighted),
        ([[0, 1, 2]], 2, 4, 16, moved + weighted), ([[0, 1, 2]], 3, 2, 4, moved + weighted),
        (FANS['pair'], 2, 3, 48, moved + weighted), (FANS['interior'], 2, 3, 48, plain + weighted), (FANS['sphere'], 3, 2, 48, plain + weighted[:1]),
        ([[0, 1, 2, 3]], 3, 2, 48, moved + weighted),
    ]
    if big:
        spec += [([[0, 1, 2]], 2, 5, 64, moved + weighted), ([[0, 1, 2]], 3, 3, 128, moved + weighted), (FANS['pair'], 2, 4, 512, plain + weighted), (FANS['pair'], 3, 2, 64, moved + weighted),
                 (FANS['interior'], 2, 4, 512, plain), (gen.simplex_boundary(4)[:2], 3, 2, 512, plain)]
    # one embedding per case, so that the predicates are decided for every single one
    spec += [([[0, 1, 2]], 2, 3, 9 ** 3, plain + weighted), (FANS['pair'], 2, 3, 9 ** 4, plain + (weighted if big else [])), ([[0, 1, 2, 3]], 3, 2, 8 ** 4, plain)]
    for cells, dim, size, chunks, variants in spec:
        for w, s, o in variants:
            for k in range(chunks):
                yield [oriented('s', cells), dim, size, k, chunks, w, s, o]


def cases_catalogue(tier):
    big = tier != 'quick'
    variants = [(None, 1, 0), (None, 1e-3, 100), ([0, 2, -3, 5], 1, 0), ([0, 40, -30], 1, 10)]
    for kind, cells in gen.base_complexes('quick'):
        N = len(cells[0]) - 1
        if kind != 's' or N > 4 or len(cells) > (24 if N < 3 else 16 if N < 4 else 6):
            continue
        cells = oriented('s', cells)
        for dim in range(N, N + (2 if N < 4 else 1) + (1 if big else 0)):
            for which in range(1 if not big else 4):
                for w, s, o in variants:
                    yield [cells, dim, which, w, s, o]


SPACES = [
    Space('units', *scales.space(['plane', 'weighted', 'surface', 'line', 'solid', 'closed', 'regular'], scales.metric), 'measures of meshes on 3-4 (5) points of a warped lattice, flat, lifted and weighted, closed surfaces, regular grids, each in seven units from 2^-40 to 2^40', chunk=1, expect=['scaled']),
    Space('arrays', *scales.arrays_space(['plane', 'weighted', 'surface', 'line', 'solid', 'closed', 'regular'], scales.metric), 'measures of the same meshes with whole coordinates, made and asked with the same numbers in arrays of 6 layouts and 8 types of integer', chunk=1, expect=['same']),
    Space('lattice', cases_lattice, check_lattice, 'all embeddings of single simplices, pairs, fans and spheres of triangles on lattices of 2-5 points per axis; scaled, moved, weighted',
          expect=['delaunay', 'not delaunay', 'centered', 'not centered', 'boundary']),
    Space('catalogue', cases_catalogue, check_catalogue, 'every simplicial catalogue complex of dimension <=4 in dimension N..N+1; scaled, moved, weighted', chunk=4, expect=['boundary', 'not delaunay', 'not oriented']),
    Space('regular', cases_regular, check_regular, 'all subsets of small grids in 1-4 d with three spacings', chunk=4),
    Space('large', large.cases('edges', 'fan', 'tets', 'quads', 'hex'), large.check_metric, '40 to 33000 copies of five small complexes: more than 2^15 elements of every kind', chunk=1, expect=['large']),
]
