"""C22: vertex weights: excess of the dual edges, choice of weights, remapping to vertices and faces"""
import itertools

import numpy as np

from mc import gen, large, scales, topo
from mc.c08 import embed
from mc.c09 import centre, index_of, reference
from mc.c10 import baries_of, compact, delaunay, homogeneous, hull, orient, queries, sphere_points, usable, warp
from mc.c12 import gram
from mc.c20 import moved, unit
from mc.harness import Space, require
from pycomplex import synthetic
from pycomplex.complex.regular import ComplexRegular1, ComplexRegular2, ComplexRegular3
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3
from pycomplex.complex.simplicial.spherical import ComplexCircular, ComplexSpherical, ComplexSpherical2
from pycomplex.topology.simplicial import TopologySimplicial

PROPERTY = 'C22'
ASSUMPTIONS = ['face lattices are correct (C01); weights are compared to 1e-8 of the largest squared edge',
               'simplices with an aspect beyond 300 are left out: their circumcentre is taken in their plane by design',
               'improvement is judged by the slope of the objective in the direction of the weights (central difference, to 1e-6)']


def close(a, b, scale, tag, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, tag + ' shape', lambda: '{} instead of {}'.format(a.shape, b.shape))
    if a.size:
        i = np.abs(a - b).argmax()
        require(np.isfinite(a).all() and np.abs(a - b).max() <= tol * max(scale, 1e-12), tag, lambda: '{} instead of {}'.format(a.ravel()[i], b.ravel()[i]))


def excess(V, cells, W=None, place=lambda x: x):
    """[cell, corner]: squared distance of the circumcentre to that of the face opposite the corner, negative beyond that face;
    and the signed coordinate that decides it"""
    W = np.zeros(len(V)) if W is None else W
    C, b = centre(V[cells], W[cells])
    out = np.zeros(cells.shape)
    for i in range(cells.shape[1]):
        f = np.delete(cells, i, axis=1)
        F, _ = centre(V[f], W[f])
        out[:, i] = ((place(C) - place(F)) ** 2).sum(axis=1) * np.sign(b[:, i])
    # an edge lists its own ends
    return (out[:, ::-1], b[:, ::-1]) if cells.shape[1] == 2 else (out, b)


def to_vertices(V, cells, field):
    out = np.zeros(len(V))
    for c, r in zip(cells.tolist(), field):
        for v, x in zip(c, r):
            out[v] += x
    return out


def balanced(V, cells, place=lambda x: x):
    """weights by excess"""
    e, _ = excess(V, cells, None, place)
    mean = to_vertices(V, cells, e) / to_vertices(V, cells, np.ones(cells.shape))
    return mean - mean.mean()


def central(V, cells, place=lambda x: x):
    """weights by the distance of circumcentres to barycentres; None where the system has no diagonal"""
    N = cells.shape[1] - 1
    C, _ = centre(V[cells], np.zeros(cells.shape))
    C = place(C)
    field = np.zeros(cells.shape)
    for n, c in enumerate(cells):
        P = V[c]
        mid = P.mean(axis=0)
        for i in range(N + 1):
            f = np.delete(P, i, axis=0)
            # direction from the face to the corner
            E = f[1:] - f[:1]
            h = P[i] - f[0]
            if len(E):
                h = h - np.linalg.lstsq(E.T, h, rcond=None)[0] @ E
            size = np.sqrt(max(0, np.linalg.det(E @ E.T))) / np.prod(range(1, N)) if N > 1 else 1.
            field[n, i] = (C[n] - mid) @ (h / np.linalg.norm(h)) * size
    rhs = to_vertices(V, cells, field)
    rhs = rhs - rhs.mean()
    edges = sorted({frozenset(e) for c in cells.tolist() for e in itertools.combinations(c, 2)}, key=sorted)
    index = [{frozenset(f): i for i, f in enumerate(sorted({frozenset(f) for c in cells.tolist() for f in itertools.combinations(c, k + 1)}, key=sorted))} for k in range(N + 1)]
    PM, DM, _, _ = reference(cells, [len(i) for i in index], index, V)
    diag = np.zeros(len(V))
    for e, i in index[1].items():
        for v in e:
            diag[v] += DM[N - 1][i] / PM[1][i]
    if np.abs(diag).min() < 1e-6 * np.abs(diag).max():
        return None
    return rhs / diag, diag.min() > 0


def thin(V, cells):
    """circumcentres of flat simplices are taken within their plane, from an aspect of a thousand"""
    X = V[cells] - V[cells].mean(axis=1, keepdims=True)
    s = np.linalg.svd(X, compute_uv=False)[:, cells.shape[1] - 2]
    return (s < 3e-3 * np.abs(X).max(axis=(1, 2))).any()


def spread(V, cells, W):
    return excess(V, cells, W)[0].var()


def decentred(V, cells, W):
    C, _ = centre(V[cells], W[cells])
    X = V[cells][:, 1:] - V[cells][:, :1]
    volume = np.sqrt(np.abs(np.linalg.det(X @ np.swapaxes(X, 1, 2))))
    return (((C - V[cells].mean(axis=1)) ** 2).sum(axis=1) * volume).sum()


def turned(d):
    """a rotation"""
    Q = np.eye(d)
    for i, j in itertools.combinations(range(d), 2):
        a = 0.7 + 0.3 * i + 0.9 * j
        R = np.eye(d)
        R[[i, i, j, j], [i, j, i, j]] = np.cos(a), -np.sin(a), np.sin(a), np.cos(a)
        Q = Q @ R
    return Q


def check_mesh(make, V, cells, rec, place=None, weights=True, pd=False, surface=False):
    """make(vertices, cells, weights) -> complex"""
    sphere = place is not None
    place = place or (lambda x: x)
    N = cells.shape[1] - 1
    c = make(V, cells, None)
    t = c.topology
    cells = np.asarray(t.elements[-1])
    L2 = ((V[cells][:, :, None] - V[cells][:, None]) ** 2).sum(axis=-1).max()
    rec.step(3)
    # fields on the sides of the cells
    e, b = excess(V, cells, None, place)
    clear = np.abs(b) > 1e-7
    own = np.where(clear, e, 0)
    got = np.asarray(c.dual_edge_excess())
    require(got.shape == cells.shape, 'dual_edge_excess shape')
    # thin cells have their centre far away
    close(np.where(clear, got, 0), own, max(L2, np.abs(e).max()), 'dual_edge_excess')
    close(c.dual_edge_excess(signed=False), np.abs(e), max(L2, np.abs(e).max()), 'dual_edge_excess unsigned')
    field = np.cos(np.arange(cells.size) * 1.7 + 0.3).reshape(cells.shape)
    keep = field.copy()
    close(c.remap_boundary_0(field), to_vertices(V, cells, field), 1, 'remap_boundary_0')
    plain = np.zeros(t.n_elements[N - 1])
    signed = plain.copy()
    index = index_of(t)
    T = t.matrices[-1].toarray() if N > 1 else t.matrices[0].toarray()
    for i, cell in enumerate(cells.tolist()):
        for k in range(N + 1):
            # an edge lists its ends, other cells the face opposite each corner
            f = index[N - 1][frozenset([cell[k]] if N == 1 else cell[:k] + cell[k + 1:])]
            plain[f] += field[i, k]
            signed[f] += field[i, k] * T[f, i]
    close(c.remap_boundary_N(field, oriented=False), plain, 1, 'remap_boundary_N')
    close(c.remap_boundary_N(field), signed, 1, 'remap_boundary_N oriented')
    require(np.array_equal(field, keep), 'remap changes its argument')
    if not clear.all():
        rec.outcome('right angle')
    # choice of weights
    keep = c.vertices.copy()
    results = {}
    for name, want in (('optimize_weights', balanced(V, cells, place) if clear.all() else None), ('optimize_weights_metric', central(V, cells, place))):
        rec.step()
        down = False
        if name == 'optimize_weights_metric' and want is not None:
            want, down = want
        if want is None:
            rec.outcome('undecided')
            continue
        new = getattr(c, name)()
        require(type(new) is type(c) and new.topology is c.topology, name + ' type')
        require(np.array_equal(new.vertices, keep) and np.array_equal(c.vertices, keep), name + ' moves vertices')
        require(c.weights is None, name + ' changes its source')
        size = max(L2, np.abs(want).max())
        close(new.weights, want, size, name)
        results[name] = want
        if np.abs(want).max() > 1e-9 * L2:
            rec.outcome(name)
        else:
            rec.outcome('balanced')
        if not sphere and np.abs(want).max() > 1e-6 * L2:
            J = {'optimize_weights': spread if pd and N < 3 else None, 'optimize_weights_metric': decentred if down else None}[name]
            if J is not None:
                w = want / np.abs(want).max()
                h = 1e-5 * L2
                slope = (J(V, cells, h * w) - J(V, cells, -h * w)) / 2 / h
                size = J(V, cells, 0 * w) / L2 + 1e-3
                require(slope <= 1e-6 * size, name + ' makes it worse', lambda: '{} {}'.format(slope, size))
                rec.outcome('improved ' + name)
        # weights are chosen once
        for again in ('optimize_weights', 'optimize_weights_metric'):
            try:
                getattr(new, again)()
                require(False, 'weights chosen twice')
            except AssertionError:
                pass
        # the weighted complex uses them
        we, wb = excess(V, cells, want, place)
        ok = np.abs(wb) > 1e-6
        close(np.where(ok, new.dual_edge_excess(), 0), np.where(ok, we, 0), max(L2, np.abs(we).max()), 'dual_edge_excess of the result', 1e-6)
    rec.trace()
    return c, results


def check_symmetry(make, V, cells, results, rec, free=True):
    """other numbering, position and size: the same weights"""
    n = len(V)
    order = np.roll(np.arange(n)[::-1], 2)      # new vertex i is old vertex order[i]
    inverse = np.argsort(order)
    d = V.shape[1]
    Q = turned(d)
    variants = [('numbering', make(V[order], inverse[cells][::-1], None), 1, order), ('rotation', make(V @ Q.T, cells, None), 1, np.arange(n))]
    if free:
        variants += [('shift', make(V + np.cos(np.arange(d)), cells, None), 1, np.arange(n)), ('size', make(V * 2.5, cells, None), 2.5 ** 2, np.arange(n))]
    for what, c, f, o in variants:
        for name, w in results.items():
            close(getattr(c, name)().weights / f, w[o], max(np.abs(w).max(), ((V.max(axis=0) - V.min(axis=0)) ** 2).sum()), name + ' under another ' + what, 1e-7)
    rec.step(len(variants) * len(results))


def check_fundamental(c, rec, V):
    """weights for a mesh of fundamental domains"""
    t = c.topology
    for f in [c.subdivide_fundamental(oriented=o) for o in (True, False)] if isinstance(t, TopologySimplicial) else [c.subdivide_fundamental()]:
        if f.weights is not None:
            return
        new = f.optimize_weights_fundamental()
        rec.step()
        want = np.zeros(len(f.vertices))
        total = np.zeros((len(f.vertices), 2))
        X = f.vertices
        curved = isinstance(f, ComplexSpherical) or isinstance(f, ComplexCircular)
        edges = {frozenset(e) for s in np.asarray(f.topology.elements[-1]).tolist() for e in itertools.combinations(s, 2)}
        for e in edges:
            a, b = sorted(e)
            l2 = ((X[a] - X[b]) ** 2).sum()
            if curved:
                l2 = (2 * np.arcsin(np.sqrt(l2) / 2)) ** 2
            for v in e:
                total[v] += l2, 1
        n = t.n_elements[0]
        want[:n] = total[:n, 0] / total[:n, 1] / 4
        close(new.weights, want, want.max(), 'optimize_weights_fundamental', 1e-6)
        require(np.array_equal(new.vertices, f.vertices) and f.weights is None, 'optimize_weights_fundamental changes its source')
        try:
            new.optimize_weights_fundamental()
            require(False, 'fundamental weights chosen twice')
        except AssertionError:
            pass
        rec.outcome('fundamental')
        if t.n_dim == 2 and not curved:
            # the circumcentre of a right triangle moves inside
            q = np.asarray(f.topology.elements[-1])
            E = np.array([[np.sort(((X[s] - X[v]) ** 2).sum(axis=1))[1] for v in s if v < n] for s in q]).ravel()
            top = np.array([[v for v in s if v < n][0] for s in q.tolist()])
            if (want[top] < 0.9 * E).all() and right_angled(X, q, n):
                b = min(centre(X[q][:, list(k)], new.weights[q][:, list(k)])[1].min() for r in (2, 3) for k in itertools.combinations(range(3), r))
                require(b > 0 and bool(new.is_well_centered), 'fundamental domains are not well centered')
                rec.outcome('well centered')


def right_angled(X, q, n):
    """every triangle has its right angle at the vertex between"""
    for s in X[q]:
        l2 = np.array([((s[i] - s[j]) ** 2).sum() for i, j in ((0, 1), (1, 2), (0, 2))])
        if abs(2 * l2.max() - l2.sum()) > 1e-9 * l2.max() or l2.min() < 1e-6 * l2.max():
            return False
    return True


def check_brute(c, V, cells, rec, size, spherical=False):
    """exhaustive search for a simplex, on the complex itself"""
    P = queries(V, cells, size, spherical)
    B = baries_of(V, cells, P, spherical)
    some = (B.min(axis=-1) >= -1e-9).any(axis=1)
    i = np.asarray(c.pick_primal_brute(P))
    require(i.shape == (len(P),), 'pick_primal_brute shape')
    bad = some & (B[np.arange(len(P)), i].min(axis=1) < -1e-6)
    require(not bad.any(), 'pick_primal_brute', lambda: '{} not in {}'.format(P[bad][0], i[bad][0]))
    rec.step()


def check_lifting(c, V, rec):
    """distance to a lifted vertex is the power of a point, up to a constant"""
    for k in range(3):
        w = np.cos(np.arange(len(V)) * (1.1 + k)) * (k or 0.01)
        h = np.asarray(c.weights_to_offsets(w))
        require(h.shape == w.shape and (h >= 0).all() and h.min() == 0, 'weights_to_offsets')
        close(h ** 2 + w, np.full(len(w), w.max()), 1 + np.abs(w).max(), 'weights_to_offsets')
        close(c.augment(V, w), np.concatenate([V, np.sqrt(np.maximum(0, w.max() - w))[:, None]], axis=1), np.abs(V).max() + 1, 'augment')
    close(c.augment(V), np.concatenate([V, np.zeros((len(V), 1))], axis=1), np.abs(V).max() + 1, 'augment without weights')
    rec.step(4)


def lift(V, kind):
    return V if kind == 0 else np.concatenate([V, (0.3 * V[:, :1] + 0.17 * V[:, 1:2])], axis=1) if kind == 1 else np.concatenate([V, 0.3 * np.sin(np.arange(len(V)) * 1.9)[:, None]], axis=1)


# --- planar

def cases_planar(tier):
    for size, m, chunks in [(3, 3, 1), (3, 4, 2), (3, 5, 4), (3, 6, 4), (4, 4, 8)] + ([(3, 7, 4), (3, 8, 1), (3, 9, 1), (4, 3, 2), (4, 5, 40), (4, 6, 80)] if tier != 'quick' else []):
        for k in range(chunks):
            yield [size, m, k, chunks]


def check_planar(case, rec):
    size, m, k, chunks = case
    L = warp(2, size)
    for j, s in enumerate(itertools.combinations(range(len(L)), m)):
        if j % chunks != k:
            continue
        V = L[list(s)]
        cells = delaunay(V)
        if not len(cells) or len(np.unique(cells)) < m:
            continue
        cells = orient(V, cells)
        subs = [range(len(cells))] + [[i for i in range(len(cells)) if i != x] for x in range(len(cells)) if len(cells) > 1]
        for n, sub in enumerate(subs):
            v, q, _ = compact(V, cells[list(sub)])
            q = np.array([np.roll(x, (j + n) * i % 3) for i, x in enumerate(q)])
            if (j + n) % 3 == 1:
                q = q[:, ::-1]
            if thin(v, q):
                continue
            pd, wc = usable(v, q)
            rec.state(v.tolist(), q.tolist())
            classes = [ComplexSimplicialEuclidian, ComplexTriangularEuclidian2]
            cls = classes[(j + n) % 2]

            def make(v, q, w, cls=cls):
                return cls(vertices=v, simplices=q, weights=w) if cls is ComplexSimplicialEuclidian else cls(vertices=v, triangles=q, weights=w)
            c, results = check_mesh(make, v, q, rec, pd=pd)
            check_symmetry(make, v, q, results, rec)
            check_brute(c, v, q, rec, 5)
            check_lifting(c, v, rec)
            if n == 0:
                check_fundamental(c, rec, v)
                for kind in (1, 2):
                    x = lift(v, kind)
                    flat, results = check_mesh(lambda v, q, w: ComplexTriangularEuclidian3(vertices=v, triangles=q, weights=w), x, q, rec)
                    rec.outcome('surface')
                if m < 5:
                    # weights that are given
                    W = 0.2 * np.cos(np.arange(len(v)) * 2.3 + j)
                    weighted = make(v, q, W)
                    e, b = excess(v, q, W)
                    e, b = excess(v, np.asarray(weighted.topology.elements[-1]), W)
                    ok = np.abs(b) > 1e-7
                    close(np.where(ok, weighted.dual_edge_excess(), 0), np.where(ok, e, 0), np.abs(e).max(), 'dual_edge_excess of weights')
                    rec.outcome('weighted')


# --- lattice: right angles, ties and symmetric meshes

def cases_catalogue(tier):
    for i in range(len(catalogue())):
        yield [i]


def catalogue():
    out = []
    for n in range(3, 8):
        a = np.arange(n) * 2 * np.pi / n
        P = np.concatenate([[[0, 0]], np.stack([np.cos(a), np.sin(a)], axis=1)])
        out.append(('fan', P, np.array([[0, 1 + i, 1 + (i + 1) % n] for i in range(n)])))
    for d in (1, 2, 3):
        P = np.eye(d + 1)
        # regular simplex in its own space
        E = P[1:] - P[0]
        G = np.linalg.cholesky(E @ E.T)
        out.append(('simplex', np.concatenate([np.zeros((1, d)), G]), np.arange(d + 1)[None]))
    for d in (2, 3):
        # regular simplices on both sides of one
        name, P, q = out[5 + d - 1]
        extra, cells = [], [list(range(d + 1))]
        for i in range(d + 1):
            F = np.delete(P, i, axis=0)
            extra.append(2 * F.mean(axis=0) - P[i])
            cells.append([j for j in range(d + 1) if j != i] + [d + 1 + i])
        V = np.concatenate([P, np.array(extra)])
        out.append(('star', V, orient(V, cells)))
    for k, (V, q) in enumerate([(synthetic.icosahedron().vertices, synthetic.icosahedron().topology.elements[-1]), (synthetic.n_cube_dual(3).vertices, synthetic.n_cube_dual(3).topology.elements[-1]),
                                (synthetic.tetrahedron().vertices if hasattr(synthetic, 'tetrahedron') else np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.]]), np.array([[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]]))]):
        out.append(('solid', np.array(V), np.array(q)))
    for n in range(3, 9):
        a = np.arange(n) * 2 * np.pi / n
        out.append(('ring', np.stack([np.cos(a), np.sin(a)], axis=1), np.array([[i, (i + 1) % n] for i in range(n)])))
    for shape in [(1, 1), (2, 1), (2, 2), (1, 1, 1), (2, 1, 1)]:
        out.append(('kuhn', np.array(gen.kuhn_vertices(shape), dtype=float), np.array(gen.kuhn(shape))))
    return out


def check_catalogue(case, rec):
    name, V, q = catalogue()[case[0]]
    rec.state(case)

    def make(v, q, w):
        return ComplexSimplicialEuclidian(vertices=v, simplices=q, weights=w)
    if name == 'kuhn':
        c, results = check_mesh(make, V, orient(V, q), rec)
        return
    c, results = check_mesh(make, V, q, rec)
    require(results, 'harness', 'nothing decided')
    if name in ('solid', 'ring', 'simplex'):
        # every vertex is like every other
        for k, w in results.items():
            require(np.abs(w).max() < 1e-12, 'harness', 'not balanced')
            require(np.abs(getattr(c, k)().weights).max() < 1e-9, k + ' of a symmetric mesh')
            rec.outcome('symmetric')
    check_symmetry(make, V, q, results, rec)
    if q.shape[1] - 1 == V.shape[1]:
        check_brute(c, V, q, rec, 5)
    if name == 'fan':
        check_fundamental(c, rec, V)
    if name == 'solid':
        for radius in (1, 2.5):
            s = ComplexSpherical2(vertices=unit(V), simplices=q, radius=radius)
            for k in results:
                require(np.abs(getattr(s, k)().weights).max() < 1e-9, k + ' of a symmetric sphere')
            check_fundamental(s, rec, V)


# --- other dimensions

def cases_dims(tier):
    for n in (2, 3, 4, 5, 6) if tier == 'quick' else (2, 3, 4, 5, 6, 7):
        yield ['line', n]
    for m, chunks in [(4, 12), (5, 48)] + ([(6, 200)] if tier != 'quick' else []):
        for k in range(chunks):
            yield ['space', m, k, chunks, tier != 'quick']


def check_dims(case, rec):
    if case[0] == 'line':
        n = case[1]
        for gaps in itertools.product((1., 1.7, 0.4), repeat=n - 1):
            x = np.concatenate([[0], np.cumsum(gaps)])
            for order in range(3):
                p = np.roll(np.arange(n), order)[::1 if order < 2 else -1]     # number of each point
                V = np.zeros((n, 1))
                V[p, 0] = x
                q = np.stack([p[:-1], p[1:]], axis=1)
                for emb in range(3):
                    W = V if emb == 0 else np.concatenate([V, 0.4 * V], axis=1) if emb == 1 else np.concatenate([V, 0.3 * np.sin(np.arange(n) * 1.9)[:, None]], axis=1)
                    rec.state(gaps, order, emb)
                    c, results = check_mesh(lambda v, q, w: ComplexSimplicialEuclidian(vertices=v, simplices=q, weights=w), W, q, rec)
                    check_symmetry(lambda v, q, w: ComplexSimplicialEuclidian(vertices=v, simplices=q, weights=w), W, q, results, rec)
                    if emb == 0:
                        check_brute(c, W, q, rec, 9)
                    check_fundamental(c, rec, W)
        rec.outcome('1d')
        return
    _, m, k, chunks, big = case
    L = warp(3, 3)
    for j, s in enumerate(itertools.combinations(range(27), m)):
        if j % chunks != k or (not big and j // chunks % (7 if m == 4 else 40)) or (big and m == 6 and j // chunks % 40):
            continue
        V = L[list(s)]
        cells = delaunay(V)
        if not len(cells) or len(np.unique(cells)) < m:
            continue
        cells = orient(V, cells)
        if thin(V, cells):
            continue
        cells = np.array([x[[[0, 1, 2, 3], [1, 2, 0, 3], [1, 0, 3, 2]][(i + j) % 3]] for i, x in enumerate(cells)])
        pd, wc = usable(V, cells)
        rec.state(s)

        def make(v, q, w):
            return ComplexSimplicialEuclidian(vertices=v, simplices=q, weights=w)
        c, results = check_mesh(make, V, cells, rec, pd=pd)
        check_symmetry(make, V, cells, results, rec)
        check_brute(c, V, cells, rec, 4)
        check_fundamental(c, rec, V)
        rec.outcome('3d')


# --- spheres

def cases_sphere(tier):
    for d, m, chunks in [(2, 3, 1), (2, 4, 2), (2, 5, 2), (3, 4, 4), (3, 5, 8), (2, 'round', 1), (3, 'round', 8)] + ([(3, 6, 32), (3, 7, 64), (2, 6, 4)] if tier != 'quick' else []):
        for k in range(chunks):
            yield [d, m, k, chunks]


def check_sphere(case, rec):
    d, m, k, chunks = case
    L = sphere_points(d)
    sets = moved(d) if m == 'round' else [L[list(s)] for s in itertools.combinations(range(len(L)), m)]
    for j, V in enumerate(sets):
        if j % chunks != k:
            continue
        q = hull(V)
        if q is None or len(np.unique(q)) < len(V):
            continue
        if j % 3 == 1 and len(q) > d:
            V, q, _ = compact(V, q[1:])
        cls = ComplexCircular if d == 2 else ComplexSpherical2 if j % 2 else ComplexSpherical
        radius = (1, 2.5)[j % 2]
        rec.state(V.tolist(), q.tolist())

        def make(v, q, w):
            return cls(vertices=v, simplices=q, weights=w, radius=radius)
        # a face around the back has its centre at the other side
        C, _ = centre(V[q], np.zeros(q.shape))
        if np.linalg.norm(C, axis=1).min() < 1e-3:
            continue
        c, results = check_mesh(make, V, q, rec, place=unit)
        check_symmetry(make, V, q, results, rec, free=False)
        rec.outcome('sphere {}d'.format(d))


# --- cells that are not simplices

def cases_regular(tier):
    for shape in ([1], [2], [3], [1, 1], [2, 1], [2, 2], [3, 2], [1, 1, 1], [2, 1, 1]) if tier == 'quick' else ([1], [2], [3], [4], [1, 1], [2, 1], [2, 2], [3, 2], [3, 3], [1, 1, 1], [2, 1, 1], [2, 2, 1], [2, 2, 2]):
        yield shape


def check_regular(case, rec):
    from mc.c11 import grid
    n = int(np.prod(case))
    dim = len(case)
    for r in range(1, n + 1):
        for sub in itertools.combinations(range(n), r):
            for spacing in range(4):
                cells, V = grid(tuple(case), spacing, sub, 0)
                cls = {1: ComplexRegular1, 2: ComplexRegular2, 3: ComplexRegular3}[dim]
                from mc.c11 import build as build_regular
                c = build_regular(cells, V, dim)
                rec.state(case, sub, spacing)
                check_fundamental(c, rec, V)
                rec.trace()
                rec.outcome('cubes')


SPACES = [
    Space('units', *scales.space(['plane', 'surface', 'line', 'solid'], scales.weights), 'weights of meshes on 3-4 (5) points of a warped lattice, each in seven units from 2^-40 to 2^40', chunk=1, expect=['scaled']),
    Space('arrays', *scales.arrays_space(['plane', 'surface', 'line', 'solid'], scales.weights), 'weights of the same meshes with whole coordinates, made and asked with the same numbers in arrays of 6 layouts and 8 types of integer', chunk=1, expect=['same']),
    Space('large', large.cases('edges', 'fan', 'tets', edges=17000, tets=6000), large.check_weights, '40 to 17000 copies of a chain, a fan and tetrahedra: more than 2^15 elements of every kind', chunk=1, expect=['large']),
    Space('planar', cases_planar, check_planar, 'Delaunay triangulations of all 3-6 point subsets of a warped 3x3 lattice and 4 of a 4x4 lattice (thorough: 3-9, 3-6), with each triangle missing, turned corners, mirror images, flat and lifted', chunk=1,
          expect=['optimize_weights', 'optimize_weights_metric', 'improved optimize_weights', 'improved optimize_weights_metric', 'fundamental', 'well centered', 'surface', 'weighted']),
    Space('catalogue', cases_catalogue, check_catalogue, 'fans, regular simplices alone and with neighbours, platonic solids, rings, cut cubes', chunk=1, expect=['symmetric', 'balanced', 'right angle']),
    Space('dims', cases_dims, check_dims, 'all chains of up to 5 (6) edges of three lengths, flat, sloping and bent; Delaunay tetrahedra of 4-5 (6) points of a warped cube', chunk=1, expect=['1d', '3d', 'fundamental']),
    Space('sphere', cases_sphere, check_sphere, 'hulls of all subsets of points on the 1- and 2-sphere, and of round meshes with each vertex moved; two radii; whole and with one face missing', chunk=1, expect=['sphere 2d', 'sphere 3d']),
    Space('regular', cases_regular, check_regular, 'fundamental domains of all subsets of small grids of 1-3 dimensions, four spacings', chunk=1, expect=['fundamental', 'cubes']),
]
