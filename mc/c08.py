"""C08: geometry of subdivision and smoothing, products, casts, copies and transformations"""
import itertools

import numpy as np

from mc import gen, large, ref, scales, topo
from mc.c02 import oriented
from mc.c06 import Lattice
from mc.c07 import elements, inside
from mc.harness import Space, require
from pycomplex.complex.cubical import ComplexCubical, ComplexCubical1, ComplexCubical2
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
from pycomplex.topology.cubical import TopologyCubical
from pycomplex.topology.simplicial import TopologySimplicial

PROPERTY = 'C08'
ASSUMPTIONS = ['topology of subdivisions is correct (C06); positions of cubical complexes are linear in the vertices, so the unit embedding decides them for every embedding',
               'floating point results compared to 1e-9 relative']
TOL = 1e-9


def eq(a, b, tag, message):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, tag, lambda: '{}: shape {} expected {}'.format(message, a.shape, b.shape))
    if a.size:
        require(np.abs(a - b).max() <= TOL * max(1, np.abs(b).max()), tag, lambda: '{}: off by {}'.format(message, np.abs(a - b).max()))


def embed(n, dim, kind):
    """deterministic vertex positions; 'unit' decides everything that is linear"""
    if kind == 'unit':
        return np.eye(n)
    i = np.arange(n)[:, None]
    j = np.arange(dim)[None, :]
    return ((i * i * (2 * j + 3) + i * (5 * j + 1) + j) % 17) + 0.25 * ((i * 7 + j * 3) % 5)


def build(kind, cells, vertices):
    t = topo.build(kind, cells)
    if kind == 'c':
        return (ComplexCubical2 if t.n_dim == 2 else ComplexCubical)(vertices=vertices, topology=t)
    if t.n_dim == 2:
        return ComplexTriangularEuclidian(vertices=vertices, topology=t.as_2() if kind == 's' else t)
    return ComplexSimplicialEuclidian(vertices=vertices, topology=t)


def smooth_model(t, centroids, vertices, creases):
    """reference: a vertex moves to the mean of the centroids of the crease elements of lowest dimension incident to it;
    creases: {n: set of indices}; the top cells are creases unless overridden"""
    N = t.n_dim
    C = {N: set(range(t.n_elements[N]))}
    C.update(creases)
    els = elements(t)
    out = np.array(vertices, dtype=float)
    for v in range(len(out)):
        for n in range(N + 1):
            inc = [i for i in C.get(n, ()) if v in els[n][i]]
            if inc:
                out[v] = np.mean([centroids[n][i] for i in inc], axis=0)
                break
    return out


def means(t, vertices):
    return [np.array([np.mean([vertices[v] for v in e], axis=0) for e in els]) for els in elements(t)]


def chain(t, n, chosen, style=0):
    """any nonzero entry denotes a crease: ones, an oriented chain, a boolean mask, or any other number"""
    c = np.zeros(t.n_elements[n], dtype=[int, np.int8, bool, float][style])
    for k, i in enumerate(sorted(chosen)):
        c[i] = [1, -1 if k % 2 == 0 else 1, True, 0.25 + k][style]
    return c


def crease_sets(t, most):
    """single-dimension crease sets of every size up to most, and pairs of one vertex and one element"""
    N = t.n_dim
    yield {}
    for n in range(N):
        k = t.n_elements[n]
        for r in range(1, min(most, k) + 1):
            for s in itertools.combinations(range(k), r):
                yield {n: set(s)}
        yield {n: set(range(k))}
    for n in range(1, N):
        for v in range(t.n_elements[0]):
            for e in range(t.n_elements[n]):
                yield {0: {v}, n: {e}}
    if N >= 3:
        for a in range(t.n_elements[1]):
            yield {1: {a}, 2: set(range(t.n_elements[2]))}
    # top level cells restricted; every vertex that loses all of its cells is fixed by a vertex crease
    for c in range(t.n_elements[N]):
        els = elements(t)
        rest = set(range(t.n_elements[N])) - {c}
        covered = {v for i in rest for v in els[N][i]}
        loose = set(range(t.n_elements[0])) - covered
        yield {N: rest, 0: loose} if loose else {N: rest}


def check_smooth(case, rec):
    kind, cells, embedding, most = case
    t = topo.build(kind, cells)
    V = embed(t.n_elements[0], t.n_dim + 1, embedding)
    c = build(kind, cells, V)
    exact = kind == 'c' or embedding == 'unit'
    base = means(c.topology, V)
    pp = [np.asarray(p) for p in c.primal_position]
    if exact:
        for n in range(t.n_dim + 1):
            eq(pp[n], base[n], 'primal_position', 'position of {}-elements'.format(n))
    for k, s in enumerate(crease_sets(c.topology, most)):
        arrays = {n: chain(c.topology, n, x, k % 4) for n, x in s.items()}
        rec.state(kind, cells, embedding, sorted((n, sorted(x)) for n, x in s.items()))
        sm = c.smooth({n: a.copy() for n, a in arrays.items()} or None)
        rec.step()
        eq(sm.vertices, smooth_model(c.topology, pp, V, s), 'smooth', 'smoothing with creases {}'.format(s))
        require(sm.topology is c.topology and type(sm) is type(c), 'smooth_type', 'smoothing changed the topology')
        op = c.smooth_operator({n: a.copy() for n, a in arrays.items()} or None)
        rec.step()
        eq(np.asarray(op.todense()) @ V, smooth_model(c.topology, base, V, s), 'smooth_operator', 'smoothing operator with creases {}'.format(s))
        rec.outcome('creases' if s else 'plain')
        rec.trace()


def check_subdivide(case, rec):
    kind, cells, embedding, most = case
    t = topo.build(kind, cells)
    V = embed(t.n_elements[0], t.n_dim + 1, embedding)
    c = build(kind, cells, V)
    base = means(c.topology, V)
    pp = [np.asarray(p) for p in c.primal_position]
    L = Lattice(c.topology)
    if kind == 'c':
        flavours = [('cubical', lambda **k: c.subdivide_cubical(**k), lambda **k: c.subdivide_operator(**k), pp, base)]
    elif t.n_dim == 2:
        flavours = [('loop', lambda **k: c.subdivide_loop(**k), lambda **k: c.subdivide_loop_operator(**k), pp[:2], base[:2])]
    else:
        flavours = []
    for name, f, op, parts, means_ in flavours:
        rec.outcome(name)
        plain = f()
        rec.step(2)
        eq(plain.vertices, np.concatenate(parts), 'subdivide_' + name, 'vertices of a subdivision')
        require(type(plain) is type(c), 'subdivide_type', 'type of a subdivision')
        eq(np.asarray(op().todense()) @ V, np.concatenate(means_), 'operator_' + name, 'subdivision operator')
        T = inside(L, elements(plain.topology), L.which)
        fv = np.asarray(plain.vertices, dtype=float)
        fp = [np.asarray(p) for p in plain.primal_position]
        fbase = means(plain.topology, np.concatenate(means_))
        for k, s in enumerate(crease_sets(c.topology, most)):
            arrays = {n: chain(c.topology, n, x, k % 4) for n, x in s.items()}
            fine = {n: set(np.flatnonzero(T[n] @ (a != 0).astype(int)).tolist()) for n, a in arrays.items()}
            rec.state(kind, cells, embedding, name, sorted((n, sorted(x)) for n, x in s.items()))
            d = f(smooth=True, creases={n: a.copy() for n, a in arrays.items()} or None)
            rec.step()
            eq(d.vertices, smooth_model(plain.topology, fp, fv, fine), 'subdivide_smooth_' + name, 'smooth subdivision with creases {}'.format(s))
            o = op(smooth=True, creases={n: a.copy() for n, a in arrays.items()} or None)
            rec.step()
            eq(np.asarray(o.todense()) @ V, smooth_model(plain.topology, fbase, np.concatenate(means_), fine), 'operator_smooth_' + name,
               'smooth subdivision operator with creases {}'.format(s))
            rec.trace()
    # conversions
    conv = []
    if kind == 'c':
        conv.append(('fundamental', c.subdivide_fundamental, pp))
        if t.n_dim == 2:
            conv.append(('simplicial', c.subdivide_simplicial, [pp[0], pp[2]]))
    else:
        conv.append(('fundamental', c.subdivide_fundamental, pp))
        conv.append(('fundamental', lambda: c.subdivide_fundamental(oriented=False), pp))
        conv.append(('simplicial', c.subdivide_simplicial, [pp[0], pp[-1]]))
        if t.n_dim in (2, 3):
            conv.append(('cubical', c.subdivide_cubical, pp))
    for name, f, parts in conv:
        r = f()
        rec.step()
        eq(r.vertices, np.concatenate(parts), 'convert_' + name, 'vertices of subdivision {}'.format(name))
        require(len(r.vertices) == r.topology.n_elements[0], 'convert_count', 'number of vertices')
        same = {'fundamental': lambda: c.topology.subdivide_fundamental(), 'cubical': lambda: c.topology.subdivide_cubical(),
                'simplicial': lambda: (c.topology.as_2() if kind == 'c' else c.topology).subdivide_simplicial()}[name]()
        require(type(r.topology) is type(same) or isinstance(r.topology, type(same)) or isinstance(same, type(r.topology)), 'convert_type', 'type of topology')
        a = {frozenset(x) for x in elements(r.topology)[-1]}
        b = {frozenset(x) for x in elements(same)[-1]}
        require(a == b, 'convert_topology', 'topology of subdivision {}'.format(name))
        rec.trace()


def check_copies(case, rec):
    kind, cells, dim = case
    t = topo.build(kind, cells)
    n = t.n_elements[0]
    V = embed(n, dim, 'mixed')
    c = build(kind, cells, V)
    rec.state(kind, cells, dim)
    vec = np.arange(1, dim + 1) * 0.5
    M = np.array([[((i * 3 + j * 5) % 7) - 2 for j in range(dim)] for i in range(dim)], dtype=float)
    A = np.array([[((i * 5 + j * 3) % 7) - 1 for j in range(dim + 1)] for i in range(dim + 1)], dtype=float)
    A[:, -1] = [0] * dim + [2]
    P = A.copy()
    P[:, -1] = [0.01 * (i + 1) for i in range(dim)] + [1]
    hom = np.concatenate([V, np.ones((n, 1))], axis=1)
    for name, f, want in (
            ('translate', lambda: c.translate(vec), V + vec),
            ('scale', lambda: c.scale(3), V * 3),
            ('scale', lambda: c.scale(vec), V * vec),
            ('transform', lambda: c.transform(M), V @ M),
            ('affine_transform', lambda: c.affine_transform(A), (hom @ A)[:, :-1] / 2),
            ('affine_transform', lambda: c.affine_transform(P), (hom @ P)[:, :-1] / (hom @ P)[:, -1:]),
            ('copy', lambda: c.copy(), V),
            ('copy', lambda: c.copy(vertices=V + 1), V + 1)):
        r = f()
        rec.step()
        eq(r.vertices, want, name, name)
        require(type(r) is type(c) and r.topology is c.topology, name + '_type', '{} changed the type or topology'.format(name))
        require(r.parent is c, name + '_parent', '{} does not refer to its parent'.format(name))
        eq(c.vertices, V, name + '_mutates', '{} changed its input'.format(name))
    eq(c.box, [V.min(axis=0), V.max(axis=0)], 'box', 'bounding box')
    require(c.n_dim == dim, 'n_dim', 'dimension of the embedding')
    # subsets and boundary carry positions
    els = elements(c.topology)
    for chosen in itertools.chain(*[itertools.combinations(range(len(cells)), r) for r in range(1, len(cells) + 1)]):
        m = np.zeros(len(cells), dtype=bool)
        m[list(chosen)] = True
        s = c.select_subset(m)
        rec.step()
        got = [s.vertices[list(e)].tolist() for e in elements(s.topology)[-1]]
        want = [V[list(els[-1][i])].tolist() for i in chosen]
        require(got == want, 'select_subset', 'corner positions of a subset')
        require(s.parent is c, 'select_subset_parent', 'parent of a subset')
    for wrong in (len(cells) - 1, len(cells) + 1):
        try:
            c.select_subset(np.ones(wrong, dtype=bool))
            require(False, 'select_subset_length', 'wrong chain length accepted')
        except ValueError:
            rec.outcome('refused')
    o = ref.orientation_model(topo.model_of(c.topology))
    if o['pseudo'] and o['orientable']:
        f = c.fix_orientation()
        rec.step()
        require(f.topology.is_oriented, 'fix_orientation', 'fix_orientation of a complex')
        eq(f.vertices, V, 'fix_orientation_vertices', 'fix_orientation of a complex')
        b = f.boundary
        if b is None:
            require(f.topology.boundary is None, 'boundary', 'boundary')
        else:
            idx = np.asarray(f.topology.boundary.parent_idx[0])
            eq(b.vertices, V[idx], 'boundary', 'positions of boundary vertices')
            require(b.topology is f.topology.boundary, 'boundary_topology', 'topology of the boundary')
    if kind != 'c' and t.n_dim >= 1:
        # weights follow vertices
        w = np.arange(n) * 0.01
        cw = c.copy(weights=w)
        s = cw.select_subset(np.arange(len(cells)) == len(cells) - 1)
        eq(s.weights, w[np.asarray(s.topology.parent_idx[0])], 'subset_weights', 'weights of a subset')
        if o['pseudo'] and o['orientable']:
            fw = cw.fix_orientation()
            eq(fw.weights, w, 'fix_weights', 'weights')
            if t.n_dim >= 2 and fw.boundary is not None:
                idx = fw.topology.boundary.parent_idx
                eq(fw.boundary.weights, w[np.asarray(idx[0])], 'boundary_weights', 'weights of the boundary')
                for k in range(t.n_dim):
                    eq(fw.boundary.primal_position[k], np.asarray(fw.primal_position[k])[np.asarray(idx[k])], 'boundary_position',
                       'positions of weighted boundary elements')
        rec.outcome('weights')
    # casts
    if kind == 'c':
        valid = {(1, 1): 'as_11', (2, 1): 'as_12', (2, 2): 'as_22', (3, 2): 'as_23', (3, 3): 'as_33', (4, 4): 'as_44'}
        for key, name in valid.items():
            try:
                r = getattr(c, name)()
            except TypeError:
                require(key != (dim, t.n_dim), 'cast_refused', '{} refused'.format(name))
                rec.outcome('cast refused')
            else:
                require(key == (dim, t.n_dim), 'cast_accepted', lambda: '{} accepts a {}-complex in {} dimensions'.format(name, t.n_dim, dim))
                eq(r.vertices, V, 'cast', name)
                require(r.topology is c.topology, 'cast', name)
                rec.outcome('cast')
                rec.step()
        if t.n_dim == 1:
            s = ComplexCubical1(vertices=V, topology=t).to_simplicial()
            rec.step()
            eq(s.vertices, V, 'to_simplicial', 'to_simplicial')
            require(isinstance(s.topology, TopologySimplicial) and elements(s.topology)[1] == els[1], 'to_simplicial', 'to_simplicial')
    else:
        own = ComplexSimplicialEuclidian(vertices=V, topology=c.topology, weights=np.linspace(-.1, .1, len(V)))
        flat = own.as_2() if t.n_dim == 2 else None
        tries = [(own, 'as_2', t.n_dim == 2)]
        if flat is not None:
            tries += [(flat, 'as_2', dim == 2), (flat, 'as_3', dim == 3)]
        for f, name, valid in tries:
            try:
                r = getattr(f, name)()
            except (TypeError, ValueError, AssertionError):
                require(not valid, 'cast_refused', '{} refused'.format(name))
                rec.outcome('cast refused')
            else:
                require(valid, 'cast_accepted', lambda: '{} accepts a {}-complex in {} dimensions'.format(name, t.n_dim, dim))
                eq(r.vertices, V, 'cast', name)
                eq(r.weights, own.weights, 'cast weights', name)
                for x, y in zip(r.topology.elements, c.topology.elements):
                    require(np.array_equal(x, y), 'cast', name)
                rec.outcome('cast')
                rec.step()
    if kind == 's' and t.n_dim == 1:
        s = c.as_cube()
        rec.step()
        eq(s.vertices, V, 'as_cube', 'as_cube')
        require(isinstance(s.topology, TopologyCubical) and elements(s.topology)[1] == els[1], 'as_cube', 'as_cube')
    rec.trace()


def check_product(case, rec):
    a, b, da, db = case
    A = ComplexCubical(vertices=embed(topo.build('c', a).n_elements[0], da, 'mixed'), cubes=np.array(a).reshape((-1,) + (2,) * (len(a[0]).bit_length() - 1)))
    B = ComplexCubical(vertices=embed(topo.build('c', b).n_elements[0], db, 'mixed') + .5, cubes=np.array(b).reshape((-1,) + (2,) * (len(b[0]).bit_length() - 1)))
    P = A.product(B)
    rec.step()
    rec.state(a, b, da, db)
    na, nb = len(A.vertices), len(B.vertices)
    want = np.array([list(A.vertices[i % na]) + list(B.vertices[i // na]) for i in range(na * nb)])
    eq(P.vertices, want, 'product', 'positions of a product')
    # corners of every product cell are the product of corners
    for cell in elements(P.topology)[-1]:
        pts = P.vertices[list(cell)]
        one = {tuple(p[:da]) for p in pts}
        two = {tuple(p[da:]) for p in pts}
        require(len(one) * len(two) >= 1 and {tuple(p) for p in pts} == {x + y for x in one for y in two}, 'product_cell', 'a cell of a product is not a product of cells')
    for k, pos in enumerate(P.primal_position):
        eq(pos, means(P.topology, P.vertices)[k], 'product_position', 'positions of elements of a product')
    rec.trace()


def cases_smooth(tier):
    big = tier != 'quick'
    for kind, cells in gen.base_complexes('quick'):
        m = topo.model(kind, cells)
        N = m.n_dim
        if N > 3 or (N == 3 and len(cells) > (2 if not big else 4)) or len(cells) > (6 if not big else 12):
            continue
        n = max(v for c in cells for v in c) + 1
        most = 2 if n <= (6 if not big else 9) else 1
        yield [kind, cells, 'unit', most]
        if kind == 's' and N <= 3:
            yield [kind, cells, 'mixed', 1]


def cases_subdivide(tier):
    big = tier != 'quick'
    for kind, cells in gen.base_complexes('quick'):
        N = topo.model(kind, cells).n_dim
        if kind == 's' and N not in (1, 2, 3):
            continue
        if N > 3 or (N == 3 and len(cells) > (1 if not big else 2)) or len(cells) > (4 if not big else 10):
            continue
        yield [kind, cells, 'unit', 1 if not big or len(cells) > 3 else 2]
        if kind == 's':
            yield [kind, cells, 'mixed', 1]


def cases_copies(tier):
    for kind, cells in gen.base_complexes('quick'):
        N = topo.model(kind, cells).n_dim
        if len(cells) <= (4 if tier == 'quick' else 8):
            for dim in range(N, N + (2 if tier == 'quick' else 3)):
                yield [kind, cells, dim]


def cases_product(tier):
    from mc.c06 import factors
    F = factors(tier)
    for a in F:
        for b in F:
            na, nb = len(a[0]).bit_length() - 1, len(b[0]).bit_length() - 1
            if na + nb <= (3 if tier == 'quick' else 4):
                for da in (na, na + 1):
                    for db in (nb, nb + 1):
                        yield [a, b, da, db]


# --- histories ---------------------------------------------------------------------------------------------------
def snapshot(x):
    t = x.topology
    top = np.asarray(t.elements[-1])
    w = getattr(x, 'weights', None)
    return ('c' if isinstance(t, TopologyCubical) else 's', t.n_dim, [tuple(c) for c in top.reshape(len(top), -1).tolist()],
            np.array(x.vertices, dtype=float), None if w is None else np.array(w, dtype=float))


def sub_elements(kind, cells):
    """every element of every dimension as a set of vertices, and those of every cell"""
    m = topo.model(kind, cells)
    els = [m.faces(k) for k in range(m.n_dim + 1)]
    return m, els, [[[f for f in e if f <= frozenset(c)] for e in els] for c in cells]


def centres(kind, els, V, W):
    from mc.c09 import centre
    out = {}
    for e in els:
        for f in e:
            i = sorted(f)
            out[f] = V[i].mean(axis=0) if kind == 'c' else centre(V[None, i], (np.zeros(len(V)) if W is None else W)[None, i])[0][0]
    return out


def check_cells(what, after, points, cells):
    """the complex must consist of the cells given as sets of keys of points"""
    kind, N, got, V, W = after
    keys = list(points)
    P = np.array([points[k] for k in keys])
    scale = np.abs(P).max() + 1
    require(len(V) == len(keys), 'history count', lambda: '{}: {} vertices instead of {}'.format(what, len(V), len(keys)))
    D = np.abs(P[:, None] - V[None]).max(axis=2)
    hit = D.argmin(axis=1)
    require(D.min(axis=1).max() < 1e-6 * scale, 'history position', lambda: '{}: a vertex is {} away'.format(what, D.min(axis=1).max()))
    require(len(set(hit.tolist())) == len(keys), 'history vertices', lambda: '{}: vertices missing'.format(what))
    where = dict(zip(keys, hit.tolist()))
    want = sorted(sorted(where[k] for k in c) for c in cells)
    require(sorted(map(sorted, got)) == want, 'history cells', lambda: '{}: other cells than expected'.format(what))


def apart(points):
    P = np.array(list(points.values()))
    D = np.abs(P[:, None] - P[None]).max(axis=2) + np.eye(len(P)) * 1e9
    return len(P) < 2 or D.min() > 1e-4 * (np.abs(P).max() + 1)


def flags(own):
    chains = [(f,) for f in own[0]]
    for e in own[1:]:
        chains = [c + (f,) for c in chains for f in e if c[-1] < f]
    return chains


def moves(x, big):
    """operations that apply to a complex, as (name, act, judge(before, result))"""
    kind, N, cells, V, W = before = snapshot(x)
    dim = V.shape[1]
    m, els, own = sub_elements(kind, cells)
    o = ref.orientation_model(m)
    oriented_ = bool(o['pseudo'] and o['consistent'])
    limit = 60 if not big else 200
    grown = len(cells) * sum(1 for _ in flags(own[0])) <= limit
    try:
        pos = centres(kind, els, V, W)
    except np.linalg.LinAlgError:       # degenerate cells
        return
    round_ = getattr(x, 'radius', None)
    if round_ is not None:
        if min(np.linalg.norm(p) for p in pos.values()) < .05:
            return
        pos = {f: p / np.linalg.norm(p) for f, p in pos.items()}
    usable = apart(pos) and max(np.abs(p).max() for p in pos.values()) < 20 * np.abs(V).max()
    if kind == 's':     # circumcenters of slivers snap to their sides
        P = V[np.array(cells)]
        thin = np.linalg.svd(P[:, 1:] - P.mean(axis=1, keepdims=True), compute_uv=False)
        usable = usable and (N == 0 or (thin[:, -1] > .01 * thin[:, 0]).all())
    if not usable:
        return

    def same_orientation(what, y):
        require(round_ is None or what == 'cubical' or y.radius == round_, 'history radius', what)
        if oriented_:
            r = ref.orientation_model(topo.model_of(y.topology))
            require(r['pseudo'] and r['consistent'], 'history orientation', lambda: '{}: orientation lost'.format(what))

    def carried(what, y, chosen, move=lambda p: p):
        """y has these cells of x, in order and with their corner order, on the vertices they use"""
        k, n, got, v, w = snapshot(y)
        require((k, n) == (kind, N), 'history kind', what)
        require(len(got) == len(chosen), 'history number', what)
        a, b = [i for c in got for i in c], [i for j in chosen for i in cells[j]]
        require(len(v) == len(set(b)) and set(a) == set(range(len(v))), 'history loose', what)
        eq(v[a], move(V[b]), 'history carried', what)
        require((w is None) == (W is None), 'history weights', what)
        require(getattr(y, 'radius', None) == round_, 'history radius', what)
        if W is not None:
            eq(w[a], W[b], 'history weights', what)

    def judge_sub(what, points, want):
        def f(y):
            check_cells(what, snapshot(y), points, want)
            require(getattr(y, 'weights', None) is None, 'history weights', what)
            if N == 2 or what == 'fundamental' or kind == 'c':      # other schemes do not promise it
                same_orientation(what, y)
        return f

    if grown:
        both = {f: pos[f] for e in els for f in e}
        if kind == 'c' or N in (2, 3):
            yield 'cubical', x.subdivide_cubical, judge_sub('cubical', both, [[f for e in o_ for f in e if v <= f] for o_ in own for v in o_[0]])
        yield 'fundamental', x.subdivide_fundamental, judge_sub('fundamental', both, [c for o_ in own for c in flags(o_)])
        ends = {f: pos[f] for e in (els[0], els[-1]) for f in e}
        if kind == 's' or (N == 2 and hasattr(x, 'subdivide_simplicial')):
            yield 'simplicial', x.subdivide_simplicial, judge_sub('simplicial', ends, [[frozenset([v]) for v in f] + [o_[-1][0]] for o_ in own for f in o_[-2]])
        if kind == 's' and N == 2 and hasattr(x, 'subdivide_loop'):
            loop = {f: pos[f] for e in els[:2] for f in e}
            want = [[v] + [e for e in o_[1] if v < e] for o_ in own for v in o_[0]] + [list(o_[1]) for o_ in own]

            def judge_loop(y, f=judge_sub('loop', loop, want)):
                f(y)
                if W is None and dim in (2, 3) and round_ is None:
                    from mc.c13 import moments
                    eq(moments(y.vertices[y.topology.triangles], dim)[:1], moments(V[np.array(cells)], dim)[:1], 'history area', 'loop')
            yield 'loop', x.subdivide_loop, judge_loop
            if hasattr(x, 'subdivide_loop_direct'):
                yield 'loop_direct', x.subdivide_loop_direct, judge_loop
    for name, chosen in (('tail', list(range(1, len(cells)))), ('alternate', list(range(0, len(cells), 2)))):
        if chosen and len(chosen) < len(cells):
            mask = np.zeros(len(cells), dtype=bool)
            mask[chosen] = True
            yield name, (lambda mask=mask: x.select_subset(mask)), (lambda y, chosen=chosen, name=name: carried(name, y, chosen))
    if len(cells) <= 60 and len(set(i for c in cells for i in c)) == len(V):
        A = np.array([[((i * 3 + j * 5) % 7) / 4. + 2 * (i == j) for j in range(dim)] for i in range(dim)])
        if round_ is not None:
            A = np.linalg.qr(A)[0]
        yield 'transform', lambda: x.transform(A), lambda y: carried('transform', y, range(len(cells)), lambda p: p @ A)
        if round_ is None:
            yield 'translate', lambda: x.translate(np.arange(dim) + .5), lambda y: carried('translate', y, range(len(cells)), lambda p: p + np.arange(dim) + .5)
        if N >= 1 and (kind == 'c' or N == 2) and round_ is None:
            def judge_smooth(y):
                new = np.array([np.mean([pos[o_[-1][0]] for o_ in own if frozenset([v]) in o_[0]], axis=0) for v in range(len(V))])
                k, n, got, v, w = snapshot(y)
                require(got == cells, 'history smooth', 'smooth')
                eq(v, new, 'history smooth', 'smooth')
            yield 'smooth', x.smooth, judge_smooth
    if N >= 2 and oriented_:
        owners = [f for f in els[-2] if sum(f in o_[-2] for o_ in own) == 1]

        def judge_boundary(y):
            require((y is None) == (not owners), 'history closed', 'boundary')
            if y is not None:
                k, n, got, v, w = snapshot(y)
                require((k, n) == (kind, N - 1), 'history kind', 'boundary')
                require(getattr(y, 'radius', None) == round_, 'history radius', 'boundary')
                check_cells('boundary', snapshot(y), {i: V[i] for f in owners for i in f}, owners)
                r = ref.orientation_model(topo.model_of(y.topology))
                require(not r['pseudo'] or r['consistent'], 'history orientation', 'boundary')
                require((w is None) == (W is None), 'history weights', 'boundary')
                if W is not None:
                    where = [int(np.abs(V - p).max(axis=1).argmin()) for p in v]
                    eq(w, W[where], 'history weights', 'boundary')
        yield 'boundary', lambda: x.boundary, judge_boundary
    if kind == 'c' and N <= 2 and len(cells) <= 12:
        line = ComplexCubical(vertices=np.array([[0.], [1.], [2.5]]), cubes=np.array([[0, 1], [1, 2]]))

        def judge_product(y):
            points = {(i, j): list(V[i]) + [h] for i in range(len(V)) for j, h in enumerate([0, 1, 2.5])}
            check_cells('product', snapshot(y), points, [[(i, j) for i in c for j in (a, a + 1)] for c in cells for a in (0, 1)])
            same_orientation('product', y)
        yield 'product', lambda: x.product(line), judge_product
    if round_ is not None:
        casts = ['as_euclidian']
    elif kind == 's' and N == 2:
        casts = ['as_2'] if not isinstance(x, ComplexTriangularEuclidian) or dim == 2 else ['as_3'] if dim == 3 else []
        if type(x).__name__[-1] in '23' and isinstance(x, ComplexTriangularEuclidian):
            casts = []
    elif kind == 's' and N == 1:
        casts = ['as_cube']
    else:
        casts = ['as_{}{}'.format(N, dim)] if (N, dim) in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)) and type(x) in (ComplexCubical, ComplexCubical2) else []
    for name in casts:
        def judge_cast(y, name=name):
            k, n, got, v, w = snapshot(y)
            require(k == ('c' if name == 'as_cube' else kind) and n == N and got == cells, 'history cast', name)
            eq(v, V, 'history cast', name)
            if name != 'as_cube':
                require((w is None) == (W is None), 'history weights', name)
        yield name, getattr(x, name), judge_cast
    if kind == 's' and N == 2 and dim in (2, 3) and isinstance(x, ComplexTriangularEuclidian):
        direction = np.array([1, .37, .23][:dim])
        support = V.mean(axis=0) + .0123
        h = (V - support) @ direction
        if np.abs(h).min() > 1e-3 * (np.abs(V).max() + 1) and h.min() < 0 < h.max() and len(cells) <= limit:
            def judge_clip(y):
                from mc.c13 import half, moments
                parts = [P for P in (half(P, support, direction, +1) for P in V[np.array(cells)]) if len(P) > 2]
                eq(moments(y.vertices[y.topology.triangles], dim), moments(parts, dim), 'history clip', 'clip')
                require(((y.vertices - support) @ direction).max() < 1e-9 * (np.abs(V).max() + 1), 'history clip', 'beyond the plane')
                same_orientation('clip', y)
                require(getattr(y, 'weights', None) is None, 'history weights', 'clip')
            if any(all(h[i] < 0 for i in c) or any(h[i] < 0 for i in c) for c in cells):
                yield 'clip', lambda: x.clip(support, direction), judge_clip
        outer = [f for f in els[1] if sum(f in o_[1] for o_ in own) == 1]
        if oriented_ and outer and hasattr(x, 'extrude') and len(cells) <= 24:
            up = np.array([.1, .2, 40.])

            def judge_extrude(y):
                k, n, got, v, w = snapshot(y)
                eq(v, np.concatenate([V, V + up]), 'history extrude', 'extrude')
                M = len(V)
                want = sorted([sorted(c) for c in cells] + [sorted(i + M for i in c) for c in cells])
                sides = [sorted(c) for c in got if min(c) < M <= max(c)]
                require(sorted(sorted(c) for c in got if not min(c) < M <= max(c)) == want, 'history extrude', 'lids')
                require(len(sides) == 2 * len(outer), 'history extrude', 'number of triangles between the lids')
                for f in outer:
                    s = [c for c in sides if {i % M for i in c} == f]
                    require(len(s) == 2, 'history extrude', 'triangles next to an edge')
                r = ref.orientation_model(topo.model_of(y.topology))
                require(not r['pseudo'] or r['consistent'], 'history extrude', 'orientation')
                require((w is None) == (W is None), 'history weights', 'extrude')
                if W is not None:
                    eq(w, np.concatenate([W, W]), 'history weights', 'extrude')
            yield 'extrude', lambda: x.extrude(x.translate(up)), judge_extrude


STARTS = {
    'line': ('s', [(0, 1), (1, 2), (2, 3)], 2),
    'ring': ('s', [(0, 1), (1, 2), (2, 0)], 3),
    'strip': ('s', [(0, 1, 2), (2, 1, 3)], 2),
    'lifted': ('s', [(0, 1, 2), (2, 1, 3)], 3),
    'odd': ('s', [(0, 1, 2), (1, 2, 3)], 2),
    'fins': ('s', [(0, 1, 2), (0, 1, 3), (0, 1, 4)], 3),
    'sphere': ('s', [(0, 1, 2), (0, 2, 3), (0, 3, 1), (1, 3, 2)], 3),
    'pair': ('s', [(0, 1, 2, 3), (1, 0, 2, 4)], 3),
    'edges': ('c', [(0, 1), (1, 2)], 2),
    'quads': ('c', [(0, 1, 2, 3), (2, 3, 4, 5)], 2),
    'folded': ('c', [(0, 1, 2, 3), (2, 3, 4, 5)], 3),
    'cube': ('c', [tuple(range(8))], 3),
}
PLACES = np.array([[0, 0, 0], [1, .13, .21], [.27, .94, .43], [1.31, 1.17, -.29], [-.35, 1.91, .17], [1.47, 2.23, .31]])
CORNERS = np.array([[0, 0, 0], [.04, .11, 1.07], [.13, 1.03, .05], [-.08, .97, 1.13], [1.05, .07, .09], [.93, .14, 1.01], [1.02, 1.11, -.06], [1.19, .91, .88]])
SOLID = np.array([[0, 0, 0], [1, .1, .05], [.3, .9, .1], [.4, .35, .87], [.45, .2, -.9]])


def start(name, weighted):
    kind, cells, dim = STARTS[name]
    n = max(map(max, cells)) + 1
    V = (CORNERS if name == 'cube' else SOLID if name in ('sphere', 'pair', 'fins') else PLACES)[:n, :dim]
    x = build(kind, [list(c) for c in cells], V)
    if weighted:
        x = x.copy(weights=np.array([.011, -.017, .023, .005, -.009, .014])[:n])
    return x


def case_start(name):
    if name in BALLS:
        return start_ball
    return start


BALLS = {
    'circle': [[1, 0], [.3, .9], [-.8, .4], [-.5, -.9], [.6, -.8]],
    'arc': [[1, 0], [.3, .9], [-.8, .4], [-.9, -.3]],
    'tetrahedron': [[1, .9, 1.1], [1.1, -1, -.8], [-.9, 1.2, -1], [-1, -.9, .9]],
    'octahedron': [[1, .1, 0], [-1, 0, .2], [.1, 1, .15], [0, -1, .1], [.1, -.05, 1], [.15, .1, -1]],
    'cap': [[.1, .05, 1], [1, .1, .2], [.1, 1, .1], [-1, -.2, .3], [.1, -1, .15]],
    'simplex': [[1, 0, .1, 0], [-.2, .98, 0, .1], [-.25, -.3, .95, 0], [-.3, -.2, -.35, .9], [-.2, -.3, -.3, -.85]],
}


def start_ball(name, weighted):
    from pycomplex.complex.simplicial.spherical import ComplexCircular, ComplexSpherical, ComplexSpherical2
    from pycomplex.topology.simplicial import TopologyTriangular
    V = np.array(BALLS[name], dtype=float)
    V = V / np.linalg.norm(V, axis=1, keepdims=True)
    n, dim = V.shape
    w = np.array([.011, -.017, .023, .005, -.009, .014])[:n] if weighted else None
    if name == 'cap':
        cells = [(0, 1, 2), (0, 2, 3), (0, 3, 4)]
    elif dim == 2:
        cells = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if name == 'circle' else [])
    else:
        from mc.c10 import hull
        cells = [tuple(c) for c in np.asarray(hull(V)).tolist()]
    t = (TopologyTriangular if dim == 3 else TopologySimplicial).from_simplices(np.array(cells)).fix_orientation()
    return {2: ComplexCircular, 3: ComplexSpherical2}.get(dim, ComplexSpherical)(vertices=V, topology=t, radius=2.5, weights=w)


def cases_ball(tier):
    big = tier != 'quick'
    for name in BALLS:
        for weighted in (False, True):
            for first in range(len(list(moves(start_ball(name, weighted), big)))):
                yield [name, weighted, first, 3 if not big else 4, big]


def measures(c):
    out = {}
    e = [[frozenset(np.asarray(q).ravel().tolist()) for q in np.asarray(k)] for k in c.topology.elements]
    e[0] = [frozenset([i]) for i in range(len(c.vertices))]
    try:
        out['position'] = [dict(zip(k, np.asarray(p))) for k, p in zip(e, c.primal_position)]
        if hasattr(c, 'weights'):
            P, D = c.metric[:2]
            out['primal'] = [dict(zip(k, np.asarray(p))) for k, p in zip(e, P)]
            out['dual'] = [dict(zip(k, np.asarray(p))) for k, p in zip(e, D[::-1])]
            out['sizes'] = [len(p) for p in P] + [len(p) for p in D]
    except (AssertionError, ValueError) as error:       # meshes on spheres that are not well centered
        out['refused'] = type(error).__name__
    t, dim = c.topology, c.vertices.shape[1]
    if hasattr(c, 'weights') and t.n_dim == (dim if not hasattr(c, 'radius') else dim - 1):
        mid = c.vertices[np.asarray(t.elements[-1])].mean(axis=1)
        if hasattr(c, 'radius'):
            mid = mid / np.linalg.norm(mid, axis=1, keepdims=True)
        for name, f in (('pick_primal', lambda: c.pick_primal(mid)[0]), ('pick_dual', lambda: c.pick_dual(np.array(c.vertices, dtype=float)))):
            try:
                out[name] = np.asarray(f()).tolist()
            except (AssertionError, ValueError, ArithmeticError, np.linalg.LinAlgError) as error:
                out[name] = type(error).__name__
    return out


def as_fresh(y, what):
    """a complex that went through operations measures the same as one built from its vertices and cells"""
    t = y.topology
    kw = dict(vertices=np.array(y.vertices), topology=type(t).from_elements(np.array(t.elements[-1])))
    for k in ('weights', 'radius'):
        if hasattr(y, k):
            v = getattr(y, k)
            kw[k] = v if v is None or np.isscalar(v) else np.array(v)
    a, b = measures(y), measures(type(y)(**kw))
    kind, N, cells, V, W = snapshot(y)
    if kind == 's':
        from mc.c09 import centre
        W = np.zeros(len(V)) if W is None else W
        cells = np.array(cells)
        bary = [centre(V[c], W[c])[1] for n in range(1, N + 1) for c in (cells[:, list(s)] for s in itertools.combinations(range(N + 1), n + 1))]
        if min(np.abs(q).min() for q in bary) < 1e-5:      # rounding decides the sign of a dual measure
            if 'refused' in a or 'refused' in b:
                return
        if min(q.min() for q in bary) < 1e-3:       # rounding may decide where a point is found
            for k in ('pick_primal', 'pick_dual'):
                a.pop(k, None), b.pop(k, None)
    require(a.keys() == b.keys() and a.get('refused') == b.get('refused'), 'history refused', lambda: '{}: {} {}'.format(what, a.get('refused'), b.get('refused')))
    for k in ('sizes', 'pick_primal', 'pick_dual'):
        require(a.get(k) == b.get(k), 'history ' + k, what)
    for k in ('position', 'primal', 'dual'):
        for p, q in zip(a.get(k, []), b.get(k, [])):
            require(p.keys() == q.keys(), 'history elements', what)
            top = max([np.abs(v).max() for v in q.values()] + [1])
            for e in q:
                require(np.abs(p[e] - q[e]).max() <= 1e-6 * top, 'history ' + k, lambda: '{}: {} of {} is {} instead of {}'.format(what, k, sorted(e), p[e], q[e]))


def check_history(case, rec):
    name, weighted, first, depth, big = case
    make = case_start(name)

    def walk(x, left, path):
        options = list(moves(x, big))
        if not path:
            options = [options[first]] if first < len(options) else []
        for what, act, judge in options:
            here = path + [what]
            kept = snapshot(x)
            y = act()
            rec.step()
            rec.state(name, weighted, here)
            try:
                judge(y)
                if y is not None:
                    t = y.topology
                    require(len(y.vertices) == t.n_elements[0], 'history count', what)
                    if len(t.elements[-1]) <= 80:
                        topo.check_lattice(t, topo.model_of(t))
                    if t.n_dim >= 1 and len(t.elements[-1]) <= 80 and any(True for _ in moves(y, big)):
                        as_fresh(y, what)
                now = snapshot(x)
                require(now[:3] == kept[:3] and np.array_equal(now[3], kept[3]), 'history mutates', what)
            except Exception as e:
                e.args = ('{}{} after {}: {}'.format(name, ' weighted' if weighted else '', '.'.join(here), e.args[0] if e.args else ''),) + e.args[1:]
                raise
            rec.outcome(what)
            rec.trace()
            if left > 1 and y is not None and y.topology.n_dim >= 1:
                walk(y, left - 1, here)
    walk(make(name, weighted), depth, [])


def cases_history(tier):
    big = tier != 'quick'
    for name in STARTS:
        for weighted in (False, True):
            if weighted and STARTS[name][0] == 'c':
                continue
            for first in range(len(list(moves(start(name, weighted), big)))):
                yield [name, weighted, first, 3 if not big else 4, big]

SPACES = [
    Space('units', *scales.space(['plane', 'weighted', 'surface', 'line', 'solid', 'closed', 'cubical', 'regular'], scales.place), 'vertices of meshes on 3-4 (5) points of a warped lattice, flat, lifted and weighted, closed surfaces, regular grids, each in seven units from 2^-40 to 2^40', chunk=1, expect=['scaled']),
    Space('arrays', *scales.arrays_space(['plane', 'weighted', 'surface', 'line', 'solid', 'closed', 'cubical', 'regular'], scales.place), 'vertices of the same meshes with whole coordinates, made and asked with the same numbers in arrays of 6 layouts and 8 types of integer', chunk=1, expect=['same']),
    Space('smooth', cases_smooth, check_smooth, 'every catalogue complex of <=6 (12) cells with every crease set of one or two elements, full creases, vertex+edge combinations', chunk=2, expect=['creases', 'plain']),
    Space('subdivide', cases_subdivide, check_subdivide, 'every catalogue complex of <=4 (10) cells: direct and operator subdivision, smooth, with every crease set', chunk=1, expect=['cubical', 'loop']),
    Space('copies', cases_copies, check_copies, 'every catalogue complex of <=4 (8) cells: transformations, copies, subsets, boundary, weights, casts', chunk=4, expect=['weights', 'cast', 'cast refused', 'refused']),
    Space('products', cases_product, check_product, 'products of all pairs of factors in every embedding dimension', chunk=4),
    Space('histories', cases_history, check_history, 'every sequence of 3 (4) subdivisions, subsets, boundaries, transformations, clips, extrusions, products, smoothings and casts that applies to 12 small meshes, unweighted and weighted, grown to at most 60 (200) cells', chunk=1, expect=['loop', 'cubical', 'fundamental', 'simplicial', 'boundary', 'clip', 'extrude', 'product', 'smooth', 'as_2', 'as_3', 'as_cube', 'as_12', 'as_22', 'as_23', 'as_33']),
    Space('large', large.cases('edges', 'fan', 'tets', 'quads', 'hex'), large.check_smooth, '40 to 33000 copies of five small complexes, with creases: more than 2^15 elements of every kind', chunk=1, expect=['plain', 'creases', 'cubical', 'loop']),
]
