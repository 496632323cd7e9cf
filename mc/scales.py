"""The same mesh in other units: every quantity of a mesh scaled by s is that of the mesh itself, times a power of s.

Powers of two are used, so that scaling is exact and does not change the rounding of anything that scales properly; the
quantities themselves are checked elsewhere, on meshes of about unit size."""
import itertools

import numpy as np

from mc.harness import require
from pycomplex.complex.cubical import ComplexCubical
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3

EXPONENTS = (-40, -20, -7, 9, 20, 40)


def planar(tier, sizes=((3, 3), (4, 3)), more=((3, 4), (4, 4), (5, 3))):
    from mc.c10 import compact, delaunay, orient, warp
    for m, size in sizes if tier == 'quick' else sizes + more:
        L = warp(2, size)
        for s in itertools.combinations(range(len(L)), m):
            V = L[list(s)]
            cells = delaunay(V)
            if len(cells):
                v, t, _ = compact(V, orient(V, cells))
                yield v, t


def meshes(kinds, tier):
    """(key, function of a scale that makes a mesh)"""
    for kind in kinds:
        if kind in ('plane', 'weighted', 'surface'):
            for k, (v, t) in enumerate(planar(tier)):
                yield [kind, k]
        elif kind == 'line':
            for k in range(4):
                yield [kind, k]
        elif kind == 'solid':
            for k in range(70):
                yield [kind, k]
        elif kind == 'closed':
            for k in range(6):
                yield [kind, k]
        else:
            for k in range(12):
                yield [kind, k]


_PLANAR = {}


def same(x):
    return x


def make(kind, k, tier='quick'):
    """function of a scale that makes the mesh, or None"""
    if kind in ('plane', 'weighted', 'surface'):
        if tier not in _PLANAR:
            _PLANAR[tier] = list(planar(tier))
        v, t = _PLANAR[tier][k]
        if kind == 'plane':
            return lambda s, fv=same, ft=same: [ComplexTriangularEuclidian2, ComplexTriangularEuclidian][k % 2](vertices=fv(v * s), triangles=ft(t))
        if kind == 'weighted':
            W = np.array([0, 0.3, -0.4, 0.1, -0.2])[:len(v)] * (0.2 if k % 2 else 1)
            return lambda s, fv=same, ft=same: ComplexTriangularEuclidian(vertices=fv(v * s), triangles=ft(t), weights=W * s ** 2)
        x = np.concatenate([v, np.cos(np.arange(len(v)) * 1.9)[:, None]], axis=1)
        return lambda s, fv=same, ft=same: ComplexTriangularEuclidian3(vertices=fv(x * s), triangles=ft(t))
    if kind == 'line':
        x = np.array([0, 1.1, 1.7, 3.1, 4.2])[:k + 2, None]
        t = np.array([[i, i + 1] for i in range(k + 1)])
        return lambda s, fv=same, ft=same: ComplexSimplicialEuclidian(vertices=fv(x * s), simplices=ft(t))
    if kind == 'solid':
        from mc.c10 import delaunay, orient, warp
        L = warp(3, 2)
        V = L[list(list(itertools.combinations(range(8), 4))[k])]
        cells = delaunay(V)
        if not len(cells):
            return None
        cells = orient(V, cells)
        return lambda s, fv=same, ft=same: ComplexSimplicialEuclidian(vertices=fv(V * s), simplices=ft(cells))
    if kind == 'closed':
        from mc.c13 import surfaces
        v, t = sorted(surfaces().items())[k][1]
        return lambda s, fv=same, ft=same: ComplexTriangularEuclidian3(vertices=fv(v * s), triangles=ft(t))
    from mc.c11 import build as build_regular, grid
    shape = [(1,), (3,), (1, 1), (2, 1), (2, 2), (3, 2), (1, 1, 1), (2, 1, 1), (2, 2, 1), (2,), (1, 3), (1, 2, 2)][k]
    n = int(np.prod(shape))
    drop = range(n) if n < 3 else [i for i in range(n) if i != 1]
    cells, V = grid(shape, 1, drop, k % 2)
    if kind == 'regular':
        return lambda s, fv=same, ft=same: build_regular(cells, fv(V * s), len(shape), ft)
    if kind == 'cubical' and len(shape) > 1:
        X = V + 0.05 * np.sin(np.arange(V.size) * 1.7).reshape(V.shape)
        return lambda s, fv=same, ft=same: ComplexCubical(vertices=fv(X * s), cubes=ft(np.reshape(cells, (-1,) + (2,) * len(shape))))
    return None


def attempt(f):
    try:
        return f()
    except (AssertionError, ValueError, NotImplementedError, IndexError) as e:
        return type(e).__name__


def flatten(x):
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in flatten(y)]
    if hasattr(x, 'toarray'):
        x = x.toarray()
    return [x if isinstance(x, (str, bool)) or x is None else np.asarray(x)]


def compare(name, base, other, degree, s, tol, how=' in other units'):
    a, b = flatten(base), flatten(other)
    require(len(a) == len(b), name + how, lambda: '{} {} instead of {}'.format(s, b, a))
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, (str, bool)) or x is None or isinstance(y, (str, bool)) or y is None:
            require(type(x) == type(y) and x == y, name + how, lambda: '{} {} instead of {}'.format(s, y, x))
            continue
        require(x.shape == y.shape, name + how, lambda: '{} {} instead of {}'.format(s, y, x))
        if not x.size:
            continue
        size = float(s) if how == ' in other units' else 1.0
        d = degree[i] if isinstance(degree, (list, tuple)) else degree
        want = x * size ** d
        if 'hodge' in name:     # edges of no length, up to rounding
            keep = np.abs(x) < 1e6
            want, y = want[keep], y[keep]
        ok = np.isfinite(want) == np.isfinite(y)
        require(ok.all() and np.abs((y - want)[np.isfinite(want)]).max(initial=0) <= tol * max(1e-3 * size ** d, np.abs(want[np.isfinite(want)]).max(initial=0)), name + how,
                lambda: '{}: {} instead of {}'.format(s, y.ravel()[:6], want.ravel()[:6]))


def space(kinds, quantities, tol=1e-6):
    """cases and check for quantities(complex, unit) -> [(name, function, degree or degrees)]"""
    def cases(tier):
        keys = list(meshes(kinds, tier))
        for i in range(0, len(keys), 4):
            yield [keys[i:i + 4], tier]

    def check(case, rec):
        for kind, k in case[0]:
            f = make(kind, k, case[1])
            if f is None:
                continue
            c = f(1.0)
            base = {}
            for n, q, d in quantities(c, 1.0):
                if n not in base:       # the first of those that should agree
                    base[n] = attempt(q)
            for e in EXPONENTS:
                s = 2.0 ** e
                rec.state(kind, k, e)
                c = f(s)
                for n, q, d in quantities(c, s):
                    if n not in base:       # meaningless on this mesh
                        continue
                    rec.step()
                    want, got = base[n], attempt(q)
                    compare(n, want, got, d, s, 1e-5 if 'hodge' in n else tol)
                    rec.outcome('refused' if isinstance(got, str) else 'scaled')
                rec.trace()
    return cases, check


# --- the same numbers in another array

def strided(a):
    b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
    b[tuple(slice(None, None, 2) for _ in a.shape)] = a
    return b[tuple(slice(None, None, 2) for _ in a.shape)]


def locked(a):
    a = a.copy()
    a.flags.writeable = False
    return a


LAYOUTS = {'columns': np.asfortranarray, 'strided': strided, 'locked': locked, 'backward': lambda a: np.ascontiguousarray(a[::-1])[::-1], 'list': lambda a: a.tolist(),
           'swapped': lambda a: a.astype(a.dtype.newbyteorder())}
INTEGERS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']


def arrays(signed=True):
    """every way to pass the same whole numbers, signed ones of any size"""
    for n, f in LAYOUTS.items():
        yield n, f
    for k in INTEGERS:
        if signed is False or k in ('int32', 'int64'):
            yield k, lambda a, k=k: a.astype(k)


def arrays_space(kinds, quantities, tol=1e-6):
    """cases and check for the same mesh, made and asked with the same numbers in other arrays: the answers are the same"""
    def cases(tier):
        keys = list(meshes(kinds, tier))
        for i in range(0, len(keys), 4):
            yield [keys[i:i + 4], tier]

    def whole(a):
        return np.round(np.asarray(a) * 16)

    def check(case, rec):
        import inspect
        given = 'give' in inspect.signature(quantities).parameters
        for kind, k in case[0]:
            f = make(kind, k, case[1])
            if f is None:
                continue
            rec.state(kind, k)

            def ask(c, give=same):
                return quantities(c, 1.0, give) if given else quantities(c, 1.0)

            def answers(asked):
                base = {}
                for n, q, d in asked:
                    if n not in base:       # the first of those that should agree
                        base[n] = attempt(q)
                return base
            base = answers(ask(f(1.0, whole)))
            todo = [('vertices as ' + n, lambda g=g: ask(f(1.0, lambda a: g(whole(a))))) for n, g in arrays()]
            todo += [('cells as ' + n, lambda g=g: ask(f(1.0, whole, g))) for n, g in arrays(False)]
            if given:
                todo += [('arguments as ' + n, lambda g=g: ask(f(1.0, whole), g)) for n, g in LAYOUTS.items() if n != 'list']
            todo = [(how, t, base) for how, t in todo]
            if given:
                base = answers(ask(f(1.0, whole), whole))
                todo += [('arguments as ' + n, lambda n=n: ask(f(1.0, whole), lambda a: whole(a).astype(n)), base) for n in ('int32', 'int64')]
            for how, t, base in todo:
                for n, q, d in t():
                    rec.step()
                    if n in base:
                        compare(n, base[n], attempt(q), 0, how, 1e-5 if 'hodge' in n else tol, ' in other arrays')
                        rec.outcome('refused' if isinstance(base[n], str) else 'same')
            rec.trace()
    return cases, check


# --- what to ask

def metric(c, s):
    N = c.topology.n_dim
    k = list(range(N + 1))
    out = [('primal metric', lambda: list(c.primal_metric), k), ('dual metric', lambda: list(c.dual_metric), k),
           ('closed dual metric', lambda: list(c.dual_metric_closed), k),
           ('primal position', lambda: list(c.primal_position), 1), ('dual position', lambda: list(c.dual_position), 1),
           ('hodge', lambda: list(c.hodge_DP), [N - 2 * i for i in k]), ('inverse hodge', lambda: list(c.hodge_PD), [2 * i - N for i in k]),
           ]
    generic = all(np.abs(x).min(initial=1) > 1e-9 * s ** i for i, x in enumerate(c.dual_metric))
    if generic:
        out += [('well centered', lambda: bool(c.is_well_centered), 0), ('delaunay', lambda: bool(c.is_pairwise_delaunay), 0)]
    if hasattr(c, 'primal_barycentric'):
        out += [('barycentric', lambda: list(c.primal_barycentric), 0)]
    if generic and c.is_well_centered:
        out += [('weighted averages', lambda: list(c.weighted_average_operators), 0)]
    if hasattr(c, 'compute_triangle_areas'):
        out += [('triangle areas', lambda: c.compute_triangle_areas, 2), ('vertex areas', lambda: c.compute_vertex_areas, 2),
                ('angles', lambda: c.compute_triangle_angles, 0), ('cotangents', lambda: c.compute_edge_ratio, 0)]
    return out


def points(c, s, n=12):
    """fixed generic points within and around the mesh"""
    V = c.vertices / s
    lo, hi = V.min(axis=0), V.max(axis=0)
    i = np.arange(n)
    return lo + (hi - lo) * (0.5 + 0.52 * np.sin((i[:, None] + 1) * (1.7 + 0.6 * np.arange(V.shape[1]))))


def pick(c, s, give=same):
    t = c.topology
    P = points(c, s) * s
    hint = np.arange(len(P)) % t.n_elements[-1]
    hint = give(hint) if give in LAYOUTS.values() else hint
    p0 = give(np.cos(np.arange(t.n_elements[0]) * 1.3))
    d0 = give(np.cos(np.arange(t.dual.n_elements[0]) * 1.3))
    P = give(P)
    out = [('dual cell', lambda: c.pick_dual(P), 0), ('fundamental domain', lambda: c.pick_fundamental(P)[0], 0), ('sampled dual form', lambda: c.sample_dual_0(d0, P), 0),
           ('sampled form', lambda: c.sample_primal_0(p0, P), 0)]
    if hasattr(type(c), 'pick_precompute') or not hasattr(c, 'homogenize'):
        out += [('cell', lambda: list(c.pick_primal(P)), 0), ('cell from hint', lambda: list(c.pick_primal(P, hint)), 0)]
    return out


def surface(c, s):
    import tempfile
    out = [('triangle areas', lambda: c.compute_triangle_areas, 2), ('vertex areas', lambda: c.compute_vertex_areas, 2),
           ('angles', lambda: c.compute_triangle_angles, 0), ('cotangents', lambda: c.compute_edge_ratio, 0)]
    if isinstance(c, ComplexTriangularEuclidian3):
        out += [('area', lambda: c.area(), 2), ('volume', lambda: c.volume(), 3), ('center of mass', lambda: c.center_of_mass(), 1), ('lengths', lambda: c.edge_lengths(), 1),
                ('normals', lambda: c.triangle_normals(), 2), ('centroids', lambda: c.triangle_centroids(), 1), ('areas of vertices', lambda: c.vertex_areas(), 2),
                ('normals of vertices', lambda: c.vertex_normals(), 2)]

        def extruded():
            e = c.extrude(c.copy(vertices=c.vertices + np.array([0.1, 0.2, 1.5]) * s))
            return [e.vertices, e.topology.triangles]
        out += [('extrusion', extruded, [1, 0])]
    d = c.vertices.shape[1]
    mid = c.vertices.mean(axis=0)
    for k in range(4):
        direction = np.cos(k * 1.3 + np.arange(d) * 2.1)
        for unit in (1, 2.0 ** -40, 2.0 ** 40):
            def clipped(clip, direction=direction * unit):
                m = c.clip(mid, direction, clip=clip)
                return [m.vertices, m.topology.triangles]
            out += [('clipped {}'.format(k), lambda f=clipped: f(True), [1, 0]), ('split {}'.format(k), lambda f=clipped: f(False), [1, 0])]
    return out


def place(c, s):
    out = [('positions', lambda: list(c.primal_position), 1), ('smooth', lambda: c.smooth().vertices, 1),
           ('smooth with creases', lambda: c.smooth({0: np.arange(c.topology.n_elements[0]) % 3 == 0}).vertices, 1),
           ('box', lambda: list(c.box), 1), ('fundamental subdivision', lambda: c.subdivide_fundamental().vertices, 1),
           ('cubical subdivision', lambda: c.subdivide_cubical().vertices, 1)]
    if hasattr(c, 'subdivide_loop'):
        out += [('loop subdivision', lambda: c.subdivide_loop(smooth=True).vertices, 1)]
    if hasattr(c, 'subdivide_simplicial'):
        out += [('simplicial subdivision', lambda: c.subdivide_simplicial().vertices, 1)]
    if c.topology.n_dim > 1 and c.topology.boundary is not None:
        out += [('boundary', lambda: c.boundary.vertices, 1)]
    return out


def velocity(c, s, give=same):
    t = c.topology
    flux = give(np.cos(np.arange(t.dual.n_elements[1]) * 1.9))
    return [('velocity', lambda: c.dual_flux_to_dual_velocity(flux), -1)]


def weights(c, s):
    return [('excess', lambda: c.dual_edge_excess(), 2), ('excess without sign', lambda: c.dual_edge_excess(signed=False), 2),
            ('weights', lambda: c.optimize_weights().weights, 2), ('weights for centers', lambda: c.optimize_weights_metric().weights, 2),
            ('weights of fundamental domains', lambda: c.subdivide_fundamental().optimize_weights_fundamental().weights, 2)]


def lattice(c, s):
    t = c.topology
    return [('elements', lambda: list(t.elements), 0), ('corners', lambda: list(t.corners), 0), ('matrices', lambda: list(t.matrices), 0),
            ('orientation', lambda: [t.matrices[-1].toarray().sum(axis=1), bool(t.is_oriented)], 0),
            ('oriented', lambda: t.fix_orientation().elements[-1], 0), ('boundary', lambda: [] if t.boundary is None else list(t.boundary.parent_idx), 0), ('dual', lambda: list(t.dual.matrices), 0)]
