"""C23: no query changes a mesh, and no result depends on what was asked before"""
import copy
import inspect
import itertools
import types

import numpy as np
import scipy.sparse
import scipy.spatial

from mc import gen
from mc.c08 import build as build_mesh, embed
from mc.c11 import build as build_regular, grid
from mc.harness import Space, require
from pycomplex import synthetic
from pycomplex.complex.base import BaseComplex
from pycomplex.complex.cubical import ComplexCubical
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3
from pycomplex.complex.simplicial.spherical import ComplexCircular, ComplexSpherical2, ComplexSpherical3
from pycomplex.stencil.block import BlockArray
from pycomplex.stencil.complex import StencilComplex
from pycomplex.stencil.diffusion import Diffusion
from pycomplex.stencil.equation import Equation
from pycomplex.stencil.linear_system import System
from pycomplex.stencil.multigrid import solve_full_cycle, v_cycle
from pycomplex.stencil.operator import StencilOperator, ZeroOperator
from pycomplex.stencil.topology import StencilTopology
from pycomplex.topology.base import BaseTopology

PROPERTY = 'C23'
ASSUMPTIONS = ['operations are the public attributes and methods of the classes, found by inspection; plotting, files and operations with other arguments than those supplied here are left out',
               'results are compared to 1e-6; two failures are alike if they raise the same type']


# --- what a value is

class Unknown(Exception):
    pass


def freeze(x, depth=0, skip=()):
    """plain data, detached from the object"""
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, np.generic)):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ['objects', x.shape] + [freeze(y, depth + 1) for y in x.ravel()]
        return np.array(x)
    if scipy.sparse.issparse(x):
        m = x.tocoo(copy=True)
        if m.shape[0] * m.shape[1] <= 10 ** 6:
            return ['sparse', m.shape, str(m.dtype), np.asarray(m.toarray())]
        m.sum_duplicates()
        return ['sparse', m.shape, str(m.dtype), m.row, m.col, m.data]
    if isinstance(x, StencilOperator):
        return [type(x).__name__, freeze(x.shape), np.array(x.to_dense())]
    if isinstance(x, BlockArray):
        return [type(x).__name__, freeze(x.block)]
    if isinstance(x, (StencilComplex, StencilTopology)):
        return [type(x).__name__, list(x.shape), getattr(x, 'scale', None)]
    if isinstance(x, System):
        return ['System', freeze(x.complex), freeze(x.A), freeze(x.B), np.array(x.L), np.array(x.R)]
    if isinstance(x, Equation):
        return [type(x).__name__, freeze(x.system), freeze(getattr(x, 'fields', None))]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return ['dict'] + [[repr(k), freeze(x[k], depth + 1)] for k in sorted(x, key=repr)]
    if isinstance(x, scipy.spatial.cKDTree):
        return ['tree', np.array(x.data)]
    if isinstance(x, BaseComplex):
        out = [type(x).__name__, np.array(x.vertices), freeze(getattr(x, 'weights', None)), getattr(x, 'radius', None)]
        return out + [freeze(x.topology, depth + 1)]
    if isinstance(x, BaseTopology):
        out = [type(x).__name__]
        for k in ('_elements', '_boundary', '_orientation'):
            out.append(freeze(getattr(x, k, None), depth + 1))
        out.append(freeze(x.__dict__.get('parent_idx'), depth + 1))
        return out
    if isinstance(x, types.GeneratorType) or hasattr(x, '__next__'):
        return ['iterator'] + [freeze(y, depth + 1) for y in x]
    if callable(x):
        return ['function']
    if hasattr(x, '__dict__') and depth < 4:
        return [type(x).__name__] + [[k, freeze(v, depth + 1)] for k, v in sorted(x.__dict__.items()) if k not in ('parent', 'primal') and k[0] != '_' and not hasattr(type(x), k)]
    return [type(x).__name__]


def same(a, b):
    if type(a) is list or type(b) is list:
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind in 'fc':
            if np.array_equal(a, b):
                return True
            return a.size == 0 or bool(np.isclose(a, b, rtol=1e-6, atol=1e-6 * (1e-30 + np.abs(a[np.isfinite(a)]).max(initial=0)), equal_nan=True).all())
        return bool((a == b).all())
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return bool(np.isclose(a, b, rtol=1e-6, atol=1e-12, equal_nan=True))
    return type(a) is type(b) and a == b


def run(f, obj, args):
    """('value', x) or ('raises', type)"""
    try:
        return 'value', f(obj, *args)
    except Exception as e:
        return 'raises', type(e).__name__


def frozen(r):
    return ['raises', r[1]] if r[0] == 'raises' else ['value', freeze(r[1])]


def identity(obj):
    """what makes up the object itself"""
    out = [freeze(obj)]
    if isinstance(obj, BaseComplex):
        out.append(freeze(obj.topology))
    return out


def public_name(obj, k):
    """an attribute of the class; how else an object keeps notes is its own affair"""
    return k[0] != '_' and hasattr(inspect.getattr_static(type(obj), k, None), '__get__')


def cached(obj):
    """every attribute it has remembered so far, live"""
    if isinstance(obj, Equation):
        return stencil_cached(obj)
    out = {'.' + k: v for k, v in obj.__dict__.items() if k not in ('parent', 'topology', 'primal') and public_name(obj, k)}
    t = obj.__dict__.get('topology')
    if t is not None:
        out.update({'.topology.' + k: v for k, v in t.__dict__.items() if k not in ('parent',) and public_name(t, k)})
    return out


# --- operations

SKIP = ('plot', 'save', 'load', 'from_', 'coarse_to_fine', 'fine_to_coarse', 'pick_precomp_', 'multigrid_transfer_dual')


def arguments(obj):
    """values for arguments of a given name"""
    out = {}
    if isinstance(obj, BaseComplex):
        t = obj.topology
        n = np.arange(1, 8)
        V = obj.vertices
        lo, hi = V.min(axis=0), V.max(axis=0)
        P = lo + (hi - lo) * (0.5 + 0.55 * np.sin(n[:, None] * (1.7 + np.arange(V.shape[1]))))
        if hasattr(obj, 'radius'):
            P = P / np.linalg.norm(P, axis=1, keepdims=True)
        out['points'] = P
        out['p0'] = np.cos(np.arange(t.n_elements[0]) * 1.3)
        try:
            out['d0'] = np.cos(np.arange(t.dual.n_elements[0]) * 1.3)
        except Exception:
            pass
        out['field'] = np.cos(np.arange(np.asarray(t.elements[-1]).size) * 0.7).reshape(t.n_elements[-1], -1)
        out['weights'] = np.cos(np.arange(len(V)) * 2.1)
        out['vector'] = np.arange(1, V.shape[1] + 1) * 0.5
        out['transform'] = np.eye(V.shape[1]) + 0.2 * np.sin(np.arange(V.shape[1] ** 2)).reshape(V.shape[1], -1)
        out['scale'] = 2.5
        out['support'] = V.mean(axis=0)
        out['direction'] = np.arange(1, V.shape[1] + 1) * 1.0
        out['pts'] = V[np.asarray(t.elements[-1]).reshape(t.n_elements[-1], -1)[:, :2]]
        out['normal'] = out['direction']
        out['thickness'] = 0.3
        if isinstance(obj, ComplexCubical):
            out['other'] = synthetic.n_cube_grid((2,))
    else:
        t = obj
        out['other'] = None
    chain = (np.arange(t.n_elements[-1]) % 3 != 1) if t.n_elements[-1] > 1 else np.ones(1, bool)
    out['n_chain'] = chain
    out['n'] = 1
    return out


def operations(obj, fresh):
    """[(name, f(obj, *args), args)]"""
    cls = type(obj)
    values = arguments(fresh())
    out = []
    for name in sorted(dir(cls)):
        if name.startswith('_') or any(name.startswith(s) for s in SKIP):
            continue
        a = inspect.getattr_static(cls, name)
        if isinstance(a, (staticmethod, classmethod, type)):
            continue
        if inspect.isfunction(a):
            parameters = list(inspect.signature(a).parameters.values())[1:]
            need = [p.name for p in parameters if p.default is p.empty and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]
            if any(p not in values or values[p] is None for p in need):
                continue
            out.append((name, lambda o, *x, name=name: getattr(o, name)(*x), [values[p] for p in need]))
            # the same with each of its flags the other way
            for p in parameters:
                if isinstance(p.default, bool):
                    out.append((name + ' ' + p.name, lambda o, *x, name=name, k={p.name: not p.default}: getattr(o, name)(*x, **k), [values[p] for p in need]))
        elif hasattr(a, '__get__'):
            out.append((name, lambda o, name=name: getattr(o, name), []))
    # the same with further arguments
    t = fresh() if isinstance(fresh(), BaseTopology) else fresh().topology
    extra = []
    if isinstance(obj, BaseComplex):
        P = values['points']
        creases = {0: (np.arange(t.n_elements[0]) % 2).astype(np.int8)}
        every = {k: (np.arange(n) % 3 != 1).astype(np.int8) for k, n in enumerate(t.n_elements[:-1])}
        every = [{k: every[k] for k in ks} for r in (1, 2, 3) for ks in itertools.combinations(sorted(every), r) if ks != (0,)]
        extra += [(name, [c]) for c in every for name in ('smooth', 'smooth_operator')]
        extra += [('smooth', [creases]), ('smooth_operator', [creases]), ('subdivide_loop', [True, creases]), ('subdivide_loop_operator', [True, creases]), ('subdivide_operator', [creases, True]),
                  ('subdivide_cubical', [creases, True]), ('dual_edge_excess', [False]), ('remap_boundary_N', [values['field'], False]),
                  ('pick_primal', [P, np.zeros(len(P), int)]), ('pick_fundamental', [P, np.zeros(len(P), int)]), ('augment', [P[:1].repeat(t.n_elements[0], axis=0), values['weights']]),
                  ('clip', [values['support'], values['direction'], False]), ('subdivide_fundamental', [False]), ('sample_dual_0', [values.get('d0'), P, False])]
        extra = [e for e in extra if hasattr(cls, e[0]) and not any(x is None for x in e[1])]
        flux = np.cos(np.arange(t.n_elements[t.n_dim - 1]) * 1.9)
        try:
            flux = np.cos(np.arange(t.dual.n_elements[1]) * 1.9)
        except Exception:
            pass
        out.append(('velocity', lambda o, x: o.dual_flux_to_dual_velocity(x), [flux]))
    else:
        extra += [('matrix', [k]) for k in range(t.n_dim)] + [('matrix', [0, t.n_dim]), ('chain', [0, 1]), ('form', [t.n_dim, 2]), ('range', [0])]
        extra = [e for e in extra if hasattr(cls, e[0])]
    for i, (name, args) in enumerate(extra):
        out.append((name + '+' + str(len(args)) + ' ' + str(i), lambda o, *x, name=name: getattr(o, name)(*x), args))
    return out


# --- meshes

def catalogue():
    """name: function that makes it"""
    out = {}
    fan = np.array([[0, 0], [1, 0.1], [0.35, 0.9], [-0.8, 0.6], [-0.7, -0.7], [0.4, -1.]])
    wheel = np.array([[0, i, i % 5 + 1] for i in range(1, 6)])
    W = 0.04 * np.cos(np.arange(6) * 1.7)
    out['triangles'] = lambda: ComplexTriangularEuclidian2(vertices=fan.copy(), triangles=wheel[:4].copy())
    out['weighted triangles'] = lambda: ComplexTriangularEuclidian2(vertices=fan.copy(), triangles=wheel.copy(), weights=W.copy())
    out['simplices 2'] = lambda: ComplexSimplicialEuclidian(vertices=fan.copy(), simplices=wheel[1:4].copy(), weights=W.copy()) if False else ComplexSimplicialEuclidian(vertices=fan.copy(), simplices=wheel.copy())
    O = np.array([[0, 0, 0.1], [1, 0, 0], [0, 1, 0], [0, 0, 1.]])
    tet = np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
    out['surface'] = lambda: ComplexTriangularEuclidian3(vertices=O.copy(), triangles=tet.copy())
    out['open surface'] = lambda: ComplexTriangularEuclidian3(vertices=O.copy(), triangles=tet[:3].copy())
    out['line'] = lambda: ComplexSimplicialEuclidian(vertices=np.array([[0.], [1.], [1.7], [2.9]]), simplices=np.array([[0, 1], [1, 2], [2, 3]]))
    out['ring'] = lambda: ComplexSimplicialEuclidian(vertices=fan[1:].copy(), simplices=np.array([[i, (i + 1) % 5] for i in range(5)]))
    P3 = np.array([[0, 0, 0], [1, 0.1, 0], [0.4, 0.9, 0.1], [0.5, 0.3, 0.8], [0.45, 0.35, -0.9]])
    out['tetrahedra'] = lambda: ComplexSimplicialEuclidian(vertices=P3.copy(), simplices=np.array([[0, 1, 2, 3], [1, 0, 2, 4]]))
    out['quads'] = lambda: build_mesh('c', gen.grid_cubes((2, 1)), embed(6, 2, 0)).copy()
    out['quad grid'] = lambda: synthetic.n_cube_grid((2, 2)).as_22()
    out['cubes'] = lambda: synthetic.n_cube_grid((2, 1, 1)).as_33()
    out['cubes 2 in 3'] = lambda: synthetic.n_cube(3).boundary
    for dim, shape in ((1, (3,)), (2, (2, 2)), (3, (2, 1, 1))):
        out['regular {}'.format(dim)] = lambda dim=dim, shape=shape: build_regular(*grid(shape, 1, range(int(np.prod(shape))), 0), dim)
    out['sphere'] = lambda: ComplexSpherical2(vertices=synthetic.n_cube_dual(3).vertices, simplices=np.asarray(synthetic.n_cube_dual(3).topology.elements[-1]), radius=2.)
    out['half sphere'] = lambda: ComplexSpherical2(vertices=np.array([[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [0, 0, 1.]]), simplices=np.array([[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]))
    a = np.arange(5) * 2 * np.pi / 5
    out['circle'] = lambda: ComplexCircular(vertices=np.stack([np.cos(a), np.sin(a)], axis=1), simplices=np.array([[i, (i + 1) % 5] for i in range(5)]), radius=1.5)
    out['sphere 3'] = lambda: ComplexSpherical3(vertices=synthetic.n_simplex(4).vertices / np.linalg.norm(synthetic.n_simplex(4).vertices, axis=1, keepdims=True), simplices=np.asarray(synthetic.n_simplex(4).boundary.topology.elements[-1]))
    return out


def maker(name):
    """fast fresh copies of a mesh, or of its topology or dual"""
    base, _, part = name.partition('/')
    obj = catalogue()[base]()
    cls = type(obj)
    topology = obj.topology

    def plain():
        c = copy.copy(obj)
        c.__dict__ = {k: v for k, v in obj.__dict__.items()}
        return c
    make = {'': lambda: obj, 'topology': lambda: topology, 'dual': lambda: topology.dual}[part]
    prototype = make()
    if part == 'dual':
        return lambda: type(prototype)(copy.deepcopy(strip(topology)))

    def fresh():
        return copy.deepcopy(strip(prototype))
    return fresh


def strip(obj):
    """a copy without what was remembered"""
    c = copy.copy(obj)
    c.__dict__ = {}
    static = lambda k: inspect.getattr_static(type(obj), k, None)
    for k, v in obj.__dict__.items():
        if static(k) is None or not hasattr(static(k), '__get__') or isinstance(static(k), property):
            c.__dict__[k] = v
    c.__dict__.pop('parent', None) if not isinstance(obj, BaseTopology) else None
    t = c.__dict__.get('topology')
    if t is not None:
        c.__dict__['topology'] = strip(t)
    return c


# --- stencils

def stencil_maker(shape):
    def fresh():
        c = StencilComplex.from_shape(shape, scale=0.5)
        n = c.n_elements
        f = lambda k, a: np.array(1.2 + np.sin(np.arange(np.prod(n[k])) * a), dtype=np.float32).reshape(n[k])
        return Diffusion.formulate(c, dict(constraint=f(0, 1.3), conductance=f(1, 0.7), resistance=f(1, 2.1), foo=f(1, 0.4)))
    return fresh


def public(cls, stop=()):
    return [n for n in sorted(dir(cls)) if not n.startswith('_') and n not in stop and not inspect.isfunction(inspect.getattr_static(cls, n))
            and not isinstance(inspect.getattr_static(cls, n), (classmethod, staticmethod))]


def set_copy(A):
    B = A.copy()
    B[0, 0] = ZeroOperator(A[0, 0].shape)
    return B


def stencil_operations(fresh):
    e = fresh()
    n = e.complex.n_elements
    N = len(n) - 1
    form = lambda k, a: np.array(np.cos(np.arange(np.prod(n[k])) * a), dtype=np.float32).reshape(n[k])
    x = BlockArray([form(k, 1.1 + k) for k in e.system.R])
    y = BlockArray([form(k, 0.8 + k) for k in e.system.L])
    out = []
    for k in public(StencilTopology):
        out.append(('topology.' + k, lambda e, k=k: getattr(e.complex.topology, k), []))
    for k in public(StencilComplex):
        out.append(('complex.' + k, lambda e, k=k: getattr(e.complex, k), []))
    for k in range(N):
        out.append(('d{}'.format(k), lambda e, f, k=k: e.complex.topology.primal[k](f), [form(k, 1.9)]))
        out.append(('dual d{}'.format(k), lambda e, f, k=k: e.complex.topology.dual[k](f), [np.cos(np.arange(np.prod(e.complex.topology.dual[k].shape[1])) * 1.9).reshape(e.complex.topology.dual[k].shape[1])]))
    for k in range(N + 1):
        out.append(('hodge{}'.format(k), lambda e, f, k=k: (e.complex.hodge[k](f), e.complex.hodge[k].I(f), e.complex.hodge[k].T(f)), [form(k, 1.4)]))
        out.append(('coarsen{}'.format(k), lambda e, f, k=k: e.complex.coarsen[k](f), [form(k, 1.4)]))
        out.append(('smooth{}'.format(k), lambda e, f, k=k: [e.complex.smoothers(s)[k](f) for s in (True, False)], [form(k, 1.4)]))
        out.append(('refine{}'.format(k), lambda e, f, k=k: e.complex.fine.refine[k](f), [form(k, 1.4)]))
    out.append(('sample', lambda e, f, p: e.complex.sample_0(f, p), [form(0, 1.4), np.abs(np.sin(np.arange(1, 1 + 5 * N) * 1.7)).reshape(-1, N)]))
    for name in ('normal', 'normal_ne', 'allocate_x', 'allocate_y', 'copy'):
        out.append(('system.' + name, lambda e, name=name: getattr(e.system, name)(), []))
    out.append(('system[0]', lambda e: e.system[:1, :1], []))
    out.append(('canonical', lambda e: System.canonical(e.complex), []))
    for name in ('restrict_dual', 'restrict_primal'):
        out.append(('system.' + name, lambda e, y, name=name: getattr(e.system, name)(y), [y]))
        out.append((name, lambda e, y, name=name: getattr(e, name)(y), [y]))
    out.append(('A*x', lambda e, x: e.system.A * x, [x]))
    out.append(('AT*y', lambda e, y: e.system.A.transpose() * y, [y]))
    out.append(('A*A', lambda e: e.system.A.transpose() * e.system.A, []))
    out.append(('simplify', lambda e: e.system.A.simplify(), []))
    out.append(('A.copy', lambda e: e.system.A.copy(), []))
    out.append(('slice', lambda e: e.system.A.__getslice__((slice(0, 1), slice(None))), []))
    out.append(('set copy', lambda e: set_copy(e.system.A), []))
    out.append(('blocks', lambda e, x, y: [x + y, x - y, x * y, x * 2, x.abs(), x.sum(), x.invert(), x.to_dense(), x.from_dense(x.to_dense())], [x, y]))
    out.append(('linear operator', lambda e, x: e.system.A.aslinearoperator() * x.to_dense(), [x]))
    for k in public(Diffusion, ('projected_rows', 'inverse_sg_normal_diagonal')):
        out.append((k, lambda e, k=k: getattr(e, k), []))
    out.append(('residual', lambda e, x, y: e.residual(x, y), [x, y]))
    for name in ('jacobi', 'NR_BLOCK_GS', 'NE_BLOCK_GS', 'smooth'):
        out.append((name, lambda e, x, y, name=name: getattr(e, name)(x, y), [x, y]))
    out.append(('overrelax', lambda e, x, y: e.overrelax(x, y, [0.5, 1.0]), [x, y]))
    out.append(('solve', lambda e, x, y: e.solve(y, x).to_dense().round(2), [x, y]))
    out.append(('solve 0', lambda e, y: e.solve(y).to_dense().round(2), [y]))
    out.append(('restrict', lambda e, y: e.restrict(y), [y]))
    out.append(('interpolate', lambda e, x: e.interpolate(e.coarse.system.allocate_x() + 1), [x]))
    out.append(('v_cycle', lambda e, x, y: v_cycle(e.hierarchy(1), y, x).to_dense().round(2), [x, y]))
    out.append(('full_cycle', lambda e, y: solve_full_cycle(e.hierarchy(1), y).to_dense().round(2), [y]))
    return out


def stencil_cached(e):
    out = {}
    for k, o in (('.', e), ('.complex.', e.complex), ('.topology.', e.complex.topology)):
        out.update({k + n: v for n, v in o.__dict__.items() if n not in ('complex', 'topology', 'system') and public_name(o, n)})
    return out


class World(object):
    def __init__(self, name):
        if name.startswith('stencil'):
            self.fresh = stencil_maker(tuple(map(int, name.split()[1:])))
            self.ops = stencil_operations(self.fresh)
        else:
            self.fresh = maker(name)
            self.ops = operations(self.fresh(), self.fresh)
        self.core = identity(self.fresh())
        self.want = []
        for _, f, args in self.ops:
            self.want.append(frozen(run(f, self.fresh(), copy.deepcopy(args))))


def describe(a, b):
    return '{} instead of {}'.format(str(b)[:150], str(a)[:150])


def check_history(w, history, rec, deep=True):
    """run a sequence of operations on one object; every result is the one of a fresh object, and stays what it was"""
    obj = w.fresh()
    live, names = [], [w.ops[i][0] for i in history]
    for step, i in enumerate(history):
        name, f, args = w.ops[i]
        mine = copy.deepcopy(args)
        keep = freeze(mine)
        before = {k: freeze(v) for k, v in cached(obj).items()} if deep else {}
        r = run(f, obj, mine)
        rec.step()
        got = frozen(r)
        require(same(w.want[i], got), 'depends on history', lambda: '{} after {}: {}'.format(name, names[:step], describe(w.want[i], got)))
        require(same(keep, freeze(mine)), 'changes its arguments', lambda: name)
        now = cached(obj)
        for k, v in before.items():
            require(k in now and same(v, freeze(now[k])), 'changes what was remembered', lambda: '{} by {}'.format(k, name))
        live.append((name, r, got))
    for name, r, got in live:
        if r[0] == 'value' and not (hasattr(r[1], '__next__')):
            require(same(got, frozen(r)), 'result changed afterwards', lambda: '{} by {}'.format(name, names))
    require(same(w.core, identity(obj)), 'changes the mesh', lambda: '{}'.format(names))
    rec.trace()
    return obj, live


def check_derived(w, i, rec):
    """operations on the result of an operation leave its source alone"""
    name, f, args = w.ops[i]
    r = run(f, w.fresh(), copy.deepcopy(args))
    if r[0] != 'value':
        return
    pick = lambda v: [x for x in ([v] if not isinstance(v, (list, tuple)) else v) if isinstance(x, (BaseComplex, BaseTopology))]
    if not pick(r[1]):
        return

    def child():
        obj = w.fresh()
        return obj, pick(f(obj, *copy.deepcopy(args)))[0]
    try:
        ops = operations(child()[1], lambda: child()[1])
    except Exception:
        rec.outcome('no arguments')
        return
    for n, g, a in ops:
        obj, c = child()
        if c is obj:
            return
        before = {k: freeze(v) for k, v in cached(obj).items()}
        core = identity(c)
        mine = copy.deepcopy(a)
        first = run(g, c, mine)
        got = frozen(first)
        again = frozen(run(g, c, mine))
        rec.step(3)
        require(same(got, again), 'repeated', lambda: '{} of {}: {}'.format(n, name, describe(got, again)))
        now = cached(obj)
        for k, v in before.items():
            require(k in now and same(v, freeze(now[k])), 'changes its source', lambda: '{} by {} of {}'.format(k, n, name))
        require(same(w.core, identity(obj)), 'changes its source', lambda: '{} of {}'.format(n, name))
        require(same(core, identity(c)), 'changes the mesh', lambda: '{} of {}'.format(n, name))
    rec.outcome('derived')
    rec.trace(len(ops))


_WORLDS = {}


def world(name):
    if name not in _WORLDS:
        _WORLDS.clear()
        _WORLDS[name] = World(name)
    return _WORLDS[name]


def names(big=False):
    out = []
    for n in catalogue():
        out.append(n)
        # the others are made of the same classes
        if big or n in ('triangles', 'surface', 'simplices 2', 'line', 'tetrahedra', 'quad grid', 'cubes', 'cubes 2 in 3'):
            out.append(n + '/topology')
    out += ['stencil 4', 'stencil 2 2', 'stencil 4 2'][:3 if big else 2]
    out += [n + '/dual' for n in ('triangles', 'surface', 'tetrahedra', 'quad grid', 'cubes', 'line')]
    return out


MOST = 100


def cases_pairs(tier):
    for n in names(tier != 'quick'):
        for i in range(MOST):
            yield [n, i]


def check_pairs(case, rec):
    name, i = case
    w = world(name)
    if i >= len(w.ops):
        rec.outcome('no such operation')
        return
    require(len(w.ops) <= MOST, 'harness', 'more operations than cases')
    n = len(w.ops)
    for j in range(n):
        check_history(w, [i, j, i], rec, cheap(name))
        rec.state(name, w.ops[i][0], w.ops[j][0])
    # everything, in two orders
    check_history(w, [(i + j) % n for j in range(n)] + [i], rec, False)
    check_history(w, [i] + [(i - j) % n for j in range(n)], rec, False)
    rec.outcome('raises' if w.want[i][0] == 'raises' else 'value')
    rec.outcome('stencil' if name.startswith('stencil') else 'topology' if '/' in name else 'mesh')
    if not name.startswith('stencil'):
        check_derived(w, i, rec)


def cheap(name):
    return not name.startswith('stencil')


def cases_triples(tier):
    for n in ('triangles/topology',) if tier == 'quick' else ('line', 'quads', 'triangles', 'surface/topology', 'triangles/topology', 'tetrahedra/topology', 'cubes/topology', 'triangles/dual', 'quad grid/dual'):
        for i in range(MOST):
            yield [n, i, tier != 'quick']


def check_triples(case, rec):
    """three operations, after which the first is repeated"""
    name, i, big = case
    w = world(name)
    if i >= len(w.ops):
        rec.outcome('no such operation')
        return
    n = len(w.ops)
    for j in range(n):
        for k in range(n) if big else range((i + j) % 8, n, 8):
            check_history(w, [i, j, k, i], rec, False)
        rec.state(name, w.ops[i][0], w.ops[j][0])
    rec.outcome('triple', n)


SPACES = [
    Space('pairs', cases_pairs, check_pairs, 'all ordered pairs of the 25-85 operations of each of 19 meshes, of the topologies and duals of 8 (19) of them, and of 2 (3) stencil equations, with the first repeated; all operations in one run in either order from each first one; all operations on each derived mesh, twice', chunk=3,
          expect=['value', 'derived', 'mesh', 'topology', 'stencil']),
    Space('triples', cases_triples, check_triples, 'all triples of operations of 7 topologies and duals and of three meshes (quick: an eighth of those of one topology)', chunk=2, expect=['triple']),
]
