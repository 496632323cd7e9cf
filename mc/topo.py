"""Build real topologies and compare them with the reference lattice"""
import numpy as np

from mc import ref
from mc.harness import require
from pycomplex.topology.simplicial import TopologySimplicial, TopologyTriangular
from pycomplex.topology.cubical import TopologyCubical, TopologyCubical2


def build(kind, cells):
    """real topology of a list of flattened cells"""
    if kind == 's':
        return TopologySimplicial.from_simplices(np.array(cells))
    if kind == 't':
        return TopologyTriangular.from_simplices(np.array(cells))
    cells = np.array(cells)
    n = int(np.log2(cells.shape[1]) + .5)
    return TopologyCubical.from_cubes(cells.reshape((-1,) + (2,) * n))


def model(kind, cells):
    return ref.Cubical(cells) if kind == 'c' else ref.Simplicial(cells)


def model_of(topology):
    """reference lattice of the top cells of a real topology"""
    top = np.asarray(topology.elements[-1])
    cells = top.reshape(len(top), -1)
    if isinstance(topology, TopologyCubical):
        return ref.Cubical(cells.tolist())
    return ref.Simplicial(cells.tolist())


def dense(m):
    """dense int64 copy of a sparse matrix"""
    return np.asarray(m.todense()).astype(np.int64)


def check_lattice(t, m, eps=None):
    """the topology object t must describe exactly the face lattice of the reference model m"""
    N = m.n_dim
    require(t.n_dim == N, 'n_dim', lambda: 'n_dim {} expected {}'.format(t.n_dim, N))
    els = t.elements
    cells = [None] * (N + 1)
    for k in range(N + 1):
        cells[k] = m.cells(np.asarray(els[k]))
        keys = [frozenset(c) for c in cells[k]]
        expected = m.faces(k)
        require(len(keys) == len(expected) == t.n_elements[k], 'count',
                lambda: 'number of {}-elements: {} / {} expected {}'.format(k, len(keys), t.n_elements[k], len(expected)))
        require(set(keys) == expected, 'elements', lambda: '{}-elements are not the {}-faces of the input'.format(k, k))
        c = np.asarray(t.corners[k])
        require(m.cells(c) == cells[k], 'corners', lambda: 'corners[{}] disagree with elements'.format(k))
    require(cells[0] == [(i,) for i in range(len(cells[0]))], 'vertices', 'vertices are not 0..n-1 in order')
    require(cells[N] == m.top, 'top', 'top elements are not the input cells, in order, with their orientation')
    inc = t.incidence
    for k in range(N + 1):
        require(np.array_equal(np.asarray(inc[k, 0]).reshape(-1), np.asarray(els[k]).reshape(-1)) or k == 1, 'incidence0',
                lambda: 'incidence[{},0] is not the vertex list'.format(k))
    signs = {}
    mats = t.matrices
    require(len(mats) == N, 'matrices', 'wrong number of matrices')
    D = []
    for k in range(1, N + 1):
        M = mats[k - 1]
        require(M.shape == (len(cells[k - 1]), len(cells[k])), 'shape',
                lambda: 'matrix {} has shape {} expected {}'.format(k - 1, M.shape, (len(cells[k - 1]), len(cells[k]))))
        A = dense(M)
        D.append(A)
        where = {frozenset(c): i for i, c in enumerate(cells[k - 1])}
        B = np.asarray(inc[k, k - 1]).reshape(len(cells[k]), -1)
        for j, c in enumerate(cells[k]):
            subs = m.subcells(c)
            idx = [where[s] for s in subs]
            nz = np.flatnonzero(A[:, j]).tolist()
            require(sorted(idx) == nz, 'incidence', lambda: 'faces of {}-element {} ({}) are {} expected {}'.format(k, j, c, nz, sorted(idx)))
            require(sorted(B[j].tolist()) == sorted(idx), 'incidence_table',
                    lambda: 'incidence[{},{}][{}] = {} expected {}'.format(k, k - 1, j, B[j].tolist(), sorted(idx)))
            for i in idx:
                s = m.incident(c, cells[k - 1][i])
                a = A[i, j]
                require(a in (1, -1), 'unit', lambda: 'entry {}'.format(a))
                e = a * s
                if k not in signs:
                    signs[k] = e
                require(signs[k] == e, 'sign', lambda: 'sign of {}-face {} in {} is inconsistent with its orientation'.format(k - 1, cells[k - 1][i], c))
            if m.kind == 'simplicial' and k > 1:
                # i-th entry of the incidence table is the face opposite to the i-th vertex
                for q, v in enumerate(c):
                    require(v not in cells[k - 1][B[j][q]], 'opposite', lambda: 'entry {} of incidence is not opposite to vertex'.format(q))
    require(signs[1] == 1, 'edge_sign', 'edges must run from tail (-1) to head (+1)')
    for a, b in zip(D[:-1], D[1:]):
        require(not (a @ b).any(), 'dd', 'the boundary of a boundary does not vanish')
    for k in range(N):
        require((dense(t.matrix(k)) == D[k]).all() and (dense(t.matrix(k - N)) == D[k]).all() and (dense(t[k]) == D[k]).all(),
                'matrix', 'matrix(k), matrix(k-N) and [k] disagree with matrices')
    if type(t).__name__ == 'TopologyTriangular':
        require([t.n_vertices, t.n_edges, t.n_triangles] == list(t.n_elements), 'named counts',
                'n_vertices, n_edges and n_triangles are not the numbers of elements')
        for k, e in enumerate((t.vertices, t.edges, t.triangles)):
            require(np.array_equal(np.asarray(e), np.asarray(els[k])), 'named elements', 'vertices, edges and triangles are not the elements')
    return cells, D, signs
