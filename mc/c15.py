"""C15: algebra of stencil operators

Expressions over a catalogue of operators are enumerated exhaustively up to a number of leaves; every expression
is executed on all unit vectors and compared with the same expression in dense matrices.
"""
import numpy as np

from . import c14
from .harness import Space, require

PROPERTY = 'C15'
ASSUMPTIONS = ['operators as such (derivatives, smoothers) are decided by C14 and C17; here each leaf is compared with its reference matrix first']


class Node(object):
    """an operator with its reference matrix, a bound for its rounding errors and its type"""

    def __init__(self, name, op, M, B, typ):
        self.name, self.op, self.M, self.B, self.typ = name, op, M, B, typ


def smoothing(shape, n, total):
    S = c14.symbols(len(shape))
    size = int(np.prod(shape))
    w = np.array([1, 2, 1]) / (4. if total else 2.)
    M = np.zeros((len(S[n]) * size,) * 2)
    for c, s in enumerate(S[n]):
        K = np.ones((1, 1))
        for a, m in enumerate(shape):
            k = np.eye(m)
            if a not in s:
                k = np.zeros((m, m))
                for i in range(m):
                    for o, v in zip((-1, 0, 1), w):
                        k[i, (i + o) % m] += v
            K = np.kron(K, k)
        M[c * size:(c + 1) * size, c * size:(c + 1) * size] = K
    return M


def leaves(shape, small):
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil import operator as o
    N = len(shape)
    c = StencilComplex.from_shape(shape, scale=0.1)
    NE = [tuple(n) for n in c.n_elements]
    size = [int(np.prod(n)) for n in NE]
    out = []

    def add(name, op, M, typ):
        M = np.asarray(M, float)
        out.append(Node(name, op, M, np.abs(M), typ))
    for n in range(N + 1):
        for m in range(N + 1):
            if n == m or not small:
                add('0{}{}'.format(n, m), o.ZeroOperator((NE[n], NE[m])), np.zeros((size[n], size[m])), (n, m))
        add('I{}'.format(n), o.IdentityOperator(NE[n]), np.eye(size[n]), (n, n))
        k = np.arange(size[n]).reshape(NE[n])
        diagonals = [('D', 2 + np.cos(k * 1.3)), ('partial', (k % 2) * 3.)]
        if not small:
            diagonals += [('ones', np.ones(NE[n])), ('zeros', np.zeros(NE[n])), ('tiny', 1e-9 * (1 + k)), ('near', 1 + 1e-9 * k), ('scalar', 3), ('unit', 1), ('corner', (k == k.max()) * 1.), ('sign', 1. - 2 * (k % 2))]
        for name, d in diagonals:
            add('{}{}'.format(name, n), o.DiagonalOperator(d, NE[n]), np.diag(np.broadcast_to(d, NE[n]).reshape(-1)), (n, n))
        add('h{}'.format(n), c.hodge[n], np.eye(size[n]) * 0.1 ** (N - 2 * n), (n, n))
        add('s{}'.format(n), c.smoothers(True)[n], smoothing(shape, n, True), (n, n))
        # a plain, non symmetric operator
        P = np.roll(np.eye(size[n]), 1, axis=0)
        if not small:
            add('p{}'.format(n), o.StencilOperator(left=lambda x, P=P: (P.T @ x.reshape(-1)).reshape(x.shape), right=lambda x, P=P: (P @ x.reshape(-1)).reshape(x.shape), shape=(NE[n], NE[n])), P, (n, n))
    for n in range(N):
        M = c14.coboundary(shape, n)
        add('d{}'.format(n), c.topology.primal[n], M, (n + 1, n))
        add('e{}'.format(n), c.topology.dual[n], M.T, (n, n + 1))
    return out


def combine(A, B, kind):
    if kind == '*':
        if A.typ[1] != B.typ[0]:
            return None
        return Node('({}*{})'.format(A.name, B.name), None, A.M @ B.M, A.B @ B.B, (A.typ[0], B.typ[1]))
    if A.typ != B.typ:
        return None
    return Node('({}+{})'.format(A.name, B.name), None, A.M + B.M, A.B + B.B, A.typ)


def dense(op, rec):
    out = []
    shape = tuple(op.shape[1])
    for i in np.ndindex(*shape):
        e = np.zeros(shape)
        e[i] = 1
        r = np.asarray(op(e))
        require(r.shape == tuple(op.shape[0]), 'shape of result')
        require(e[i] == 1 and e.sum() == 1, 'modifies its argument')
        out.append(r.reshape(-1))
    rec.step(len(out))
    return np.array(out).T


def close(A, n):
    """tolerance relative to the sum of magnitudes that each entry is made of"""
    def f(D, M, B):
        return D.shape == M.shape and (np.abs(D - M) <= 3e-6 * B + 1e-300).all()
    return f


def judge(node, op, rec, NE, full):
    M, B = node.M, node.B
    name = node.name

    def same(D, M, B, what):
        require(D.shape == M.shape and (np.abs(D - M) <= 3e-6 * B).all(), what, name)
    require((tuple(op.shape[0]), tuple(op.shape[1])) == (NE[node.typ[0]], NE[node.typ[1]]), 'shape', name)
    same(dense(op, rec), M, B, 'matrix')
    T = op.transpose()
    require((tuple(T.shape[0]), tuple(T.shape[1])) == (NE[node.typ[1]], NE[node.typ[0]]), 'shape of transpose', name)
    same(dense(T, rec), M.T, B.T, 'transpose')
    if full:
        same(op.to_dense(), M, B, 'to_dense')
        same(dense(op.T.T, rec), M, B, 'double transpose')
        same(dense(op.simplify(), rec), M, B, 'simplified')
        same(dense(op.transpose().simplify(), rec), M.T, B.T, 'simplified transpose')
        L = op.aslinearoperator()
        x, y = np.cos(np.arange(M.shape[1]) * 1.1), np.cos(np.arange(M.shape[0]) * 1.7)
        require((np.abs(L.matvec(x) - M @ x) <= 1e-5 * (B @ np.abs(x))).all(), 'linear operator', name)
        require((np.abs(L.rmatvec(y) - M.T @ y) <= 1e-5 * (B.T @ np.abs(y))).all(), 'transposed linear operator', name)
        require((np.abs(L.matvec(x[:, None])[:, 0] - M @ x) <= 1e-5 * (B @ np.abs(x))).all(), 'linear operator column', name)
        for side, v, X, Y in (('right', x, M, B), ('left', y, M.T, B.T)):
            action = getattr(op, side, None)
            if action is not None:
                z = np.asarray(action(v.reshape(op.shape[1 if side == 'right' else 0]))).reshape(-1)
                require((np.abs(z - X @ v) <= 1e-5 * (Y @ np.abs(v))).all(), side + ' action', name)
        require(isinstance(repr(op), str), 'repr')
        f = np.cos(np.arange(M.shape[1]) * 0.7).reshape(NE[node.typ[1]])
        require((np.abs((op * f).reshape(-1) - M @ f.reshape(-1)) <= 1e-5 * (B @ np.abs(f.reshape(-1)))).all(), 'product with a form', name)
        rec.step(4)
    rec.trace()


SETS = {}


def table(shape, small):
    key = tuple(shape), small
    if key not in SETS:
        SETS[key] = leaves(tuple(shape), small)
    return SETS[key]


def cases_expressions(tier):
    quick = tier == 'quick'
    for shape in [[3], [2, 3]]:
        for k in range(4):
            yield [shape, 0, 1, k, 4]
        for k in range(8):
            yield [shape, 0, 2, k, 8]
    for shape, small, depth, chunks in ([([2, 3], 1, 3, 64), ([2], 1, 3, 16), ([2, 2], 0, 3, 256)] if quick else [([2, 3], 0, 3, 256), ([3], 0, 3, 64), ([2, 2, 1], 1, 3, 128), ([2], 1, 4, 256), ([2, 2], 1, 4, 512)]):
        for k in range(chunks):
            yield [shape, small, depth, k, chunks]


def trees(n):
    """shapes of binary trees with n leaves, with operations"""
    if n == 1:
        yield 0
        return
    for a in range(1, n):
        for l in trees(a):
            for r in trees(n - a):
                for k in '*+':
                    yield (k, l, r)


def check_expressions(case, rec):
    shape, small, depth, chunk, chunks = case
    L = table(shape, small)
    NE = [(len(s),) + tuple(shape) for s in c14.symbols(len(shape))]
    number = [0]

    by_row = {}
    for l in L:
        by_row.setdefault(l.typ[0], []).append(l)

    def expand(tree, row, col):
        """all well typed expressions of this form with given numbers of rows and columns (None: any)"""
        if tree == 0:
            for l in L if row is None else by_row.get(row, []):
                if col is None or l.typ[1] == col:
                    yield l.typ, l
            return
        k, a, b = tree
        for s, A in expand(a, row, col if k == '+' else None):
            for t, B in expand(b, s[0] if k == '+' else s[1], s[1] if k == '+' else col):
                yield (s[0], t[1]), (k, A, B)

    def node(e):
        return combine(node(e[1]), node(e[2]), e[0]) if isinstance(e, tuple) else e

    def simplified(e):
        if not isinstance(e, tuple):
            return e.op
        p, q = simplified(e[1]), simplified(e[2])
        return p * q if e[0] == '*' else p + q

    def raw(e):
        from pycomplex.stencil import operator as o
        if not isinstance(e, tuple):
            return e.op
        return (o.ComposedOperator if e[0] == '*' else o.CombinedOperator)([raw(e[1]), raw(e[2])])

    i = -1
    for tree in trees(depth):
        for typ, e in expand(tree, None, None):
            i += 1
            if i % chunks != chunk:
                continue
            n = node(e)
            rec.state(tuple(shape), n.name)
            op = simplified(e)
            judge(n, op, rec, NE, depth < 4)
            rec.outcome(type(op).__name__)
            if depth > 1:
                judge(n, raw(e), rec, NE, depth < 3)
    if depth == 1:
        for l in L:
            if l.name[0] in 'DhI' or l.name.startswith(('near', 'tiny', 'scalar', 'unit', 'ones', 'sign')):
                J = l.op.inverse()
                require(np.allclose(dense(J, rec) @ l.M, np.eye(len(l.M))), 'inverse', l.name)
                require(np.allclose(dense(l.op.I.T, rec) @ l.M, np.eye(len(l.M))), 'transposed inverse', l.name)
                require(np.allclose(dense(J * l.op, rec), np.eye(len(l.M))) and np.allclose(dense((J * l.op).simplify(), rec), np.eye(len(l.M))), 'inverse product', l.name)
                require(np.allclose(np.broadcast_to(l.op.diagonal, NE[l.typ[0]]).reshape(-1), np.diag(l.M)), 'diagonal', l.name)
                rec.outcome('inverse')
            elif l.name.startswith(('partial', 'zeros', 'corner')):
                try:
                    l.op.inverse()
                except FloatingPointError:
                    rec.outcome('singular refused')
                else:
                    require(False, 'inverse of a singular diagonal', l.name)


def cases_chains(tier):
    """flat lists of operators of equal type"""
    quick = tier == 'quick'
    for n in ([3, 4] if quick else [3, 4, 5]):
        for k in range(16 if quick else 64):
            yield [n, k, 16 if quick else 64]


def check_chains(case, rec):
    """flat compositions and sums of any length, of endomorphisms of 1-forms and derivatives in sequence"""
    from pycomplex.stencil import operator as o
    import itertools
    n, chunk, chunks = case
    shape = (2, 2)
    NE = [(len(s),) + shape for s in c14.symbols(2)]
    L = table(shape, False)
    pick = [l for l in L if l.typ == (1, 1) and l.name in ('011', 'I1', 'D1', 'partial1', 'scalar1', 's1', 'p1')]
    down = [l for l in L if l.name in ('e0', 'd0', 'e1', 'd1', 'D0', 'I2')]
    for i, ops in enumerate(itertools.chain(itertools.product(pick, repeat=n), itertools.product(down + pick[1:3], repeat=n))):
        if i % chunks != chunk:
            continue
        names = [l.name for l in ops]
        if all(a.typ[1] == b.typ[0] for a, b in zip(ops[:-1], ops[1:])):
            M, B = ops[0].M, ops[0].B
            for l in ops[1:]:
                M, B = M @ l.M, B @ l.B
            node = Node('*'.join(names), None, M, B, (ops[0].typ[0], ops[-1].typ[1]))
            given = [l.op for l in ops]
            op = o.ComposedOperator(list(given))
            judge(node, op, rec, NE, False)
            judge(node, op.simplify(), rec, NE, False)
            require(op.operators == given, 'simplification modifies the operator')
            rec.state('*', names)
            rec.outcome('composed')
        elif n == 3 and all(a.op.shape[1] == b.op.shape[0] for a, b in zip(ops[:-1], ops[1:])):
            pass
        elif not all(a.op.shape[1] == b.op.shape[0] for a, b in zip(ops[:-1], ops[1:])):
            try:
                o.ComposedOperator([l.op for l in ops])
            except AssertionError:
                rec.outcome('mismatch refused')
            else:
                require(False, 'mismatching operators composed', str(names))
        if all(a.typ == ops[0].typ for a in ops):
            M = sum(l.M for l in ops)
            node = Node('+'.join(names), None, M, sum(l.B for l in ops), ops[0].typ)
            given = [l.op for l in ops]
            op = o.CombinedOperator(list(given))
            judge(node, op, rec, NE, False)
            judge(node, op.simplify(), rec, NE, False)
            require(op.operators == given, 'simplification modifies the operator')
            rec.state('+', names)
            rec.outcome('combined')


SPACES = [
    Space('expressions', cases_expressions, check_expressions, 'all well typed expressions of 1-2 leaves over 54 operators, of 3 leaves over 22 (thorough: 54; 4 leaves over 22)',
          expect=['ComposedOperator', 'CombinedOperator', 'ZeroOperator', 'IdentityOperator', 'DiagonalOperator', 'inverse', 'singular refused'], chunk=1),
    Space('chains', cases_chains, check_chains, 'all flat products and sums of 3-4 (5) operators out of 7', expect=['composed', 'combined', 'mismatch refused'], chunk=1),
]
