"""Boring pure-python reference model of finite simplicial and cubical complexes.

Nothing in here uses the library under test. Cells are tuples of vertex labels; orientation is computed from
determinants / permutation parities, never from index tables.
"""
import itertools


# ---------------------------------------------------------------- permutations

def perm_sign(seq, ref):
    """sign of the permutation taking ref to seq; both list the same distinct labels"""
    pos = {v: i for i, v in enumerate(ref)}
    p = [pos[v] for v in seq]
    sign = 1
    seen = [False] * len(p)
    for i in range(len(p)):
        if seen[i]:
            continue
        j, n = i, 0
        while not seen[j]:
            seen[j] = True
            j = p[j]
            n += 1
        if n % 2 == 0:
            sign = -sign
    return sign


# ---------------------------------------------------------------- simplices

class Simplicial(object):
    """face lattice of a list of ordered simplices"""
    kind = 'simplicial'

    def __init__(self, simplices):
        self.top = [tuple(int(v) for v in s) for s in simplices]
        self.n_dim = len(self.top[0]) - 1

    def faces(self, k):
        out = set()
        for s in self.top:
            out.update(frozenset(f) for f in itertools.combinations(s, k + 1))
        return out

    def key(self, cell):
        return frozenset(cell)

    def incident(self, cell, face):
        """signed incidence of an ordered (k-1)-cell in an ordered k-cell; 0 if not a face.
        standard convention: d(v0..vk) = sum (-1)^i (v0..^vi..vk)"""
        fs = set(face)
        if not fs < set(cell) or len(fs) != len(cell) - 1:
            return 0
        i = [j for j, v in enumerate(cell) if v not in fs][0]
        rest = cell[:i] + cell[i + 1:]
        return (-1) ** i * perm_sign(face, rest)

    def subcells(self, cell):
        """vertex sets of the codimension one faces of a cell"""
        return [frozenset(cell[:i] + cell[i + 1:]) for i in range(len(cell))]

    def cells(self, arr):
        return [tuple(int(v) for v in c) for c in arr.reshape(len(arr), -1)]

    def relative(self, a, b):
        """relative orientation of two ordered cells on the same vertices"""
        if len(a) == 1:
            return 1
        return perm_sign(a, b)


# ---------------------------------------------------------------- cubes

def cube_coords(n):
    return list(itertools.product((0, 1), repeat=n))


class Cubical(object):
    """face lattice of a list of cubes given as flattened (2,)**n corner arrays (C order)"""
    kind = 'cubical'

    def __init__(self, cubes, n_dim=None):
        self.top = [tuple(int(v) for v in c) for c in cubes]
        self.n_dim = (len(self.top[0])).bit_length() - 1

    def sub(self, cell, fixed):
        """subarray of a cube with some axes fixed: fixed = {axis: side}"""
        n = len(cell).bit_length() - 1
        return tuple(cell[i] for i, c in enumerate(cube_coords(n)) if all(c[a] == s for a, s in fixed.items()))

    def all_sub(self, cell, k):
        n = len(cell).bit_length() - 1
        for axes in itertools.combinations(range(n), n - k):
            for sides in itertools.product((0, 1), repeat=n - k):
                yield self.sub(cell, dict(zip(axes, sides)))

    def faces(self, k):
        out = set()
        for c in self.top:
            out.update(frozenset(f) for f in self.all_sub(c, k))
        return out

    def key(self, cell):
        return frozenset(cell)

    def relative(self, a, b):
        """relative orientation of two corner arrangements of the same cube; 0 if they are not the same cube"""
        n = len(a).bit_length() - 1
        if n == 0:
            return 1 if a == b else 0
        coords = cube_coords(n)
        where = {v: c for v, c in zip(b, coords)}
        if len(where) != len(b) or set(a) != set(b):
            return 0
        o = where[a[0]]
        m = []
        for ax in range(n):
            unit = tuple(1 if i == ax else 0 for i in range(n))
            p = where[a[coords.index(unit)]]
            m.append([p[i] - o[i] for i in range(n)])
        # every corner must follow the same signed permutation
        for v, c in zip(a, coords):
            e = tuple(o[i] + sum(c[ax] * m[ax][i] for ax in range(n)) for i in range(n))
            if where[v] != e:
                return 0
        return det(m)

    def incident(self, cell, face):
        n = len(cell).bit_length() - 1
        fs = set(face)
        if len(face) * 2 != len(cell):
            return 0
        for axis in range(n):
            for side in (0, 1):
                s = self.sub(cell, {axis: side})
                if set(s) == fs:
                    return (-1) ** axis * (1 if side else -1) * self.relative(face, s)
        return 0

    def subcells(self, cell):
        n = len(cell).bit_length() - 1
        return [frozenset(self.sub(cell, {a: s})) for a in range(n) for s in (0, 1)]

    def cells(self, arr):
        return [tuple(int(v) for v in c) for c in arr.reshape(len(arr), -1)]


def det(m):
    """determinant of a small integer matrix (Laplace)"""
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n) if m[0][j])


# ---------------------------------------------------------------- graph helpers

class DSU(object):
    def __init__(self, items):
        self.p = {i: i for i in items}

    def find(self, i):
        while self.p[i] != i:
            self.p[i] = self.p[self.p[i]]
            i = self.p[i]
        return i

    def union(self, a, b):
        self.p[self.find(a)] = self.find(b)

    def groups(self):
        g = {}
        for i in self.p:
            g.setdefault(self.find(i), []).append(i)
        return list(g.values())


def star_components(model):
    """{vertex: number of groups of top cells around it, connected through shared codimension-1 faces}"""
    out = {}
    faces = [set(model.subcells(c)) for c in model.top]
    by_vertex = {}
    for i, c in enumerate(model.top):
        for v in c:
            by_vertex.setdefault(v, []).append(i)
    for v, ids in by_vertex.items():
        d = DSU(ids)
        for a, b in itertools.combinations(ids, 2):
            if faces[a] & faces[b]:
                d.union(a, b)
        out[v] = len(d.groups())
    return out


def face_components(model):
    """partition of top cells by shared codimension-1 faces"""
    d = DSU(range(len(model.top)))
    owner = {}
    for i, c in enumerate(model.top):
        for f in model.subcells(c):
            if f in owner:
                d.union(i, owner[f])
            owner[f] = i
    return d


def face_owners(model):
    owners = {}
    for i, c in enumerate(model.top):
        for f in model.subcells(c):
            owners.setdefault(f, []).append(i)
    return owners


def induced(model, cell, fkey):
    """an orientation reference for the face of a cell: canonical sorted tuple (simplicial) or first sub array"""
    if model.kind == 'simplicial':
        face = tuple(sorted(fkey))
        return face, model.incident(cell, face)
    n = len(cell).bit_length() - 1
    for axis in range(n):
        for side in (0, 1):
            s = model.sub(cell, {axis: side})
            if frozenset(s) == fkey:
                return s, (-1) ** axis * (1 if side else -1)


def compat(model, i, j, fkey):
    """+1 if cells i and j induce opposite orientations on their shared face (consistently oriented), else -1"""
    a, b = model.top[i], model.top[j]
    fa, sa = induced(model, a, fkey)
    fb, sb = induced(model, b, fkey)
    rel = model.relative(fa, fb)
    return -sa * sb * rel


def orientation_model(model):
    """returns (pseudo_manifold, consistent, orientable, dsu, parity)"""
    owners = face_owners(model)
    if any(len(o) > 2 for o in owners.values()):
        return dict(pseudo=False)
    edges = [(o[0], o[1], compat(model, o[0], o[1], f)) for f, o in owners.items() if len(o) == 2]
    consistent = all(s == 1 for _, _, s in edges)
    n = len(model.top)
    # breadth first 2-colouring
    adj = {i: [] for i in range(n)}
    for a, b, s in edges:
        adj[a].append((b, s))
        adj[b].append((a, s))
    colour = {}
    comp = {}
    orientable = True
    for r in range(n):
        if r in colour:
            continue
        colour[r] = 1
        comp[r] = r
        todo = [r]
        while todo:
            i = todo.pop()
            for j, s in adj[i]:
                if j not in colour:
                    colour[j] = colour[i] * s
                    comp[j] = r
                    todo.append(j)
                elif colour[j] != colour[i] * s:
                    orientable = False
    return dict(pseudo=True, consistent=consistent, orientable=orientable, colour=colour, comp=comp, edges=edges)


def rank_mod_p(rows, p=1000003):
    """rank over GF(p) of a dense list of rows"""
    rows = [[x % p for x in r] for r in rows]
    rank = 0
    n_cols = len(rows[0]) if rows else 0
    for c in range(n_cols):
        piv = None
        for r in range(rank, len(rows)):
            if rows[r][c]:
                piv = r
                break
        if piv is None:
            continue
        rows[rank], rows[piv] = rows[piv], rows[rank]
        inv = pow(rows[rank][c], p - 2, p)
        rows[rank] = [x * inv % p for x in rows[rank]]
        for r in range(len(rows)):
            if r != rank and rows[r][c]:
                f = rows[r][c]
                rows[r] = [(x - f * y) % p for x, y in zip(rows[r], rows[rank])]
        rank += 1
    return rank


def betti(matrices, n_elements):
    """rational Betti numbers of a chain complex given as dense integer matrices [n_{k}, n_{k+1}]"""
    ranks = [rank_mod_p([list(map(int, r)) for r in m]) if m.size else 0 for m in matrices]
    out = []
    for k, n in enumerate(n_elements):
        down = ranks[k - 1] if k > 0 else 0
        up = ranks[k] if k < len(ranks) else 0
        out.append(n - down - up)
    return out
