"""Exhaustive enumerators of small complexes"""
import functools
import itertools


def compact(cells):
    """relabel vertices to a contiguous range, preserving order"""
    used = sorted({v for c in cells for v in c})
    m = {v: i for i, v in enumerate(used)}
    return [[m[v] for v in c] for c in cells]


def perms(n):
    return list(itertools.permutations(range(n)))


def apply(cell, perm):
    return [cell[i] for i in perm]


@functools.lru_cache(None)
def uniform_classes(n_vertices, size, max_cells=None, pseudo=False):
    """one representative (lexicographically least) of every isomorphism class of nonempty sets of
    `size`-element cells on at most n_vertices vertices. pseudo: every (size-1)-subset is in at most two cells"""
    cells = list(itertools.combinations(range(n_vertices), size))
    index = {c: i for i, c in enumerate(cells)}
    maps = []
    for p in itertools.permutations(range(n_vertices)):
        maps.append([index[tuple(sorted(p[v] for v in c))] for c in cells])
    seen = set()
    out = []
    frontier = [()]
    # grow by one cell at a time, keeping canonical representatives
    level = {()}
    while level:
        nxt = set()
        for s in level:
            for i in range(len(cells)):
                if i in s:
                    continue
                t = tuple(sorted(s + (i,)))
                if pseudo:
                    count = {}
                    ok = True
                    for j in t:
                        for f in itertools.combinations(cells[j], size - 1):
                            count[f] = count.get(f, 0) + 1
                            if count[f] > 2:
                                ok = False
                    if not ok:
                        continue
                if t in seen:
                    continue
                orbit = {tuple(sorted(m[j] for j in t)) for m in maps}
                seen |= orbit
                nxt.add(min(orbit))
        for t in sorted(nxt):
            out.append([list(cells[j]) for j in t])
        if max_cells is not None and nxt and len(next(iter(nxt))) >= max_cells:
            break
        level = nxt
    return out


@functools.lru_cache(None)
def cube_symmetries(n):
    """all 2^n n! corner index permutations of the n-cube, each as a list of flat indices; identity first"""
    coords = list(itertools.product((0, 1), repeat=n))
    idx = {c: i for i, c in enumerate(coords)}
    out = []
    for axes in itertools.permutations(range(n)):
        for flip in itertools.product((0, 1), repeat=n):
            out.append([idx[tuple(c[axes[i]] ^ flip[i] for i in range(n))] for c in coords])
    return out


def grid_cubes(shape):
    """cubes (flattened corners, C order) of a grid"""
    n = len(shape)
    vshape = [s + 1 for s in shape]

    def vid(c):
        r = 0
        for x, s in zip(c, vshape):
            r = r * s + x
        return r
    out = []
    for o in itertools.product(*[range(s) for s in shape]):
        out.append([vid([a + b for a, b in zip(o, c)]) for c in itertools.product((0, 1), repeat=n)])
    return out


def periodic_cubes(shape, twist=()):
    """cubes of a periodic grid. twist: for axis 0 only; wrapping around axis 0 reflects the listed axes"""
    n = len(shape)

    def vid(c, open_axes=()):
        c = list(c)
        if c[0] == shape[0]:
            c[0] = 0
            for t in twist:
                c[t] = (-c[t]) % shape[t]
        r = 0
        for x, s in zip(c, shape):
            r = r * s + (x % s)
        return r
    out = []
    for o in itertools.product(*[range(s) for s in shape]):
        out.append([vid([a + b for a, b in zip(o, c)]) for c in itertools.product((0, 1), repeat=n)])
    return out


def moebius_cubes(length, width=1, twist=True):
    """band of quads; glued with a twist (Moebius) or straight (cylinder)"""
    w = width + 1

    def vid(i, j):
        if i == length:
            i, j = 0, (width - j if twist else j)
        return i * w + j
    return [[vid(i, j), vid(i, j + 1), vid(i + 1, j), vid(i + 1, j + 1)] for i in range(length) for j in range(width)]


def moebius_triangles(n):
    """n triangles in a closed band: (i, i+1, i+2) mod n; Moebius for odd n, cylinder for even n (n >= 5)"""
    return [[i % n, (i + 1) % n, (i + 2) % n] for i in range(n)]


RP2 = [[0, 1, 4], [0, 1, 5], [0, 2, 3], [0, 2, 5], [0, 3, 4], [1, 2, 3], [1, 2, 4], [1, 3, 5], [2, 4, 5], [3, 4, 5]]


def split_quads(quads):
    """each quad (a b / c d) into triangles (a, b, c) (b, d, c)"""
    out = []
    for a, b, c, d in quads:
        out += [[a, b, c], [b, d, c]]
    return out


TORUS7 = [[i % 7, (i + 1) % 7, (i + 3) % 7] for i in range(7)] + [[i % 7, (i + 3) % 7, (i + 2) % 7] for i in range(7)]


def simplex_boundary(n):
    """boundary of the n-simplex, as (n-1)-simplices, arbitrary orientation"""
    return [list(c) for c in itertools.combinations(range(n + 1), n)]


def cross_polytope(n):
    """2^n simplices of dimension n-1: boundary of the cross polytope; vertex 2i / 2i+1 are antipodal"""
    return [[2 * i + s for i, s in enumerate(c)] for c in itertools.product((0, 1), repeat=n)]


def kuhn(shape):
    """Kuhn (Freudenthal) triangulation of a grid of cubes into n! simplices each"""
    n = len(shape)
    vshape = [s + 1 for s in shape]

    def vid(c):
        r = 0
        for x, s in zip(c, vshape):
            r = r * s + x
        return r
    out = []
    for o in itertools.product(*[range(s) for s in shape]):
        for p in itertools.permutations(range(n)):
            c = list(o)
            s = [vid(c)]
            for a in p:
                c[a] += 1
                s.append(vid(c))
            out.append(s)
    return out


def kuhn_vertices(shape):
    return [list(c) for c in itertools.product(*[range(s + 1) for s in shape])]


def flip(cell, kind):
    """the same cell with opposite orientation"""
    if kind == 'c':
        n = len(cell) // 2
        return cell[n:] + cell[:n]
    if len(cell) == 1:
        return cell
    return [cell[1], cell[0]] + list(cell[2:])


def disjoint(*parts):
    """disjoint union"""
    out, o = [], 0
    for p in parts:
        out += [[v + o for v in c] for c in p]
        o += max(v for c in p for v in c) + 1
    return out


def base_complexes(tier):
    """named catalogue of small pseudo-manifold complexes: (kind, cells); orientable and not, open, closed, pinched, disjoint"""
    out = []
    # 1-d: paths and cycles
    for n in (1, 2, 3):
        out.append(('s', [[i, i + 1] for i in range(n)]))
    for n in (3, 4):
        out.append(('s', [[i, (i + 1) % n] for i in range(n)]))
    out += [('c', c) for k, c in out]
    out.append(('s', [[0, 1], [2, 3]]))
    out.append(('c', [[0, 1], [2, 3]]))
    # 2-d
    for cells in uniform_classes(5, 3, pseudo=True):
        out.append(('s', cells))
    for cells in uniform_classes(6, 3, pseudo=True):
        if max(v for c in cells for v in c) == 5:
            out.append(('s', cells))
    out.append(('s', TORUS7))
    for n in (5, 6, 7):
        out.append(('s', moebius_triangles(n)))
    for cells in uniform_classes(6, 4, pseudo=True):
        out.append(('s', cells))
    for cells in uniform_classes(6, 5, pseudo=True):
        out.append(('s', cells))
    tri = [[0, 1, 2]]
    two = [[0, 1, 2], [1, 3, 2]]
    for parts in ([tri, tri], [tri, two], [two, two], [tri, tri, tri], [tri, two, tri], [two, tri, two], [moebius_triangles(5), tri], [tri, moebius_triangles(5)],
                  [simplex_boundary(3), tri], [tri, simplex_boundary(3)], [simplex_boundary(3), simplex_boundary(3)], [RP2, tri]):
        out.append(('s', disjoint(*parts)))
    tet = [[0, 1, 2, 3]]
    tets = [[0, 1, 2, 3], [0, 2, 1, 4]]
    for parts in ([tet, tet], [tet, tets], [tets, tet], [simplex_boundary(4), tet]):
        out.append(('s', disjoint(*parts)))
    for n in (2, 3, 4):
        out.append(('s', cross_polytope(n)))
    for shape in ((1, 2), (2, 2), (1, 1, 1), (2, 1, 1)):
        out.append(('s', kuhn(shape)))
    out.append(('s', split_quads(periodic_cubes((3, 3)))))
    out.append(('s', split_quads(periodic_cubes((4, 3), twist=(1,)))))
    out.append(('s', kuhn((1, 1, 1, 1))))
    # cubes
    for shape in ((2, 2), (1, 3), (2, 3)):
        cells = grid_cubes(shape)
        for r in range(1, len(cells) + 1):
            for sub in itertools.combinations(cells, r):
                out.append(('c', compact(sub)))
    for shape in ((1, 1, 2), (1, 2, 2)):
        cells = grid_cubes(shape)
        for r in range(1, len(cells) + 1):
            for sub in itertools.combinations(cells, r):
                out.append(('c', compact(sub)))
    if tier != 'quick':
        cells = grid_cubes((2, 2, 2))
        for r in range(1, len(cells) + 1):
            for sub in itertools.combinations(cells, r):
                out.append(('c', compact(sub)))
    for n in (3, 4, 5):
        out.append(('c', moebius_cubes(n)))
        out.append(('c', moebius_cubes(n, twist=False)))
    out.append(('c', moebius_cubes(3, 2)))
    out.append(('c', periodic_cubes((3, 3))))
    out.append(('c', periodic_cubes((4, 3), twist=(1,))))
    quad, quads = grid_cubes((1, 1)), grid_cubes((1, 2))
    for parts in ([quad, quad], [quad, quads], [quads, quad], [quads, quads], [quad, quads, quad], [moebius_cubes(3), quad], [quad, moebius_cubes(3)]):
        out.append(('c', disjoint(*parts)))
    out.append(('c', disjoint(grid_cubes((1, 1, 1)), grid_cubes((1, 1, 2)))))
    out.append(('c', grid_cubes((1, 1, 1, 1))))
    out.append(('c', grid_cubes((2, 1, 1, 1))))
    if tier != 'quick':
        out.append(('c', periodic_cubes((3, 3, 3))))
        out.append(('c', grid_cubes((2, 2, 1, 1))))
    seen, uniq = set(), []
    for kind, cells in out:
        key = (kind, tuple(map(tuple, cells)))
        if key not in seen:
            seen.add(key)
            uniq.append((kind, [list(c) for c in cells]))
    uniq.sort(key=lambda kc: (len(kc[1]), len(kc[1][0])))
    return uniq
