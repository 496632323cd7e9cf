"""C12: geometric primitives against exact integer geometry"""
import itertools
import math

import numpy as np

from mc.harness import Space, require
from pycomplex.geometry import euclidian, regular, spherical
from pycomplex.math import linalg

PROPERTY = 'C12'
ASSUMPTIONS = ['every primitive is compared with exact integer arithmetic on lattice points, or with the defining equations of its result',
               'floating point results compared to 1e-6 relative (away from the origin) and 1e-9 (at the origin)']

TRANSFORMS = [[1, 0], [1e-6, 0], [1e6, 0], [1, 1000], [1e-3, 1]]


def perm_sign(p):
    s = 1
    p = list(p)
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s


def idet(A):
    """exact determinants of int64 matrices [..., n, n]"""
    n = A.shape[-1]
    out = np.zeros(A.shape[:-2], dtype=np.int64)
    for p in itertools.permutations(range(n)):
        t = np.full(A.shape[:-2], perm_sign(p), dtype=np.int64)
        for i, j in enumerate(p):
            t = t * A[..., i, j]
        out += t
    return out


def gram(P):
    """integer squared volume times factorial squared"""
    E = P[..., 1:, :] - P[..., :1, :]
    if E.shape[-2] == 0:
        return np.ones(P.shape[:-2], dtype=np.int64)
    return idet(np.einsum('...ij,...kj->...ik', E, E))


def lattice(dim, size):
    return np.array(list(itertools.product(range(size), repeat=dim)), dtype=np.int64).reshape(-1, dim)


def simplices(dim, n_pts, size, first, ordered):
    """all sets (or sequences) of n_pts distinct lattice points whose first point is number `first`"""
    L = lattice(dim, size)
    rest = range(len(L)) if ordered else range(first + 1, len(L))
    combos = (itertools.permutations if ordered else itertools.combinations)([r for r in rest if r != first], n_pts - 1)
    idx = np.array([(first,) + c for c in combos], dtype=np.int64).reshape(-1, n_pts)
    return L[idx]


def close(a, b, tol, tag, message, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, tag, lambda: '{}: shape {} expected {}'.format(message, a.shape, b.shape))
    if a.size == 0:
        return
    s = np.maximum(1e-300, np.abs(b)) if scale is None else scale
    bad = ~(np.abs(a - b) <= tol * s)
    require(not bad.any(), tag, lambda: '{}: {} of {} wrong, first at {}: {} expected {}'.format(
        message, bad.sum(), bad.size, np.argwhere(bad)[0].tolist(), a[tuple(np.argwhere(bad)[0])], b[tuple(np.argwhere(bad)[0])]))


def check_circumcentre(bary, P, W, tol, tag):
    """bary must sum to one and give a point of equal power with respect to every corner"""
    require(bary.shape == P.shape[:-1], tag, 'shape of barycentric coordinates')
    size = np.maximum(1, np.abs(bary).max(axis=-1))
    close(bary.sum(axis=-1), np.ones(bary.shape[:-1]), tol, tag + '_sum', 'barycentric coordinates do not sum to one', size)
    c = np.einsum('...ij,...i->...j', P, bary)
    d = ((P - c[..., None, :]) ** 2).sum(axis=-1) - W
    ref = np.maximum(1, np.abs(d).max(axis=-1)) * size
    close(d, np.repeat(d[..., :1], d.shape[-1], axis=-1), tol, tag + '_equal', 'point is not at equal power distance of all corners', ref[..., None])


def check_simplices(case, rec):
    dim, n_pts, size, first, ordered, (scale, offset) = case
    P = simplices(dim, n_pts, size, first, ordered)
    G = gram(P)
    keep = G > 0
    Pd = P[~keep]
    P, G = P[keep], G[keep]
    if not len(P):
        return
    m = n_pts - 1
    X = P * scale + offset * scale * np.arange(1, dim + 1)
    rec.state(case)
    rec.step(len(P) * 4)
    tol = 1e-9 if offset == 0 else 1e-6
    before = X.copy()
    vol = np.sqrt(G.astype(float)) / math.factorial(m)
    close(euclidian.unsigned_volume(X) / scale ** m, vol, tol, 'unsigned_volume', 'volume of {}-simplices in {}-d'.format(m, dim))
    if m == dim:
        D = idet(P[:, 1:] - P[:, :1])
        close(euclidian.signed_volume(X) / scale ** m, D / math.factorial(m), tol, 'signed_volume', 'signed volume')
        Q = X.copy()
        Q[:, [0, 1]] = Q[:, [1, 0]]
        close(euclidian.signed_volume(Q) / scale ** m, -D / math.factorial(m), tol, 'signed_volume', 'signed volume of swapped corners')
    W0 = np.zeros(P.shape[:-1])
    check_circumcentre(euclidian.circumcenter_barycentric(X), P, W0, tol, 'circumcenter_barycentric')
    bary = euclidian.circumcenter_barycentric(X)
    C = np.einsum('...ij,...i->...j', P, bary)
    big = np.maximum(1, np.abs(C).max(axis=-1, keepdims=True))
    back = offset * np.arange(1, dim + 1)
    close(euclidian.circumcenter(X) / scale - back, C, tol, 'circumcenter', 'circumcentre', big)
    if n_pts >= 2:
        close(euclidian.circumcenter_construction(X) / scale - back, C, tol, 'circumcenter_construction', 'circumcentre', big)
    if scale == 1 and offset == 0:
        check_circumcentre(euclidian.circumcenter_barycentric_weighted(X), P, W0, tol, 'circumcenter_barycentric_weighted')
        for s in range(0, len(X), max(1, len(X) // 5)):
            got = euclidian.is_wellcentered(X[s])
            if np.abs(bary[s]).min() > 1e-6 or bary[s].min() < -1e-6:
                require(bool(got) == bool((bary[s] > 0).all()), 'is_wellcentered', lambda: 'is_wellcentered {}'.format(P[s].tolist()))
            close(euclidian.circumcenter_barycentric(X[s]), bary[s], 1e-9, 'unbatched', 'single simplex', 1 + np.abs(bary[s]))
            close(euclidian.circumcenter(X[s]), C[s], 1e-9, 'unbatched', 'single simplex', 1 + np.abs(C[s]))
        two = X[:len(X) // 2 * 2].reshape((2, -1) + X.shape[1:])
        close(euclidian.unsigned_volume(two).reshape(-1), vol[:len(X) // 2 * 2], 1e-9, 'batched', 'two batch dimensions')
        close(euclidian.circumcenter_barycentric(two).reshape(-1, n_pts), bary[:len(X) // 2 * 2], 1e-9, 'batched', 'two batch dimensions', 10)
    if n_pts == 3:
        E = [P[:, (i + 2) % 3] - P[:, (i + 1) % 3] for i in range(3)]
        ang = np.stack([np.arctan2(np.sqrt(G.astype(float)), -(E[(i + 1) % 3] * E[(i + 2) % 3]).sum(axis=-1)) for i in range(3)], axis=-1)
        close(euclidian.triangle_angles(X), ang, max(tol, 1e-7), 'triangle_angles', 'interior angles')
        if len(Pd) and scale == 1 and offset == 0:
            got = euclidian.triangle_angles(Pd.astype(float))
            Ed = [Pd[:, (i + 2) % 3] - Pd[:, (i + 1) % 3] for i in range(3)]
            ang = np.stack([np.where(-(Ed[(i + 1) % 3] * Ed[(i + 2) % 3]).sum(axis=-1) > 0, 0, np.pi) for i in range(3)], axis=-1)
            close(got, ang, 1e-6, 'triangle_angles_flat', 'angles of flat triangles', 1)
            rec.outcome('flat')
    if n_pts >= 2:
        # facet normals
        g = euclidian.simplex_normals(X)
        G2 = euclidian.simplex_gradients(X)
        close((g ** 2).sum(axis=-1), np.ones(g.shape[:-1]), 1e-7, 'simplex_normals_unit', 'normals are unit vectors')
        total = np.abs(G2).max(axis=(1, 2))[:, None]
        close(G2.sum(axis=1), np.zeros((len(P), dim)), 1e-6, 'simplex_gradients_sum', 'gradients sum to zero', total)
        basis = (P[:, 1:] - P[:, :1]).astype(float)
        for i in range(n_pts):
            o = [j for j in range(n_pts) if j != i]
            for a, b in itertools.combinations(o, 2):
                e = (P[:, a] - P[:, b]).astype(float)
                close((g[:, i] * e).sum(axis=-1), np.zeros(len(P)), 1e-6, 'simplex_normals_orthogonal', 'normal to opposite face', np.linalg.norm(e, axis=-1))
            h = vol * m / (np.sqrt(gram(P[:, o]).astype(float)) / math.factorial(m - 1))
            close((g[:, i] * (P[:, i] - P[:, o[0]])).sum(axis=-1), h, 1e-6, 'simplex_normals_height', 'normal points to the corner')
            close(np.linalg.norm(G2[:, i], axis=-1) / scale ** (m - 1), np.sqrt(gram(P[:, o]).astype(float)) / math.factorial(m - 1), 1e-6, 'simplex_gradients', 'size of gradient')
    if n_pts == dim and dim >= 2:
        for Y in [X] + ([P] if scale == 1 and offset == 0 else []):
            nrm = np.asarray(euclidian.segment_normals(Y), dtype=float)
            for a in range(1, n_pts):
                e = (P[:, a] - P[:, 0]).astype(float)
                close((nrm * e).sum(axis=-1) / scale ** m, np.zeros(len(P)), 1e-6, 'segment_normals_orthogonal', 'normal to segment', np.linalg.norm(e, axis=-1) * np.linalg.norm(nrm, axis=-1) / scale ** m)
            close(np.linalg.norm(nrm, axis=-1) / scale ** m, vol * math.factorial(m), 1e-6, 'segment_normals_size', 'size of normal')
            full = np.concatenate([nrm[:, None] / scale ** m, (P[:, 1:] - P[:, :1])], axis=1)
            require((np.linalg.det(full) > 0).all(), 'segment_normals_side', 'side of normal')
    if scale == 1 and offset == 0:
        # integer input gives the same results as floats
        close(euclidian.circumcenter_barycentric(P), bary, 1e-9, 'integer', 'circumcenter_barycentric of integers', 10)
        close(euclidian.unsigned_volume(P), vol, 1e-9, 'integer', 'unsigned_volume of integers')
        close(euclidian.circumcenter(P.tolist()), C, 1e-9, 'integer', 'circumcenter of lists', big)
    require(np.array_equal(X, before), 'mutated', 'the input array was changed')
    rec.trace(len(P))


def check_weighted(case, rec):
    dim, n_pts, size, first, weights, (scale, offset) = case
    P = simplices(dim, n_pts, size, first, False)
    P = P[gram(P) > 0]
    if not len(P):
        return
    W = np.array(list(itertools.product(weights, repeat=n_pts)), dtype=float)
    PP = np.repeat(P, len(W), axis=0)
    WW = np.tile(W, (len(P), 1))
    X = PP * scale + offset * scale
    V = WW * scale ** 2
    before = X.copy(), V.copy()
    tol = 1e-8 if offset == 0 else 1e-6
    rec.state(case)
    rec.step(len(PP) * 3)
    bary = euclidian.circumcenter_barycentric(X, V)
    check_circumcentre(bary, PP, WW, tol, 'circumcenter_barycentric')
    C = np.einsum('...ij,...i->...j', PP, bary)
    got = euclidian.circumcenter_construction(X, V) / scale - offset
    close(got, C, tol, 'circumcenter_construction', 'weighted circumcentre', np.maximum(1, np.abs(C).max(axis=-1, keepdims=True)))
    if scale == 1 and offset == 0:
        b = euclidian.circumcenter_barycentric_weighted(X, V)
        check_circumcentre(b, PP, WW, 1e-6, 'circumcenter_barycentric_weighted')
        close(euclidian.circumcenter_barycentric(X[0].tolist(), V[0].tolist()), bary[0], 1e-8, 'lists', 'lists of weights', 10)
    require(np.array_equal(X, before[0]) and np.array_equal(V, before[1]), 'mutated', 'the inputs were changed')
    rec.trace(len(PP))


def check_overdetermined(case, rec):
    """more points than dimensions: cocircular boxes have their common centre as circumcentre"""
    dim, sizes, offset = case
    corners = np.array(list(itertools.product((0, 1), repeat=dim)), dtype=float) * np.array(sizes) + offset
    b = euclidian.circumcenter_barycentric(corners)
    rec.step(2)
    rec.state(case)
    close(b, np.full(len(corners), 1 / len(corners)), 1e-6, 'box', 'barycentric coordinates of a box')
    close(euclidian.circumcenter(corners), np.array(sizes) / 2 + offset, 1e-6, 'box', 'circumcentre of a box')
    rec.trace()


# ---------------------------------------------------------------- linear algebra

def matrices(rows, cols, values, chunk, n_chunks):
    n = rows * cols
    k = len(values) ** n
    idx = np.arange(k)[chunk::n_chunks]
    digits = np.empty((len(idx), n), dtype=np.int64)
    r = idx.copy()
    for i in range(n):
        digits[:, i] = r % len(values)
        r //= len(values)
    return np.array(values, dtype=np.int64)[digits].reshape(-1, rows, cols)


def check_matrix(case, rec):
    rows, cols, values, chunk, n_chunks = case
    A = matrices(rows, cols, values, chunk, n_chunks)
    F = A.astype(float)
    rec.state(case)
    rec.step(len(A))
    I = linalg.pinv(F)
    require(I.shape == (len(A), cols, rows), 'pinv_shape', lambda: 'pinv of {}x{} has shape {}'.format(rows, cols, I.shape))
    T = lambda x: np.swapaxes(x, -1, -2)
    for name, left, right in (('aba', F @ I @ F, F), ('bab', I @ F @ I, I), ('ab', F @ I, T(F @ I)), ('ba', I @ F, T(I @ F))):
        close(left, right, 1e-8, 'pinv_' + name, 'Moore-Penrose condition', 1 + np.abs(F).max())
    close(linalg.pinv(F[-1]), I[-1], 1e-12, 'pinv_unbatched', 'pinv of one matrix', 1)
    if rows == cols == 3:
        det = idet(A)
        for B, name in ((F, 'float'), (A, 'int')):
            adj = linalg.adjoint(B)
            close(B @ T(adj), det[:, None, None] * np.eye(3), 1e-9, 'adjoint', 'adjoint ({})'.format(name), 1 + np.abs(det)[:, None, None])
            ok = det != 0
            inv = linalg.inverse(B[ok])
            close(B[ok] @ inv, np.broadcast_to(np.eye(3), inv.shape), 1e-9, 'inverse', 'inverse ({})'.format(name), 1)
            close(linalg.inverse_transpose(B[ok]), T(inv), 1e-12, 'inverse_transpose', 'inverse_transpose', 1)
        rank2 = (det == 0) & (np.abs(linalg.adjoint(A)).max(axis=(1, 2)) > 0)
        n = linalg.null(A[rank2])
        require(not np.any(np.einsum('...ij,...j->...i', A[rank2], n)), 'null_residual', 'null vector is not in the null space')
        zero = ~n.any(axis=-1)
        require(not zero.any(), 'null_zero', lambda: 'null vector of {} vanishes'.format(A[rank2][zero][0].tolist()))
    if rows == cols:
        for M, d in zip(F, idet(A)):
            if d == 0:
                continue
            before = M.copy()
            U = linalg.orthonormalize(M, demirror=False)
            close(U @ U.T, np.eye(rows), 1e-9, 'orthonormalize', 'not orthonormal', 1)
            S = U.T @ M
            close(S, S.T, 1e-9, 'orthonormalize_closest', 'not the closest orthonormal matrix', 10)
            require(np.linalg.eigvalsh(S).min() > 0, 'orthonormalize_closest', 'not the closest orthonormal matrix')
            R = linalg.orthonormalize(M)
            close(R @ R.T, np.eye(rows), 1e-9, 'orthonormalize', 'not orthonormal', 1)
            close(np.linalg.det(R), 1., 1e-9, 'orthonormalize_mirror', 'demirrored matrix is a mirror')
            s = np.linalg.svd(M)[1]
            want = s.sum() if d > 0 else s.sum() - 2 * s[-1]
            close((R * M).sum(), want, 1e-9, 'orthonormalize_closest', 'not the closest rotation', 10)
            require(np.array_equal(M, before), 'mutated', 'orthonormalize changed its input')
            rec.step(2)
    # normalization along either axis
    for axis in (-1, -2):
        for order in (1, 2, np.inf):
            norm = np.linalg.norm(F, order, axis)
            zero = norm == 0
            for B in (F, A):
                before = B.copy()
                got, n = linalg.normalized(B, axis=axis, ord=order, ignore_zeros=True, return_norm=True)
                close(n, norm, 1e-12, 'normalized_norm', 'returned norms', 1)
                close(got * np.expand_dims(norm, axis), F, 1e-12, 'normalized', 'normalized vectors', 1)
                close(np.linalg.norm(got, order, axis), np.where(zero, 0., 1.), 1e-12, 'normalized_unit', 'norm of normalized vectors', 1)
                require(np.array_equal(B, before), 'mutated', 'normalized changed its input')
    rec.trace(len(A))


def plane_rotation(n, i, j, t):
    R = np.eye(n)
    R[i, i] = R[j, j] = np.cos(t)
    R[i, j], R[j, i] = np.sin(t), -np.sin(t)
    return R


def check_rotation(case, rec):
    n, i, j, k, steps = case
    t = np.pi * k / steps
    Q = np.eye(n)
    for a in range(n - 1):
        Q = Q @ plane_rotation(n, a, a + 1, 0.3 + a)
    for basis in (np.eye(n), Q):
        R = basis.T @ plane_rotation(n, i, j, t) @ basis
        rec.state(n, i, j, k, steps, basis is Q)
        rec.step(4)
        close(linalg.angle_from_rotation(R), t, 1e-6, 'angle_from_rotation', 'angle', 1)
        close(linalg.angle_from_rotation(np.array([R, R.T])), np.array([t, t]), 1e-6, 'angle_from_rotation', 'angle', 1)
        if k < steps:
            for p in (0, 0.2, 0.5, 1, -1, 1.5):
                want = basis.T @ plane_rotation(n, i, j, t * p) @ basis
                close(linalg.power(R, p), want, 1e-9, 'power', 'power {} of a rotation'.format(p), 1)
            ps = np.array([0.5, 2.])
            close(linalg.power(np.array([R, R.T]), ps), np.array([linalg.power(R, .5), R.T @ R.T]), 1e-9, 'power_batched', 'powers of several matrices', 1)
        u, v = basis[i], basis[j]
        Q90 = linalg.rotation_from_plane(u, v)
        close(Q90 @ Q90.T, np.eye(n), 1e-9, 'rotation_from_plane', 'not orthonormal', 1)
        close(np.linalg.det(Q90), 1., 1e-9, 'rotation_from_plane', 'not a rotation', 1)
        close(u @ Q90, v, 1e-9, 'rotation_from_plane', 'does not rotate u to v', 1)
        close(v @ Q90, -u, 1e-9, 'rotation_from_plane', 'does not rotate v to -u', 1)
        for a in range(n):
            if a not in (i, j):
                close(basis[a] @ Q90, basis[a], 1e-9, 'rotation_from_plane', 'moves the orthogonal complement', 1)
        close(linalg.angle_from_rotation(Q90), np.pi / 2, 1e-6, 'rotation_from_plane', 'angle', 1)
    # symmetric positive matrices
    D = np.diag(np.arange(1, n + 1) * (k + 1.))
    S = Q.T @ D @ Q
    for p in (-1, -.5, 0, .5, 1, 2, 3):
        close(linalg.power(S, p), Q.T @ np.diag(np.diag(D) ** p) @ Q, 1e-9, 'power_symmetric', 'power {} of a symmetric matrix'.format(p), (1 + (k + 1.) * n) ** 3)
    rec.trace()


# ---------------------------------------------------------------- sphere

def directions():
    P = np.array([p for p in itertools.product((-1, 0, 1), repeat=3) if any(p)] + [(1, 2, 2), (3, 1, 1), (-2, 5, 1)], dtype=float)
    return P / np.linalg.norm(P, axis=1, keepdims=True)


def solid_angle(a, b, c):
    num = np.einsum('...i,...i->...', a, np.cross(b, c))
    dot = lambda x, y: np.einsum('...i,...i->...', x, y)
    return 2 * np.arctan2(np.abs(num), 1 + dot(a, b) + dot(b, c) + dot(c, a))


def check_sphere(case, rec):
    first, = case
    D = directions()
    n = len(D)
    # edges
    pairs = np.array([(first, j) for j in range(n)])
    a, b = D[pairs[:, 0]], D[pairs[:, 1]]
    L = np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), (a * b).sum(axis=-1))
    rec.state(case)
    close(spherical.edge_length(a, b), L, 3e-7, 'edge_length', 'length of arcs', 1)
    close(spherical.unsigned_volume(np.stack([a, b], axis=1)), L, 3e-7, 'volume_edge', 'length of arcs', 1)
    close(spherical.unsigned_volume(a[:, None]), np.ones(n), 0, 'volume_point', 'measure of points')
    close(spherical.circumcenter(a[:, None]), a, 1e-12, 'circumcenter_point', 'circumcentre of points', 1)
    close(spherical.circumcenter(a[:1]), a[0], 1e-12, 'circumcenter_point', 'circumcentre of a point', 1)
    ok = L < 3
    m = spherical.circumcenter(np.stack([a, b], axis=1)[ok])
    close((m * a[ok]).sum(axis=-1), np.cos(L[ok] / 2), 1e-9, 'circumcenter_edge', 'middle of arcs', 1)
    close((m * b[ok]).sum(axis=-1), np.cos(L[ok] / 2), 1e-9, 'circumcenter_edge', 'middle of arcs', 1)
    # triangles
    idx = np.array([(first, j, k) for j in range(n) for k in range(n) if len({first, j, k}) == 3])
    T = D[idx]
    det = np.linalg.det(T)
    T = T[np.abs(det) > 1e-9]
    det = det[np.abs(det) > 1e-9]
    rec.step(len(T) * 3 + n * 3)
    area = solid_angle(T[:, 0], T[:, 1], T[:, 2])
    close(spherical.unsigned_volume(T), area, 1e-6, 'triangle_area', 'area of spherical triangles', 1)
    close(spherical.triangle_area_from_corners(*np.rollaxis(T, 1)), area, 1e-6, 'triangle_area', 'area of spherical triangles', 1)
    R = T * np.array([0.5, 3, 1.25])[None, :, None]        # directions rather than points of the unit sphere
    close(spherical.triangle_area_from_corners(*np.rollaxis(R, 1)), area, 1e-6, 'triangle_area', 'area of spherical triangles between directions', 1)
    for c, name in ((spherical.circumcenter(T), 'circumcenter'), (spherical.triangle_circumcenter(T), 'triangle_circumcenter')):
        close((c ** 2).sum(axis=-1), np.ones(len(T)), 1e-9, name + '_unit', 'not on the sphere', 1)
        d = np.einsum('ij,ikj->ik', c, T)
        close(d, np.repeat(d[:, :1], 3, axis=1), 1e-8, name, 'not at equal distance of the corners', 1)
        if name == 'circumcenter':
            require((d > -1e-9).all(), 'circumcenter_side', 'circumcentre on the wrong side of the sphere')
    two = T[:len(T) // 2 * 2].reshape(2, -1, 3, 3)
    close(spherical.circumcenter(two).reshape(-1, 3), spherical.circumcenter(T)[:len(T) // 2 * 2], 1e-9, 'batched', 'two batch dimensions', 1)
    # intersections of great circles
    s0, e0 = T[:, 0], T[:, 1]
    for p in ((1, 2), (2, 0)):
        x = spherical.intersect_edges(s0, e0, T[:, p[0]], T[:, p[1]])
        close((x ** 2).sum(axis=-1), np.ones(len(T)), 1e-9, 'intersect_unit', 'intersection not on the sphere', 1)
        shared = T[:, 1] if p == (1, 2) else T[:, 0]
        close(np.abs((x * shared).sum(axis=-1)), np.ones(len(T)), 1e-9, 'intersect', 'arcs that share an end meet there', 1)
    # areas around a centre: the circumcentre splits the triangle in three isosceles ones, shared by their two corners
    acute = []
    c = spherical.circumcenter(T)
    inside = np.ones(len(T), dtype=bool)
    for i in range(3):
        Q = T.copy()
        Q[:, i] = c
        inside &= np.sign(np.linalg.det(Q)) * np.sign(det) > 1e-9
        inside &= np.abs(np.linalg.det(Q)) > 1e-9
    if inside.any():
        parts = spherical.triangle_areas_around_center(c[inside][:, None], T[inside][:, None])[:, 0]
        want = np.stack([(solid_angle(c, T[:, i], T[:, i - 1]) + solid_angle(c, T[:, i], T[:, i - 2])) / 2 for i in range(3)], axis=1)[inside]
        close(parts, want, 1e-6, 'areas_around_center', 'areas of corner regions', 1)
        close(parts.sum(axis=-1), area[inside], 1e-6, 'areas_around_center_sum', 'corner regions cover the triangle', 1)
        flat = spherical.triangle_areas_around_center(c[inside], T[inside])
        close(flat, want, 1e-6, 'areas_around_center', 'areas of corner regions, one batch dimension', 1)
        rec.outcome('acute', int(inside.sum()))
    rec.trace(len(T))


def check_regular(case, rec):
    dim, size, first = case
    L = lattice(dim, size).astype(float)
    a = np.repeat(L[first:first + 1], len(L), axis=0)
    d = np.abs(a - L)
    rec.state(case)
    rec.step(len(L) * (dim + 1))
    close(regular.hypervolume(a, L), np.prod(d, axis=1), 0, 'hypervolume', 'volume', 1)
    for n in range(0, dim + 1):
        want = np.array([max(np.prod([x[i] for i in c]) for c in itertools.combinations(range(dim), n)) for x in d])
        close(regular.hypervolume(a, L, n=n), want, 1e-12, 'hypervolume_n', 'volume of dimension {}'.format(n), 1)
    close(regular.edge_length(a, L), d.max(axis=1), 0, 'edge_length', 'length of axis aligned edges', 1)
    rec.trace(len(L))


def members(name):
    """inputs of different size, place and shape for one primitive; -> list of tuples of arguments of one batch member"""
    kind, n, d = name.split('/')[1:]
    n, d = int(n), int(d)
    # an integer lattice of full simplices; every member is one of them, moved and scaled
    L = lattice(d, 2) + np.arange(d) * 0.25
    picks = [c for c in itertools.islice(itertools.combinations(range(len(L)), n), 40)]
    out = []
    for k, (scale, shift) in enumerate([(1, 0), (1e-5, 0), (1e4, 0), (1, 30), (2, 1), (1e-3, -1)]):
        P = None
        for c in picks[k:] + picks[:k]:
            Q = L[list(c)]
            G = (Q - Q.mean(axis=0))
            if np.linalg.matrix_rank(G, 1e-6) == min(n - 1, d):
                P = Q
                break
        out.append(P * scale + shift)
    if kind == 'simplex':
        return [(P,) for P in out]
    if kind == 'weighted':
        w = [np.zeros(n), np.arange(n) * 1e-11, np.arange(n) * 1e7, np.arange(n)[::-1] * .1, np.ones(n), np.arange(n) % 2 * 1e-7]
        return [(P, x) for P, x in zip(out, w)]
    if kind == 'matrix':
        return [(P * .4 + np.diag(np.arange(1, d + 1)) * s,) for P, s in zip(out, (1, 1e-5, 1e4, 1, 2, 1e-3))]
    if kind == 'singular':
        R = [np.array([[1., 0, 0], [0, 1, 0], [1, 1, 0]]), np.array([[1., 2, 3], [2, 4, 6], [0, 1, 1]]) * 1e-4,
             np.array([[0., 0, 0], [0, 1, 0], [1, 0, 3]]) * 1e3, np.array([[1., -1, 0], [0, 1, -1], [-1, 0, 1]])]
        return [(A,) for A in R]
    if kind == 'pair':
        return [(P[0], P[1]) for P in out]
    if kind == 'power':
        S = [P * .4 + np.diag(np.arange(1, d + 1)) * s for P, s in zip(out, (1, 1e-5, 1e4, 1, 2, 1e-3))]
        return [(A @ A.T, np.array(q)) for A, q in zip(S, (1., .5, 2., -1., .25, 1.5))]
    if kind == 'rotation':
        return [(plane_rotation(d, 0, d - 1, t),) for t in (0.1, 0.5, 1, 2, 3)]
    assert kind == 'sphere'
    D = directions()
    D = D[np.abs(D[:, 0]) > 1e-9][::2] if len(D) > 12 else D
    D = [x / np.linalg.norm(x) for x in D + np.array([.11, .07, .05])]
    T = [np.array([D[i], D[i + 2], D[i + 5]])[:n] for i in range(5)]
    T.append(np.array([[1, 0, 0], [1, 1e-3, 0], [1, 0, 1e-3]])[:n])
    T[-1] = T[-1] / np.linalg.norm(T[-1], axis=-1, keepdims=True)
    return T


def split(T, k):
    return [tuple(t[i] for i in range(k)) for t in T]


PRIMITIVES = {}
for _n, _d in ((1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (2, 1), (5, 4)):
    _k = '/simplex/{}/{}'.format(_n, _d)
    PRIMITIVES.update({'volume' + _k: euclidian.unsigned_volume, 'circumcenter' + _k: euclidian.circumcenter, 'barycentric' + _k: euclidian.circumcenter_barycentric})
    if _n > 1:
        PRIMITIVES['weighted' + _k.replace('simplex', 'weighted')] = euclidian.circumcenter_barycentric
        PRIMITIVES['construction' + _k.replace('simplex', 'weighted')] = euclidian.circumcenter_construction
        PRIMITIVES['normals' + _k] = euclidian.simplex_normals
        PRIMITIVES['gradients' + _k] = euclidian.simplex_gradients
    if _n == _d + 1:
        PRIMITIVES['signed' + _k] = euclidian.signed_volume
    if _n == _d:
        PRIMITIVES['segment' + _k] = euclidian.segment_normals
    if _n == 3:
        PRIMITIVES['angles' + _k] = euclidian.triangle_angles
PRIMITIVES.update({
    'pinv/matrix/3/3': linalg.pinv, 'pinv/simplex/2/3': linalg.pinv, 'pinv/simplex/4/3': linalg.pinv, 'pinv/singular/3/3': linalg.pinv,
    'adjoint/matrix/3/3': linalg.adjoint, 'inverse/matrix/3/3': linalg.inverse, 'inverse_transpose/matrix/3/3': linalg.inverse_transpose,
    'null/singular/3/3': linalg.null, 'dot/pair/2/3': linalg.dot, 'normalized/simplex/2/3': linalg.normalized,
    'power/power/2/2': linalg.power, 'power/power/3/3': linalg.power, 'angle/rotation/2/2': linalg.angle_from_rotation, 'angle/rotation/3/4': linalg.angle_from_rotation,
    'sphere point/sphere/1/3': spherical.unsigned_volume, 'sphere arc/sphere/2/3': spherical.unsigned_volume, 'sphere triangle/sphere/3/3': spherical.unsigned_volume,
    'sphere centre/sphere/1/3': spherical.circumcenter, 'sphere centre/sphere/2/3': spherical.circumcenter, 'sphere centre/sphere/3/3': spherical.circumcenter,
    'areas/sphere/3/3': lambda T: spherical.triangle_areas_around_center(spherical.circumcenter(T), T),
    'intersection/sphere/3/3': lambda T: spherical.intersect_edges(T[..., 0, :], T[..., 1, :], T[..., 2, :], (T[..., 0, :] + T[..., 1, :]) / 2 - T[..., 2, :] * .3),
})


def check_batches(case, rec):
    """one member of a batch has the same result alone and next to any other, in a batch of any shape"""
    name, = case
    f = PRIMITIVES[name]
    M = members(name)
    M = [(m,) if isinstance(m, np.ndarray) else m for m in M]
    stack = lambda ms: [np.array(a) for a in zip(*ms)]
    alone = [np.asarray(f(*m), dtype=float) for m in M]
    size = [max(np.abs(a).max(), 1 if '/sphere/' in name else 1e-300) for a in alone]
    rec.state(name)

    def judge(which, shape):
        args = stack([M[i] for i in which])
        args = [a.reshape(shape + a.shape[1:]) for a in args]
        before = [a.copy() for a in args]
        got = np.asarray(f(*args), dtype=float)
        rec.step()
        require(all(np.array_equal(a, b) for a, b in zip(args, before)), 'batch_mutated', '{} changed its input'.format(name))
        rest = alone[0].shape
        require(got.shape == shape + rest, 'batch_shape', lambda: '{} of a batch {} has shape {}, expected {}'.format(name, shape, got.shape, shape + rest))
        got = got.reshape((len(which),) + rest)
        for i, g in zip(which, got):
            require((np.abs(g - alone[i]) <= 1e-6 * size[i]).all(), 'batch_member',
                    lambda: '{} of member {} is {} alone, and {} in a batch with {} of shape {}'.format(name, i, alone[i].tolist(), g.tolist(), which, shape))
        rec.outcome('batches')

    n = len(M)
    for i in range(n):
        judge([i], (1,))
        judge([i], (1, 1))
        judge([i], (1, 1, 1))
        for j in range(n):
            judge([i, j], (2,))
            judge([i, j], (1, 2))
            judge([i, j], (2, 1))
            for k in range(n):
                judge([i, j, k], (3,))
    for r in range(n):
        six = [(r + q) % n for q in range(6)]
        for shape in ((6,), (2, 3), (3, 2), (6, 1), (1, 6), (1, 2, 3), (3, 1, 2), (2, 3, 1)):
            judge(six, shape)
    rec.trace(n)


def cases_simplices(tier):
    big = tier != 'quick'
    spec = [(1, 1, 4, True), (1, 2, 6, True), (2, 1, 2, True), (2, 2, 4, True), (2, 3, 4 if not big else 5, True), (3, 2, 3, True), (3, 3, 3, False), (3, 4, 3, False), (4, 3, 2, False), (4, 4, 2, False), (4, 5, 2, False)]
    spec += [(5, 5, 2, False), (5, 6, 2, False)]
    if big:
        spec += [(3, 3, 3, True), (5, 3, 2, False), (4, 3, 3, False)]
    for dim, n_pts, size, ordered in spec:
        for first in range(size ** dim):
            for t in TRANSFORMS:
                if dim == 5 and n_pts > 3 and (first % (4 if big else 8) or (not big and t != TRANSFORMS[0])):
                    continue
                yield [dim, n_pts, size, first, ordered, t]


def cases_weighted(tier):
    big = tier != 'quick'
    for dim, n_pts, size, w in [(1, 2, 4, [-1, 0, 1, 2]), (2, 2, 3, [-1, 0, 1, 2]), (2, 3, 3, [-1, 0, 1, 2]), (3, 3, 2, [0, 1, 2]), (3, 4, 2, [0, 1, 2]), (3, 2, 2, [0, 1])] + (
            [(2, 3, 4, [-2, -1, 0, 1, 3]), (3, 4, 3, [0, 1]), (4, 5, 2, [0, 1])] if big else []):
        for first in range(size ** dim):
            for t in TRANSFORMS:
                yield [dim, n_pts, size, first, w, t]


def cases_boxes(tier):
    for dim in (1, 2, 3, 4):
        for sizes in itertools.product((1, 2, 5), repeat=dim):
            for offset in (0, 10):
                yield [dim, list(sizes), offset]


def cases_matrix(tier):
    big = tier != 'quick'
    for rows in (1, 2, 3):
        for cols in (1, 2, 3):
            n = 24 if rows * cols == 9 else 1
            for c in range(n):
                yield [rows, cols, [-1, 0, 1], c, n]
    for c in range(8):
        yield [2, 2, [-3, -2, -1, 0, 1, 2, 3], c, 8]
    for rows, cols in ((2, 4), (4, 2), (1, 5), (5, 1)) + (((4, 3), (3, 4)) if big else ()):
        n = 8 if rows * cols < 9 else 256
        for c in range(n):
            yield [rows, cols, [-1, 0, 1], c, n]
    if big:
        for c in range(512):
            yield [3, 3, [-2, -1, 0, 1, 2], c, 512]


def cases_rotation(tier):
    steps = 12 if tier == 'quick' else 60
    for n in (2, 3, 4, 5):
        for i, j in itertools.permutations(range(n), 2):
            for k in range(steps + 1):
                yield [n, i, j, k, steps]


def cases_sphere(tier):
    for i in range(len(directions())):
        yield [i]


def cases_regular(tier):
    for dim, size in ((1, 6), (2, 5), (3, 4), (4, 3)):
        for first in range(size ** dim):
            yield [dim, size, first]


SPACES = [
    Space('simplices', cases_simplices, check_simplices, 'all simplices of every dimension on integer lattices (ordered in <=2d; 3^3, 2^4, a part of 2^5), five scalings/translations', expect=['flat']),
    Space('weighted', cases_weighted, check_weighted, 'all weighted simplices on small lattices with all weight assignments, five scalings/translations'),
    Space('boxes', cases_boxes, check_overdetermined, 'all boxes with sides 1, 2, 5 in 1-4 d'),
    Space('matrices', cases_matrix, check_matrix, 'all matrices up to 3x3 (and 2x4, 4x2, 1x5, 5x1) with entries -1, 0, 1; 2x2 with entries -3..3', chunk=1),
    Space('rotations', cases_rotation, check_rotation, 'rotations in every coordinate plane of 2-5 d by multiples of 15 degrees'),
    Space('sphere', cases_sphere, check_sphere, 'all arcs and triangles of 29 directions', expect=['acute'], chunk=1),
    Space('batches', lambda tier: [[n] for n in sorted(PRIMITIVES)], check_batches,
          'every vectorized primitive: all batches of at most 3 of 4-6 inputs of different size, place and shape, and all six in 8 shapes of up to three dimensions', expect=['batches']),
    Space('regular', cases_regular, check_regular, 'all axis aligned boxes on small lattices'),
]
