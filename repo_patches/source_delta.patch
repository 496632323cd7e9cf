From 30a8a6cbd9ba4090a6efd0cc630eb5b747788f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:57 +0000
Subject: [PATCH 01/80] fix: relative_parity returned too few entries when
 trailing n-elements share no interior boundary

---
 pycomplex/topology/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 0d4bd98..d6f73f9 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -182,7 +182,8 @@ class BaseTopology(object):
             # but what about loose disjoint n-element plus other connection component?
             # would prob fail; need to handle remapping back from n-elements lost in interior filtering
             return self.chain(-1)
-        orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist())
+        # declare all variables, so that the solution also covers n-elements that do not occur in any clause
+        orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist(), vars=self.n_elements[-1])
         if orientation == 'UNSAT':
             raise ValueError('Topology is a non-orientable manifold.')
 
-- 
2.43.0


From 8cc326e1d35eaff4944fb742af192d068484a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:33 +0000
Subject: [PATCH 02/80] fix: construction of 0-dimensional simplicial
 topologies, and thereby the boundary and dual of open simplicial curves

---
 pycomplex/topology/simplicial.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 269d94c..9296d41 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -165,7 +165,7 @@ class TopologySimplicial(PrimalTopology):
         O = np.zeros(n_dim, dtype=object)
         B = np.zeros(n_dim, dtype=object)
 
-        while True:
+        while n_dim > 0:
             EN0, ENn, ONn = construct_lower(EN0)
             n_simplices, n_pts = EN0.shape
             n_dim = n_pts - 1
@@ -174,9 +174,6 @@ class TopologySimplicial(PrimalTopology):
             O[N] = ONn
             B[N] = ENn
 
-            if n_dim == 0:
-                break
-
         return cls(elements=E, orientation=O, boundary=B)
 
     def fix_orientation(self):
-- 
2.43.0


From c319ca7dcfa86b3d8d2cd32c212f9a1d6bf6ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:44 +0000
Subject: [PATCH 03/80] fix: dual of an open curve: orientation of dual edges
 towards the dual boundary

---
 pycomplex/topology/dual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/dual.py b/pycomplex/topology/dual.py
index 2849696..fbeee86 100755
--- a/pycomplex/topology/dual.py
+++ b/pycomplex/topology/dual.py
@@ -165,7 +165,12 @@ class Dual(BaseTopology):
         B = [pycomplex.sparse.sparse_zeros((0, boundary.n_elements[0]))] + boundary.matrices
         T = self.primal.matrices
         # this term effectively 'glues' the interior and boundary topology together
-        S = self.primal.selector_boundary
+        S = list(self.primal.selector_boundary)
+        # dual boundary vertices connect to dual edges opposite to the n-elements they close off.
+        # if n > 1 boundary elements are oriented such that this sign is always positive;
+        # but the 0-elements that bound a curve do not carry any orientation of their own
+        sign = -(T[-1] * self.primal.chain(-1, fill=1))
+        S[-2] = S[-2] * scipy.sparse.diags(sign, dtype=sign_dtype)
 
         return [scipy.sparse.bmat(
                 [[t,   s.T],
-- 
2.43.0


From 282666a6759a93de3dbacdb0034cdda4f042fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 04/80] fix: check_chain skipped the last pair of topology
 matrices

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index d6f73f9..ff6847f 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -200,7 +200,7 @@ class BaseTopology(object):
         """Some basic sanity checks on a topology object
         check that the chain complex satisfies its defining properties
         """
-        for i in range(self.n_dim - 2):
+        for i in range(self.n_dim - 1):
             a, b = self.matrices[i], self.matrices[i+1]
             if not (a * b).nnz == 0:
                 raise ValueError('chain {i} does not match'.format(i=i+1))
-- 
2.43.0


From d44f82417404fef1f0f64006a20fcaf83ce51fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 05/80] fix: degree overflowed for elements with more than 127
 incident n-elements

---
 pycomplex/topology/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index ff6847f..3313461 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -271,7 +271,8 @@ class BaseTopology(object):
             N-elements for each n-element
         """
         A = self.accumulated_operators_N()
-        N_elements = self.chain(-1, fill=1)
+        # index_dtype rather than the default sign_dtype; there is no limit to the number of incident elements
+        N_elements = self.chain(-1, fill=1, dtype=index_dtype)
         # ones_like constructs a summing operator; seek nnz per column
         return [pycomplex.sparse.ones_like(a.T) * N_elements for a in A]
 
-- 
2.43.0


From 1973486fcbe0fff7643b0ab3fbcd52cd19d23533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:48 +0000
Subject: [PATCH 06/80] fix: boundary topology did not preserve orientation of
 its lower elements, breaking the dual chain complex

---
 pycomplex/topology/primal.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 3d2e041..a73349b 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -219,7 +219,17 @@ class PrimalTopology(BaseTopology):
         boundary_elements = inverse.reshape(boundary_elements.shape).astype(index_dtype)
 
         boundary = self.boundary_type().from_elements(boundary_elements)
-        boundary.parent_idx = self.find_correspondence(boundary, mapping)
+        parent_idx = self.find_correspondence(boundary, mapping)
+        # from_elements follows its own convention as to the orientation of the elements below the top-level;
+        # adopt the orientation of the parent elements, such that the chain complex of the boundary is
+        # a restriction of the chain complex of the parent; the dual topology relies on this
+        boundary = type(boundary)(
+            elements=[np.searchsorted(mapping, e[i]).astype(index_dtype) for e, i in zip(self.elements, parent_idx)],
+            boundary=[npi.indices(i, b[j].flatten()).reshape(b[j].shape).astype(index_dtype)
+                      for b, i, j in zip(self._boundary, parent_idx[:-1], parent_idx[1:])],
+            orientation=[o[j] for o, j in zip(self._orientation, parent_idx[1:])],
+        )
+        boundary.parent_idx = parent_idx
         boundary.parent = self
         return boundary
 
-- 
2.43.0


From b735e27fe9f873ae371906f96f451ebe2e055b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:16 +0000
Subject: [PATCH 07/80] fix: subdivide_loop_direct produced wrong faces for
 more than one triangle and broke the chain complex

---
 pycomplex/topology/simplicial.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 9296d41..485c193 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -476,7 +476,7 @@ class TopologyTriangular(TopologySimplicial):
         # add middle (zero) tri
         # add middle connectivity; three new edges for each face
         fE21[:,0,:] = np.arange(3*N2, dtype=index_dtype).reshape((N2, 3)) + N1*2
-        fO21[:,0,:] = 1                                  # orientation of middle tri is given by convention
+        fO21[:,0,:] = -1                                 # orientation of middle tri follows from the sign convention of its edges
 
         # first edge of each outer tri is connected to the middle; copy index, invert sign
         fE21[:,1:,0] =  fE21[:,0,:]
@@ -494,10 +494,10 @@ class TopologyTriangular(TopologySimplicial):
 
         # E20 is implied by E21; but much easier to calc by subdivision too
         sE20 = np.empty((N2, 4, 3), index_dtype)
-        sE20[:,0 , :] = E21[0] + N0  # middle tri; translate parent edge index to edge-vertex
+        sE20[:,0 , :] = E21 + N0     # middle tri; translate parent edge index to edge-vertex
         sE20[:,1:, 0] = E20          # corner tri; inherit from parent
-        sE20[:,1:,+1] = E21p[0] + N0 # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
-        sE20[:,1:,-1] = E21m[0] + N0
+        sE20[:,1:,+1] = E21p + N0    # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
+        sE20[:,1:,-1] = E21m + N0
 
         sE20 = sE20.reshape(-1, 3)
         sE21 = fE21.reshape(-1, 3)
@@ -512,7 +512,7 @@ class TopologyTriangular(TopologySimplicial):
 
         O = [sO10, sO21]
         B = [sE10, sE21]
-        E = [np.arange(N0 + N1, dtype=index_dtype), sE10, sE20]
+        E = [np.arange(N0 + N1, dtype=index_dtype).reshape(-1, 1), sE10, sE20]
 
         fine = TopologyTriangular(elements=E, boundary=B, orientation=O)
 
-- 
2.43.0


From 072df1b46a25c93cfc33105bd4458f9029ce44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:17 +0000
Subject: [PATCH 08/80] fix: subdivide_simplicial crashed on 1-dimensional
 complexes

---
 pycomplex/topology/simplicial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 485c193..48cf805 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -339,6 +339,9 @@ class TopologySimplicial(PrimalTopology):
         -------
         type(self)
         """
+        if self.n_dim == 1:
+            # 0-simplices do not carry orientation; but in 1d this coincides with the fundamental domain subdivision
+            return self.subdivide_fundamental()
         boundary = generate_simplex_boundary(self.elements[-1])
         tips = np.repeat(self.range(-1)[:, None, None], self.n_dim + 1, axis=1) + self.n_elements[0]
         simplices = np.concatenate([boundary, tips], axis=2)
-- 
2.43.0


From c21c13a2f439b975a52303f6adbf64e053ac7296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 09/80] fix: boundary of a weighted complex dropped its weights

---
 pycomplex/complex/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9e99422..35af49d 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -85,7 +85,11 @@ class BaseComplex(object):
             return None
         else:
             # FIXME: type self should be boundary_type; make that a seperate problem
-            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary)
+            weights = getattr(self, 'weights', None)
+            kwargs = {}
+            if weights is not None:
+                kwargs['weights'] = weights[boundary.parent_idx[0]]
+            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary, **kwargs)
 
     def fix_orientation(self):
         return self.copy(topology=self.topology.fix_orientation())
-- 
2.43.0


From fa73a7c26f28e47bb85f3aa0224817fef05838ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 10/80] fix: affine_transform always raised TypeError

---
 pycomplex/complex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 35af49d..5ddbd1f 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -114,9 +114,9 @@ class BaseComplex(object):
         return self.copy(vertices=self.vertices.dot(transform))
 
     def affine_transform(self, transform):
-        a = np.concatenate([self.vertices, np.ones_like[self.vertices[:, 0]]], axis=1)
+        a = np.concatenate([self.vertices, np.ones_like(self.vertices[:, :1])], axis=1)
         v = a.dot(transform)
-        return self.copy(vertices=v[:, :2] / v[:, 2])
+        return self.copy(vertices=v[:, :-1] / v[:, -1:])
 
     def scale(self, scale):
         return self.copy(vertices=self.vertices * scale)
-- 
2.43.0


From b9cba8097ca4f5973eb4629bdf04ddf6b9c75375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 11/80] fix: subdivide_loop_operator included face vertices
 that loop subdivision does not have

---
 pycomplex/complex/simplicial/euclidian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 26f42bf..e72baac 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -319,7 +319,8 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
             sparse array mapping coarse to fine vertices
 
         """
-        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0)
+        # only vertices and edges spawn new vertices in loop subdivision
+        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0[:2])
 
         if smooth:
             # NOTE: only difference with cubical case lies in this call
-- 
2.43.0


From eddd700a5b49f51bd8739f7337dba788c8acb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 12/80] fix: ComplexCubical1.to_simplicial referred to classes
 and methods that do not exist

---
 pycomplex/complex/cubical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/cubical.py b/pycomplex/complex/cubical.py
index 6c5ae82..c8b466f 100755
--- a/pycomplex/complex/cubical.py
+++ b/pycomplex/complex/cubical.py
@@ -304,10 +304,10 @@ class ComplexCubical1(ComplexCubical):
 
     def to_simplicial(self):
         """Convert the cubical complex into a simplicial complex; trivial"""
-        from pycomplex.complex.simplicial.euclidian import ComplexSimplicial1
-        return ComplexSimplicial1(
+        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
+        return ComplexSimplicialEuclidian(
             vertices=self.vertices,
-            topology=self.topology.as_1().subdivide_simplicial()
+            simplices=self.topology.elements[1]
         )
 
 
-- 
2.43.0


From 66fef2ce24a8e31aa24fa496af3b5a1bb4e247a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:42 +0000
Subject: [PATCH 13/80] fix: circumcenters of simplices that are small or away
 from the origin were wrong; eigenvalue cutoff was not scale invariant

---
 pycomplex/geometry/euclidian.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 8fe7caf..179aeda 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -149,6 +149,15 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
     gu = pts.shape[:-2]
     N = n_pts + 1
 
+    # barycentric coordinates are invariant under translation and scaling;
+    # but the eigenvalue cutoff below is only meaningful for points of unit size around the origin
+    pts = pts - pts.mean(axis=-2, keepdims=True)
+    scale = np.sqrt(np.einsum('...ij,...ij->...i', pts, pts).max(axis=-1))
+    scale = np.where(scale > 0, scale, 1)
+    pts = pts / scale[..., None, None]
+    if weights is not None:
+        weights = weights / scale[..., None] ** 2
+
     A = np.ones(gu + (N, N))
     A[..., -1, -1] = 0
     A[..., :-1, :-1] = np.einsum('...ij,...kj->...ik', pts, pts) * 2
-- 
2.43.0


From 20bef941a02c2112c791dcf246bfc6328941daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 14/80] fix: smooth_operator moved vertices not incident to any
 crease element to the origin

---
 pycomplex/complex/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 5ddbd1f..44d745d 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -220,6 +220,8 @@ class BaseComplex(object):
 
         A = self.topology.averaging_operators_0
         smoothers = [scipy.sparse.diags(s) * a.T * scipy.sparse.diags(c) * a for a, s, c in zip(A, S, C)]
+        # vertices which are not incident to any crease element stay in place
+        smoothers.append(scipy.sparse.diags((~S.any(axis=0)).astype(float)))
         return normalize_l1(sum(smoothers), axis=1)
 
     @cached_property
-- 
2.43.0


From a21c84724c0b606b524e745d37cef3eae78e6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 15/80] fix: pinv failed on wide matrices and gave NaN for zero
 matrices

---
 pycomplex/math/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index daeac8c..1d9987f 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -220,7 +220,8 @@ def pinv(A, r=1e-9):
 
     """
     u, s, v = np.linalg.svd(A)
-    inv = 1 / s
-    inv[np.abs(s / s[..., :1]) < r] = 0
+    with np.errstate(divide='ignore'):
+        inv = 1 / s
+    inv[s <= r * s[..., :1]] = 0
     # s[:, self.complex.topology.n_dim:] = 0
-    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v)
+    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v[..., :s.shape[-1], :])
-- 
2.43.0


From 4ee93199d95940954200c8fc8d317769d9191372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 16/80] fix: orthonormalize did not return the closest rotation
 of a mirrored matrix

---
 pycomplex/math/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index 1d9987f..ae6fbe0 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -87,7 +87,8 @@ def orthonormalize(axes, demirror=True):
     u, _, v = np.linalg.svd(axes)
     if demirror:
         det = np.linalg.det(axes)
-        v[0] *= np.sign(det)
+        # flipping the axis of least magnitude gives the closest rotation
+        v[-1] *= np.sign(det)
     return u.dot(np.eye(*axes.shape)).dot(v)
 
 
-- 
2.43.0


From de8ae1021a4f4cd4ae9ef265c6f4004c1dfafd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 17/80] fix: angles and arc lengths could become NaN through
 roundoff

---
 pycomplex/geometry/euclidian.py | 2 +-
 pycomplex/geometry/spherical.py | 2 +-
 pycomplex/math/linalg.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 179aeda..59ae644 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -337,7 +337,7 @@ def triangle_angles(vertices):
     """
     edges = np.roll(vertices, -1, axis=-2) - np.roll(vertices, +1, axis=-2)
     edges = linalg.normalized(edges, ignore_zeros=True)
-    return np.arccos(-linalg.dot(np.roll(edges, -1, axis=-2), np.roll(edges, +1, axis=-2)))
+    return np.arccos(np.clip(-linalg.dot(np.roll(edges, -1, axis=-2), np.roll(edges, +1, axis=-2)), -1, 1))
 
 
 def segment_normals(corners):
diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 189a864..9a8a5e8 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -18,7 +18,7 @@ def edge_length(*edge):
     lengths: ndarray, [n], float
         length along the unit sphere of each segment
     """
-    return np.arccos(linalg.dot(*edge))
+    return np.arccos(np.clip(linalg.dot(*edge), -1, 1))
 
 
 def triangle_area_from_normals(*edge_planes):
diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index ae6fbe0..772dcdc 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -127,7 +127,7 @@ def angle_from_rotation(R):
     """Extract rotation angle in radians from n-dimensional rotation matrix"""
     n, m = R.shape[-2:]
     assert n == m
-    return np.arccos(1 - (n - np.einsum('...ii->...', R)) / 2)
+    return np.arccos(np.clip(1 - (n - np.einsum('...ii->...', R)) / 2, -1, 1))
 
 
 def adjoint(A):
-- 
2.43.0


From d55942fd0d2cccaef177db08e3bf6f3265ee2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 18/80] fix: null vanished for matrices whose cross products
 cancel

---
 pycomplex/math/linalg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index 772dcdc..4e5d1db 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -165,7 +165,10 @@ def null(A):
         (array of) null space vectors
 
     """
-    return adjoint(A).sum(axis=-2)
+    # every row of the adjoint is a multiple of the null vector; their sum may cancel
+    rows = adjoint(A)
+    largest = np.argmax(dot(rows, rows), axis=-1)
+    return np.take_along_axis(rows, largest[..., None, None], axis=-2)[..., 0, :]
 
 
 def inverse_transpose(A):
-- 
2.43.0


From 322789316fa3a582a76ea9e2d3bd57b976228104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 19/80] fix: spherical primitives only worked for a fixed
 number of batch dimensions

---
 pycomplex/geometry/spherical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 9a8a5e8..387a709 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -72,9 +72,9 @@ def triangle_areas_around_center(center, corners):
     """
     areas = np.empty(corners.shape[:-1])
     for i in range(3):
-        areas[:,:,i] = triangle_area_from_corners(center, corners[:,:,i-2], corners[:,:,i-1])
+        areas[..., i] = triangle_area_from_corners(center, corners[..., i-2, :], corners[..., i-1, :])
     #swivel equilaterals to vonoroi parts
-    return (areas.sum(axis=2)[:,:,None]-areas) / 2
+    return (areas.sum(axis=-1)[..., None]-areas) / 2
 
 
 def unsigned_volume(pts):
@@ -156,7 +156,7 @@ def circumcenter(pts):
     if n_pts == 2:
         return edge_circumcenter(pts)
     if n_pts == 1:
-        return pts[:, 0, :]
+        return pts[..., 0, :]
     from pycomplex.geometry import euclidian
     return linalg.normalized(euclidian.circumcenter(pts))
 
-- 
2.43.0


From 50f35a9dbb29fb547129be143bc5b1d90012fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 20/80] fix: circumcenter_barycentric let the conditioning of
 one simplex affect the others

---
 pycomplex/geometry/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 59ae644..9edeadc 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -164,7 +164,7 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
 
     v, w = np.linalg.eigh(A)
     vr = 1 / v
-    vr[np.abs(vr) > np.abs(vr).min() * ratio] = 0
+    vr[np.abs(vr) > np.abs(vr).min(axis=-1, keepdims=True) * ratio] = 0
     pinv = np.einsum('...ij,...j,...kj', w, vr, w)
 
     b = np.ones(gu + (N,))
-- 
2.43.0


From 44fa0add745c57e0da8f20df910365d747c45d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:07 +0000
Subject: [PATCH 21/80] fix: circumcenter_construction did not support batches
 or integer input

---
 pycomplex/geometry/euclidian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 9edeadc..57b7be1 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -44,13 +44,13 @@ def circumcenter_construction(pts, weights=None):
         weights = np.asarray(weights)
 
     first = pts[..., 0, :]
-    moved = pts[..., 1:, :] - first
+    moved = pts[..., 1:, :] - first[..., None, :]
     e2 = linalg.dot(moved, moved)
     if weights is not None:
-        e2 -= (weights[..., 1:] - weights[..., 0])
+        e2 = e2 - (weights[..., 1:] - weights[..., :1])
     pinv = linalg.pinv(moved)
 
-    centroid = linalg.dot(pinv, e2) / 2 + first
+    centroid = linalg.dot(pinv, e2[..., None, :]) / 2 + first
     return centroid
 
 
-- 
2.43.0


From dbcb1f8244d89f8e2f57874834a71399a43abd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:07 +0000
Subject: [PATCH 22/80] fix: segment_normals truncated normals of integer
 corners

---
 pycomplex/geometry/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 57b7be1..75c9511 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -356,7 +356,7 @@ def segment_normals(corners):
     corners = np.asarray(corners)
     n_corners, n_dim = corners.shape[-2:]
     assert n_corners == n_dim
-    normals = np.empty_like(corners[..., 0])
+    normals = np.empty(corners.shape[:-1])
 
     corners = corners[..., 1:, :] - corners[..., 0:1, :]
 
-- 
2.43.0


From 9e07fc6952d9b63a6b0a0bdfb2921174a3848362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:21 +0000
Subject: [PATCH 23/80] fix: fundamental domains of 0-dimensional topologies,
 and thereby closed dual metrics of open curves

---
 pycomplex/topology/simplicial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 48cf805..5ed7d38 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -224,7 +224,7 @@ class TopologySimplicial(PrimalTopology):
             s[i:] = 1
             IN0 = generate_simplex_boundary(IN0.reshape(-1, IN0.shape[-1])).reshape(IN0.shape + (-1, ))
             domains[..., -i] = element_indices(self.elements[-i], IN0).reshape(s)
-        domains[..., 0] = IN0
+        domains[..., 0] = IN0.reshape(shape[:-1])
 
         return domains
 
-- 
2.43.0


From 37acd964fa4783300364a975b5582e23703b9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:28 +0000
Subject: [PATCH 24/80] fix: metrics of simplicial complexes ignored weights
 and inverted lower elements in their signs

---
 pycomplex/complex/simplicial/euclidian.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index e72baac..6f1fa60 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -158,14 +158,17 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
         PP = self.primal_position
         domains = self.topology.fundamental_domains()
 
-        corners = self.vertices[self.topology.corners[-1]]
-        mean = corners.mean(axis=-2, keepdims=True)  # centering
-        corners = corners - mean
-        bary = euclidian.circumcenter_barycentric(corners)
-        signs = np.sign(bary)   # if the face opposing this vert is inverted wrt the circumcenter
-        signs = (signs.T * np.ones_like(domains[..., 0]).T).T.reshape(-1) # duplicate signs to all fundamental domains corresponding to each face
-
         domains = domains.reshape(-1, domains.shape[-1])
+
+        def inversion(n):
+            """sign of each fundamental domain between its n-1-element and n-element;
+            negative if the n-1-element is inverted wrt the circumcenter of the n-element"""
+            e, f = domains[:, n], domains[:, n - 1]
+            shared = topology.corners[n][e][:, :, None] == topology.corners[n - 1][f][:, None, :]
+            opposing = np.argmin(shared.any(axis=-1), axis=1)
+            return np.sign(self.primal_barycentric[n][e, opposing])
+
+        inversions = [inversion(n) for n in range(1, topology.n_dim + 1)]
         corners = np.concatenate([p[d][:, None, :] for p, d in zip(PP, domains.T)], axis=1)
 
         PN = topology.n_elements
@@ -184,10 +187,10 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
         for i in range(1, self.topology.n_dim):
             n = i + 1
             d = self.topology.n_dim - i
-            PM[i] = groups[i].mean(unsigned(corners[:, :n]))[1] * factorial(n)  # FIXME: primal can be signed too! tri of tet for instance. need to work out signs logic better
-            DM[i] = groups[d].sum (unsigned(corners[:, d:]) * signs)[1] / factorial(d+1)
+            PM[i] = groups[i].mean(unsigned(corners[:, :n]) * np.prod(inversions[:i], axis=0))[1] * factorial(n)
+            DM[i] = groups[d].sum (unsigned(corners[:, d:]) * np.prod(inversions[d:], axis=0))[1] / factorial(d+1)
 
-        V = euclidian.unsigned_volume(corners) * signs
+        V = euclidian.unsigned_volume(corners) * np.prod(inversions, axis=0)
         PM[-1] = groups[-1].sum(V)[1]
         DM[-1] = groups[+0].sum(V)[1]
 
-- 
2.43.0


From 0b53dc3bc9924ee75567aa53a95e0c191b99eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:28 +0000
Subject: [PATCH 25/80] fix: is_pairwise_delaunay of weighted curves

---
 pycomplex/complex/simplicial/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index f9b8e12..bd9699c 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -61,7 +61,10 @@ class BaseComplexSimplicial(BaseComplex):
         delta = PP[-1][:, None, :] - PP[-2][B]
         d = linalg.dot(delta, delta)  #* sign
         if signed:
-            d = d * np.sign(self.primal_barycentric[-1])
+            bary = self.primal_barycentric[-1]
+            if self.topology.n_dim == 1:
+                bary = bary[:, ::-1]    # vertices of an edge are listed in order, rather than opposing each corner
+            d = d * np.sign(bary)
         return d
 
     def optimize_weights(self):
-- 
2.43.0


From 259010134802e72269eca41117304de1e36e52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:41 +0000
Subject: [PATCH 26/80] fix: closed dual metrics of regular complexes in 1, 3
 and 4 dimensions

---
 pycomplex/complex/regular.py  | 4 ++--
 pycomplex/geometry/regular.py | 2 +-
 pycomplex/topology/cubical.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index bd406a2..f1c5717 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -332,12 +332,12 @@ class ComplexRegularMixin(object):
             g, sums = groups[i].sum(hypervolume)
             PM[n][g] += sums
         # now we divide by the number of primal N-cubes contributing to each primal n-cube
-        for n in range(1, self.n_dim):
+        for n in range(1, topology.n_dim):
             PM[n] /= self.topology.degree[n]
 
         # do summation of dual terms
         for i, c in list(enumerate(corners))[1:-1]:
-            n = self.n_dim - c.sum()
+            n = topology.n_dim - c.sum()
             hypervolume = regular.hypervolume(cubes[idx(c)], cubes[idx(corners[-1])], n=n)
             g, sums = groups[i].sum(hypervolume)
             DM[n][g] += sums / (2 ** c.sum())
diff --git a/pycomplex/geometry/regular.py b/pycomplex/geometry/regular.py
index 77b05d2..ed48fbf 100755
--- a/pycomplex/geometry/regular.py
+++ b/pycomplex/geometry/regular.py
@@ -26,7 +26,7 @@ def hypervolume(a, b, n=None):
     d = a - b
     if n is not None:
         d = np.sort(np.abs(d), axis=1)
-        d = d[:, -n:]
+        d = d[:, d.shape[1] - n:]
     return np.abs(np.prod(d, axis=-1))
 
 
diff --git a/pycomplex/topology/cubical.py b/pycomplex/topology/cubical.py
index 83fd296..f5090cc 100755
--- a/pycomplex/topology/cubical.py
+++ b/pycomplex/topology/cubical.py
@@ -154,7 +154,7 @@ class TopologyCubical(PrimalTopology):
     @cached_property
     def cube_corners(self):
         """Ndarray, [n_corners, n_dim], int"""
-        return np.indices(self.cube_shape).reshape(self.n_dim, -1).T.astype(sign_dtype)
+        return np.indices(self.cube_shape).reshape(self.n_dim, 2 ** self.n_dim).T.astype(sign_dtype)
 
     @classmethod
     def from_elements(cls, elements, mirror=True):
-- 
2.43.0


From 7c5d4ae24bf8fa5963a1659b67390e1678b37bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 27/80] fix: picking of simplices failed for disconnected and
 for non-uniform spherical complexes

---
 pycomplex/complex/simplicial/base.py      | 42 ++++++++++++++---------
 pycomplex/complex/simplicial/spherical.py | 21 ++++++++++++
 2 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index bd9699c..d4ad074 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -329,6 +329,30 @@ class BaseComplexSimplicial(BaseComplex):
         basis = np.linalg.inv(self.homogenize(corners))
         return tree, basis
 
+    @cached_property
+    def power_center(self):
+        """Points and weights, of which the power diagram coincides with the N-simplices of the complex
+
+        Returns
+        -------
+        points : ndarray, [n_N-elements, n_dim], float
+        weights : ndarray, [n_N-elements], float
+            in units of distance squared
+
+        Notes
+        -----
+        The circumcenters, weighted by their squared radius:
+        the power of a point with respect to two adjacent circumspheres is equal on their shared boundary
+        """
+        elements = self.topology.elements[-1]
+        corners = self.vertices[elements]
+        points = np.einsum('...cn,...c->...n', corners, self.primal_barycentric[-1])
+        radius = corners[:, 0] - points
+        weights = linalg.dot(radius, radius)
+        if self.weights is not None:
+            weights = weights - self.weights[elements[:, 0]]
+        return points, weights
+
     def pick_primal_precomp(self, weight):
         """Precomputations for primal picking
 
@@ -347,24 +371,10 @@ class BaseComplexSimplicial(BaseComplex):
         assert self.is_pairwise_delaunay  # if centroids cross eachother, this method fails
 
         corners = self.vertices[self.topology.elements[-1]]
-        dual_vertex = np.einsum('...cn,...c->...n', corners, self.primal_barycentric[-1])
-
         if weight:
-            ee = self.dual_edge_excess(signed=False)
-            # sum these around each n-1-simplex, or bounding face, to get n-1-form
-            S = self.topology.selector_interior[-2]  # only consider interior simplex boundaries
-            q = S * self.remap_boundary_N(ee, oriented=True)
-            T = S * self.topology.matrices[-1]
-            # solve T * w = q; that is,
-            # difference in desired weights on simplices over faces equals difference in squared distance over boundary between simplices
-            L = T.T * T
-            rhs = T.T * q
-            rhs = rhs - rhs.mean()  # this might aid numerical stability of minres
-            # FIXME: could we use amg here?
-            weight = scipy.sparse.linalg.minres(L, rhs, tol=1e-12)[0]
-            points = self.augment(dual_vertex, weight)
+            points = self.augment(*self.power_center)
         else:
-            points = dual_vertex
+            points = np.einsum('...cn,...c->...n', corners, self.primal_barycentric[-1])
 
         tree = scipy.spatial.cKDTree(points)
         basis = np.linalg.inv(self.homogenize(corners))
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 79df4a9..6de1817 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -142,6 +142,27 @@ class ComplexSpherical(BaseComplexSimplicial):
         return [linalg.normalized(np.einsum('...cn,...c->...n', self.vertices[c], b))
                 for c, b in zip(self.topology.corners, self.primal_barycentric)]
 
+    @cached_property
+    def power_center(self):
+        """Points and weights, of which the power diagram coincides with the N-simplices of the complex
+
+        Returns
+        -------
+        points : ndarray, [n_N-elements, n_dim], float
+        weights : ndarray, [n_N-elements], float
+
+        Notes
+        -----
+        Poles of the planes spanned by each simplex; of which the power distances are homogeneous,
+        such that the power diagram consists of cones around the origin
+        """
+        elements = self.topology.elements[-1]
+        height = np.ones(elements.shape)
+        if self.weights is not None:
+            height = height - self.weights[elements] / 2
+        points = np.einsum('tvc,tc->tv', np.linalg.inv(self.vertices[elements]), height)
+        return points, linalg.dot(points, points)
+
     @cached_property
     def metric(self):
         """Compute metrics from fundamental domain contributions
-- 
2.43.0


From 082ce2365fcd226012918dadff6226a937fcc925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:24 +0000
Subject: [PATCH 28/80] fix: pick_fundamental returned barycentric coordinates
 in an order that did not match its domains

---
 pycomplex/complex/simplicial/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index d4ad074..fa3bc5c 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -504,6 +504,11 @@ class BaseComplexSimplicial(BaseComplex):
         fundamental, domains = self.pick_fundamental_precomp
 
         domain_idx, bary = fundamental.pick_primal(points, simplex_idx=domain_idx)
+
+        # reverse flips made for orientation preservation
+        flip = np.bitwise_and(domain_idx, 1) == 1
+        bary[flip, -2:] = bary[flip, -2:][:, ::-1]
+
         return domain_idx, bary, domains[domain_idx]
 
     def sample_dual_0(self, d0, points, weighted=True):
@@ -529,12 +534,6 @@ class BaseComplexSimplicial(BaseComplex):
         # pick fundamental domains
         domain_idx, bary, domain = self.pick_fundamental(points)
 
-        # reverse flips made for orientation preservation
-        flip = np.bitwise_and(domain_idx, 1) == 1
-        temp = bary[flip, -2]
-        bary[flip, -2] = bary[flip, -1]
-        bary[flip, -1] = temp
-
         # do interpolation over fundamental domain
         i = ((dual_forms[i][domain[:, i]].T * bary[:, i].T).T
             for i in range(self.topology.n_dim + 1))
-- 
2.43.0


From bbfb491149e394b55b500c1d17595b3ca4035503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 29/80] fix: hints for picking in regular complexes gave wrong
 elements, or an UnboundLocalError

---
 pycomplex/complex/regular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index f1c5717..b13d9ce 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -94,7 +94,7 @@ class ComplexRegularMixin(object):
             cube, baries = query(points)
         else:
             baries = compute_baries(basis[cube], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
                 cube = cube.copy()
                 d, b = query(points[update])
@@ -172,10 +172,10 @@ class ComplexRegularMixin(object):
         if domain_idx is None:
             domain, baries = query(points)
         else:
+            domain = domains[domain_idx]
             baries = compute_baries(basis[domain_idx], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
-                domain = domains[domain_idx]
                 d, b = query(points[update])
                 domain[update] = d
                 baries[update] = b
-- 
2.43.0


From 79f5a360465e5c0c3e3abc4990acd606235c0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 30/80] fix: picking in regular complexes with cubes of
 different sizes

---
 pycomplex/complex/regular.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index b13d9ce..617d260 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -33,6 +33,32 @@ class ComplexRegularMixin(object):
         """No need for this fancy averaging nonsense on a regular grid"""
         return self.topology.dual.averaging_operators_0
 
+    @staticmethod
+    def pick_tree(center, diagonal):
+        """Tree in which the closest point to (x, 0) is the center of the box that contains x,
+        also if the boxes are not all of the same size
+
+        Parameters
+        ----------
+        center : ndarray, [n_boxes, n_dim], float
+        diagonal : ndarray, [n_boxes, n_dim], float
+
+        Returns
+        -------
+        tree : scipy.spatial.cKDTree
+            tree over centers, augmented with an orthogonal coordinate;
+            such that distances squared equal those to the faces of the box, up to a constant
+        """
+        weight = (diagonal ** 2).sum(axis=-1) / 4
+        offset = np.sqrt(weight.max() - weight)
+        return scipy.spatial.cKDTree(np.concatenate([center, offset[:, None]], axis=-1))
+
+    @staticmethod
+    def pick_query(tree, points):
+        """Index of the box that contains each point"""
+        points = np.asarray(points)
+        return tree.query(np.concatenate([points, np.zeros_like(points[:, :1])], axis=-1))[1]
+
     @cached_property
     def pick_primal_precomp(self):
         """Precompute things for efficient picking of primal regular n-cubes
@@ -56,7 +82,7 @@ class ComplexRegularMixin(object):
         basis[:, 0] = corners[:, 0]
         basis[:, 1] = corners[:, -1] - corners[:, 0]
 
-        tree = scipy.spatial.cKDTree(corners.mean(axis=1))
+        tree = self.pick_tree(corners.mean(axis=1), basis[:, 1])
         return tree, basis
 
     def pick_primal(self, points, cube=None):
@@ -85,7 +111,7 @@ class ComplexRegularMixin(object):
             return r / basis[:, 1]
 
         def query(points):
-            _, cube = tree.query(points)
+            cube = self.pick_query(tree, points)
             b = basis[cube]
             baries = compute_baries(b, points)
             return cube, baries
@@ -133,8 +159,7 @@ class ComplexRegularMixin(object):
         basis = np.empty((len(cubes), 2, self.n_dim))
         basis[:, 0] = cubes[:, 0]
         basis[:, 1] = cubes[:, -1] - cubes[:, 0]
-        import scipy.spatial
-        tree = scipy.spatial.cKDTree(cubes.mean(axis=1))
+        tree = self.pick_tree(cubes.mean(axis=1), basis[:, 1])
 
         return tree, domains.reshape((-1,) + self.topology.cube_shape), basis
 
@@ -164,7 +189,7 @@ class ComplexRegularMixin(object):
             return r / basis[:, 1]
 
         def query(points):
-            _, domain = tree.query(points)
+            domain = self.pick_query(tree, points)
             b = basis[domain]
             baries = compute_baries(b, points)
             return domains[domain], baries
-- 
2.43.0


From 57677addb81522b806945778195f8bc0edd4c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:32 +0000
Subject: [PATCH 31/80] fix: sampling of primal 0-forms on 1-d regular
 complexes added a dimension

---
 pycomplex/complex/regular.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index 617d260..69b25ae 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -290,8 +290,7 @@ class ComplexRegularMixin(object):
         """
         element, bary = self.pick_primal(points)
         bary = np.clip(bary, 0, 1)
-        IN0 = self.topology.incidence[-1, 0]
-        verts = IN0[element]
+        verts = self.topology.elements[-1][element]
         # do interpolation over cube
         total = 0
         for c in self.topology.cube_corners:
-- 
2.43.0


From b005f5147269c019d6b18bef672819629387f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 32/80] fix: barycentric coordinates in regular complexes did
 not correspond to the axes of the cubes

---
 pycomplex/complex/regular.py | 61 +++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index 69b25ae..16accf9 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -33,6 +33,29 @@ class ComplexRegularMixin(object):
         """No need for this fancy averaging nonsense on a regular grid"""
         return self.topology.dual.averaging_operators_0
 
+    @staticmethod
+    def pick_basis(corners):
+        """First corner of each cube, followed by its edges along each of the axes of the cube;
+        which need not be listed in the same order as the coordinate axes
+
+        Parameters
+        ----------
+        corners : ndarray, [n_cubes, n_corners, n_dim], float
+
+        Returns
+        -------
+        basis : ndarray, [n_cubes, 1 + n_axes, n_dim], float
+        """
+        axes = 2 ** np.arange(int(np.log2(corners.shape[1])))[::-1]
+        return np.concatenate([corners[:, :1], corners[:, axes] - corners[:, :1]], axis=1)
+
+    @staticmethod
+    def pick_baries(basis, points):
+        """Position of each point relative to the axes of a cube"""
+        edges = basis[:, 1:]
+        r = points - basis[:, 0]
+        return np.einsum('nad,nd->na', edges, r) / (edges ** 2).sum(axis=-1)
+
     @staticmethod
     def pick_tree(center, diagonal):
         """Tree in which the closest point to (x, 0) is the center of the box that contains x,
@@ -68,21 +91,19 @@ class ComplexRegularMixin(object):
         tree : scipy.spatial.cKDTree
             tree built around centroid of each primal cube.
             querying the centroid will give us the index of the closest cube
-        basis : ndarray, [n_domains, 2, n_dim], float
+        basis : ndarray, [n_domains, 1 + n_dim, n_dim], float
             first component is the first corner of the n-cube
-            second component is the diagonal to the opposite corner
+            following components are the edges along each axis of the n-cube
             this allows for efficient computation of barycentric coordinates within the cube
 
         """
         cubes = self.topology.elements[-1]
-        # basis is just first vert of cube and diagonal of cube
+        # basis is just first vert of cube and edges of cube
         corners = self.vertices[cubes]
         corners = corners.reshape(-1, np.prod(self.topology.cube_shape), self.n_dim)
-        basis = np.empty((len(corners), 2, self.n_dim))
-        basis[:, 0] = corners[:, 0]
-        basis[:, 1] = corners[:, -1] - corners[:, 0]
+        basis = self.pick_basis(corners)
 
-        tree = self.pick_tree(corners.mean(axis=1), basis[:, 1])
+        tree = self.pick_tree(corners.mean(axis=1), basis[:, 1:].sum(axis=1))
         return tree, basis
 
     def pick_primal(self, points, cube=None):
@@ -106,20 +127,16 @@ class ComplexRegularMixin(object):
         """
         tree, basis = self.pick_primal_precomp
 
-        def compute_baries(basis, points):
-            r = points - basis[:, 0]
-            return r / basis[:, 1]
-
         def query(points):
             cube = self.pick_query(tree, points)
             b = basis[cube]
-            baries = compute_baries(b, points)
+            baries = self.pick_baries(b, points)
             return cube, baries
 
         if cube is None:
             cube, baries = query(points)
         else:
-            baries = compute_baries(basis[cube], points)
+            baries = self.pick_baries(basis[cube], points)
             update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
                 cube = cube.copy()
@@ -140,9 +157,9 @@ class ComplexRegularMixin(object):
             querying the centroid will give us the index of the closest cube
         domains : ndarray, [n_domains + cube_shape], index_dtype
             each n-cube contains references to n-cubes of various degrees
-        basis : ndarray, [n_domains, 2, n_dim], float
+        basis : ndarray, [n_domains, 1 + n_dim, n_dim], float
             first component is the first corner of the n-cube
-            second component is the diagonal to the opposite corner
+            following components are the edges along each axis of the n-cube
             this allows for efficient computation of barycentric coordinates within the cube
         """
 
@@ -156,10 +173,8 @@ class ComplexRegularMixin(object):
             cubes[idx1] = PP[c.sum()][domains[idx2]]
 
         cubes = cubes.reshape(-1, np.prod(self.topology.cube_shape), self.n_dim)
-        basis = np.empty((len(cubes), 2, self.n_dim))
-        basis[:, 0] = cubes[:, 0]
-        basis[:, 1] = cubes[:, -1] - cubes[:, 0]
-        tree = self.pick_tree(cubes.mean(axis=1), basis[:, 1])
+        basis = self.pick_basis(cubes)
+        tree = self.pick_tree(cubes.mean(axis=1), basis[:, 1:].sum(axis=1))
 
         return tree, domains.reshape((-1,) + self.topology.cube_shape), basis
 
@@ -184,21 +199,17 @@ class ComplexRegularMixin(object):
         """
         tree, domains, basis = self.pick_fundamental_precomp
 
-        def compute_baries(basis, points):
-            r = points - basis[:, 0]
-            return r / basis[:, 1]
-
         def query(points):
             domain = self.pick_query(tree, points)
             b = basis[domain]
-            baries = compute_baries(b, points)
+            baries = self.pick_baries(b, points)
             return domains[domain], baries
 
         if domain_idx is None:
             domain, baries = query(points)
         else:
             domain = domains[domain_idx]
-            baries = compute_baries(basis[domain_idx], points)
+            baries = self.pick_baries(basis[domain_idx], points)
             update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
                 d, b = query(points[update])
-- 
2.43.0


From 9fb66393e7c6e5fcd30bd8ce2cf3051d8562b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:55 +0000
Subject: [PATCH 33/80] fix: sampling a stencil 0-form with assume_interior
 always failed

---
 pycomplex/stencil/complex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/stencil/complex.py b/pycomplex/stencil/complex.py
index 5ffa01b..29768ce 100755
--- a/pycomplex/stencil/complex.py
+++ b/pycomplex/stencil/complex.py
@@ -195,9 +195,10 @@ class StencilComplex(object):
         """
         assert self.topology.boundary == 'periodic'
         points = np.asarray(points) / self.scale
+        f0 = f0[0]
 
         if not assume_interior:
-            f0 = np.pad(f0[0], [(0, 1)] * self.n_dim, mode='wrap')
+            f0 = np.pad(f0, [(0, 1)] * self.n_dim, mode='wrap')
             points = np.remainder(points, self.shape)
 
         return ndimage.map_coordinates(f0, points.T, order=1)
-- 
2.43.0


From 6c3dd971a3d8fe1a9b644caa1406e1f23a73de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:55 +0000
Subject: [PATCH 34/80] fix: transposed stencil transfers failed for forms that
 are not contiguous in memory

---
 pycomplex/stencil/topology.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycomplex/stencil/topology.py b/pycomplex/stencil/topology.py
index 74398c8..57a89c5 100755
--- a/pycomplex/stencil/topology.py
+++ b/pycomplex/stencil/topology.py
@@ -178,9 +178,8 @@ class StencilTopology(object):
                 for c, s in enumerate(self.symbols[n]):
                     repeats = [2 if i in s else 1 for i in range(self.n_dim)]
                     view = coarse[c]
-                    view = np.ndarray(
-                        buffer=view.data,
-                        dtype=view.dtype,
+                    view = np.lib.stride_tricks.as_strided(
+                        view,
                         strides=[q for p in view.strides for q in (p, 0)],
                         shape=[q for p in zip(view.shape, repeats) for q in p],
                     )
-- 
2.43.0


From 799d2dad3f9a7bd3f8930466365ba3a9ef91f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:03 +0000
Subject: [PATCH 35/80] fix: stencil operators truncated or wrapped around
 forms of integers

---
 pycomplex/stencil/complex.py  | 2 +-
 pycomplex/stencil/topology.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/stencil/complex.py b/pycomplex/stencil/complex.py
index 29768ce..0606803 100755
--- a/pycomplex/stencil/complex.py
+++ b/pycomplex/stencil/complex.py
@@ -114,7 +114,7 @@ class StencilComplex(object):
             def inner(f):
                 """smooth a primal n-form along directions normal to it"""
                 # FIXME: for n-form we need no smoothing and we can exit early without copy
-                smoothed = np.copy(f)
+                smoothed = np.array(f, dtype=np.result_type(f, np.float32))
                 # loop over all components of the form
                 for c, s in enumerate(symbols):
                     # process the form potentially in all directions
diff --git a/pycomplex/stencil/topology.py b/pycomplex/stencil/topology.py
index 57a89c5..3293787 100755
--- a/pycomplex/stencil/topology.py
+++ b/pycomplex/stencil/topology.py
@@ -94,7 +94,7 @@ class StencilTopology(object):
                     for t, a, p in zip(T, A, P):
                         weights = [-1, +1] if p else [+1, -1]
                         if initialized[c]:
-                            d[c] += conv(f[t], axis=a, weights=weights)
+                            d[c] += conv(f[t], axis=a, output=d.dtype, weights=weights)
                         else:
                             conv(f[t], axis=a, output=d[c], weights=weights)
                             initialized[c] = True
@@ -111,7 +111,7 @@ class StencilTopology(object):
                     for t, a, p in zip(T, A, P):
                         weights = [-1, +1] if p else [+1, -1]
                         if initialized[t]:
-                            d[t] += corr(f[c], axis=a, weights=weights)
+                            d[t] += corr(f[c], axis=a, output=d.dtype, weights=weights)
                         else:
                             corr(f[c], axis=a, output=d[t], weights=weights)
                             initialized[t] = True
@@ -217,7 +217,7 @@ class StencilTopology(object):
             stencils = [stencil(a) for a in self.symbols[n]]
 
             def inner(f0):
-                output = self.form(n, dtype=f0.dtype)
+                output = self.form(n, dtype=np.result_type(f0.dtype, np.float32))
                 for i, stencil in enumerate(stencils):
                     ndimage.convolve(f0[0], stencil, output[i], mode='wrap')
                 return output
-- 
2.43.0


From 85fb2a593b9419edbfe0488b3f3877b35950a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:41 +0000
Subject: [PATCH 36/80] fix: samples of a stencil 0-form of integers were
 truncated

---
 pycomplex/stencil/complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/complex.py b/pycomplex/stencil/complex.py
index 0606803..2d7ef45 100755
--- a/pycomplex/stencil/complex.py
+++ b/pycomplex/stencil/complex.py
@@ -201,7 +201,7 @@ class StencilComplex(object):
             f0 = np.pad(f0, [(0, 1)] * self.n_dim, mode='wrap')
             points = np.remainder(points, self.shape)
 
-        return ndimage.map_coordinates(f0, points.T, order=1)
+        return ndimage.map_coordinates(f0, points.T, output=np.result_type(f0, np.float32), order=1)
 
     @cached_property
     def primal_position(self):
-- 
2.43.0


From 7e6a7387fcbb27cc0ea65417128b97b277e7725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:33 +0000
Subject: [PATCH 37/80] fix: simplification of stencil operators dropped
 diagonals with small entries

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index 76faafb..af1b6af 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -156,9 +156,9 @@ class DiagonalOperator(SymmetricOperator):
             )
 
     def simplify(self):
-        if np.allclose(self.diagonal, 0):
+        if np.all(self.diagonal == 0):
             return ZeroOperator(self.shape)
-        if np.allclose(self.diagonal, 1):
+        if np.all(self.diagonal == 1):
             return IdentityOperator(self.shape[0])
         return self
 
-- 
2.43.0


From 3938593a7852e97d39c62fdc29d8d49300f392e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:33 +0000
Subject: [PATCH 38/80] fix: conversion of stencil operators to linear
 operators

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index af1b6af..af4b4dd 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -74,8 +74,8 @@ class StencilOperator(object):
         from scipy.sparse.linalg import LinearOperator
         return LinearOperator(
             shape=tuple([np.prod(s) for s in self.shape]),
-            matvec=lambda x: self.right(x.flatten()),
-            rmatvec=lambda x: self.left(x.flatten()),
+            matvec=lambda x: self(x.reshape(self.shape[1])).flatten(),
+            rmatvec=lambda x: self.transpose()(x.reshape(self.shape[0])).flatten(),
             dtype=np.float32,
         )
 
-- 
2.43.0


From f9bc4fff9dfd692747c43df3fb44c5e2787fd04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:33 +0000
Subject: [PATCH 39/80] fix: diagonal of stencil identity operator was a method
 instead of a value

---
 pycomplex/stencil/operator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index af4b4dd..db13335 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -183,8 +183,7 @@ class IdentityOperator(DiagonalOperator):
     def simplify(self):
         return self
 
-    def diagonal(self):
-        return 1
+    diagonal = 1
 
     def __repr__(self):
         return 'I'
-- 
2.43.0


From 073ab37251041785563fd71ca97d91dc80333fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:09 +0000
Subject: [PATCH 40/80] fix: stencil block arrays with blocks of equal or
 broadcastable shapes

---
 pycomplex/stencil/block.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 495f767..22a1c07 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -6,6 +6,14 @@ from pycomplex.stencil.operator import ZeroOperator
 
 
 
+def object_array(blocks):
+    """Collect blocks into a 1d object array, regardless of what the blocks look like themselves"""
+    array = np.empty(len(blocks), object)
+    for i, b in enumerate(blocks):
+        array[i] = b
+    return array
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
 
@@ -13,10 +21,11 @@ class BlockArray(object):
         if isinstance(block, np.ndarray) and block.dtype == object:
             self.block = block
         else:
+            if ndim is None and isinstance(block, (list, tuple)):
+                # blocks are never to be broken up into a deeper structure
+                ndim = 2 if isinstance(block[0], (list, tuple)) else 1
             if ndim==1:
-                b = np.empty(len(block), object)
-                b[...] = block
-                self.block = b
+                self.block = object_array(block)
             elif ndim == 2:
                 b = np.empty((len(block), len(block[0])), object)
                 for i in range(b.shape[0]):
@@ -52,7 +61,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block).reshape(self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -64,7 +73,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block).reshape(self.block.T.shape))
 
     def broadcasting_operator(self, other, op):
         try:
@@ -78,7 +87,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
+        block = object_array(block).reshape(A.shape)
         return type(self)(block)
 
     def __add__(self, other):
-- 
2.43.0


From ab907bc912c10975f50676532a56798022abb3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:10 +0000
Subject: [PATCH 41/80] fix: splitting of a vector over three or more stencil
 blocks

---
 pycomplex/stencil/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 22a1c07..17c9f26 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -167,7 +167,7 @@ class BlockArray(object):
         assert sum(splits) == x.size
         return BlockArray([
             s.reshape(b.shape)
-            for s, b in zip(np.split(x, splits[:-1]), self.block)
+            for s, b in zip(np.split(x, np.cumsum(splits)[:-1]), self.block)
         ], self.ndim)
 
 
-- 
2.43.0


From 03ed50ac7d6bd9de3068eb44df4e07471f908370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:10 +0000
Subject: [PATCH 42/80] fix: linear operators of stencil block operators that
 are not square

---
 pycomplex/stencil/block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 17c9f26..81c15e2 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -310,7 +310,7 @@ class BlockOperator(BlockArray):
         # FIXME: signature of matvec requires that we support both shape (N,) and (N, 1)
         return LinearOperator(
             shape=tuple([sum(np.prod(b.shape) for b in s.block) for s in (L, R)]),
-            matvec=lambda x: self.vector_mul(L.from_dense(x)).to_dense(),
-            rmatvec=lambda x: T.vector_mul(R.from_dense(x)).to_dense(),
+            matvec=lambda x: self.vector_mul(R.from_dense(x)).to_dense(),
+            rmatvec=lambda x: T.vector_mul(L.from_dense(x)).to_dense(),
             dtype=np.float32,
         )
-- 
2.43.0


From 754333e210c1417f2b84e56bed0c6e359be4ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:10 +0000
Subject: [PATCH 43/80] fix: shape of stencil block operators

---
 pycomplex/stencil/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 81c15e2..daa7057 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -54,7 +54,7 @@ class BlockArray(object):
         one list for each axis
         """
         return [
-            [self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])]
+            [self.block[(0,) * n + (i,) + (0,) * (self.ndim - n - 1)].shape[n] for i in range(self.block.shape[n])]
             for n in range(self.ndim)
         ]
 
@@ -207,8 +207,8 @@ class BlockOperator(BlockArray):
     @cached_property
     def is_square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def to_dense(self):
         # dense = self.apply(lambda x: x.to_dense())    # something broken with apply
-- 
2.43.0


From fe91bb74cf62b971670b86043a477be6fab583c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:10 +0000
Subject: [PATCH 44/80] fix: allocation of vectors of a stencil system

---
 pycomplex/stencil/linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index d58f30c..747fe68 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -36,10 +36,10 @@ class System(object):
         self.R = np.array(R)
 
     def allocate_x(self):
-        return BlockArray([self.complex.form(n) for n in self.R])
+        return BlockArray([self.complex.topology.form(n) for n in self.R])
 
     def allocate_y(self):
-        return BlockArray([self.complex.form(n) for n in self.L])
+        return BlockArray([self.complex.topology.form(n) for n in self.L])
 
     @classmethod
     def canonical(cls, complex: StencilComplex):
-- 
2.43.0


From 425e8a8b494421a3eda7da2abf0c4df4bd83cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:10 +0000
Subject: [PATCH 45/80] fix: subsystems of selected equations of a stencil
 system

---
 pycomplex/stencil/linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index 747fe68..858b164 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -146,7 +146,7 @@ class System(object):
         """Slice a subsystem of full cochain complex"""
         return self.copy(
             A=self.A.__getslice__(item).copy(),
-            B=self.B.__getslice__([item[0], item[0]]).copy(),
+            B=self.B.__getslice__(item[0]).__getslice__((slice(None), item[0])).copy(),
             L=self.L[item[0]],
             R=self.R[item[1]],
         )
-- 
2.43.0


From 7e7fe8790290408ed32a9c43253c4904cee9f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:14 +0000
Subject: [PATCH 46/80] fix: diagonal of stencil operators on grids of odd size

---
 pycomplex/stencil/block.py | 18 +++++++++---------
 pycomplex/stencil/util.py  | 13 +++++++++++++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index daa7057..85eac03 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -225,7 +225,7 @@ class BlockOperator(BlockArray):
         -----
         This brute-forces the stencil diagonal using some checkerboard-type evaluation
         Perhaps there may be a more efficient method of reaching the same result?
-        This requires two evaluations for each form-component,
+        This requires two evaluations for each form-component (more if the shape is odd),
         where each form is evaluated typically over a laplacian-like operator,
         so about a sixfold multiplier relative to a single forward smoother evaluation,
         which is about the cost of a single V-cycle; so manageble.
@@ -235,16 +235,16 @@ class BlockOperator(BlockArray):
         """
         # FIXME: should this not be moved elsewhere? seems quite problem-specific;
         # and needs to know about seperate components
-        from pycomplex.stencil.util import checkerboard
-
-        def pattern(shape, c, sign):
-            pattern = np.zeros(shape)
-            pattern[c] = checkerboard(shape[1:]) if sign else 1 - checkerboard(shape[1:])
-            return pattern
+        from pycomplex.stencil.util import coloring
 
         def do(db, shape, c):
-            p, a = pattern(shape, c, 0), pattern(shape, c, 1)
-            return db(p) * p + db(a) * a
+            color = coloring(shape[1:])
+            d = np.zeros(shape)
+            for i in np.unique(color):
+                p = np.zeros(shape)
+                p[c] = color == i
+                d = d + db(p) * p
+            return d
         # assert self.is_square
         def block(i):
             db = self.block[i, i]
diff --git a/pycomplex/stencil/util.py b/pycomplex/stencil/util.py
index c954196..350dbca 100755
--- a/pycomplex/stencil/util.py
+++ b/pycomplex/stencil/util.py
@@ -97,6 +97,19 @@ def checkerboard_2(shape, offset=0):
     return np.einsum('i, i...->...', 2**np.arange(len(shape)), np.indices(shape) % 2) == offset
 
 
+def coloring(shape):
+    """Color a periodic grid, such that no two adjacent elements have the same color
+
+    A checkerboard does not close on itself along axes of odd size, and hence their last layer is colored separately
+    """
+    idx = np.indices(shape)
+    color = checkerboard(shape)
+    for axis, size in enumerate(shape):
+        if size % 2:
+            color = color + (idx[axis] == size - 1) * 2 ** (axis + 1)
+    return color
+
+
 def adjecent_pairs(iter):
     """Yield all adjacent pairs from the given iterable"""
     j = None
-- 
2.43.0


From 3ce7fe1b81e8a3331dec7cc1e9c163ee630066b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:14 +0000
Subject: [PATCH 47/80] fix: assignment of arrays of a single zero or one to a
 stencil block array

---
 pycomplex/stencil/block.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 85eac03..15e4afa 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -125,6 +125,11 @@ class BlockArray(object):
         return self.block[item]
 
     def __setitem__(self, key, value):
+        if isinstance(value, np.ndarray):
+            if self.block[key].shape != value.shape:
+                raise NotImplementedError
+            self.block[key] = value
+            return
         try:
             if value == 0:
                 from pycomplex.stencil.operator import ZeroOperator
@@ -148,13 +153,6 @@ class BlockArray(object):
                 return
         except:
             pass
-        try:
-            if isinstance(value, np.ndarray):
-                assert self.block[key].shape == value.shape
-                self.block[key] = value
-                return
-        except:
-            pass
         raise NotImplementedError
 
     def to_dense(self):
-- 
2.43.0


From 643ad189799a5a650b192a63359b80b7834f543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 48/80] fix: row-wise block relaxation of stencil equations
 moved away from the solution

---
 pycomplex/stencil/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 65fe21b..d074c7b 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -141,7 +141,7 @@ class NormalSmoothEquation(Equation):
         for ri, l in enumerate(self.system.L):
             residual = sum(a * xc for a, xc in zip(self.system.A[ri, :], x.block)) - by[ri]
             for ci, xc in enumerate(x.block):
-                xc[:] += self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
+                xc[:] -= self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
         return x
 
     def overrelax(self, x: BlockArray, y: BlockArray, knots):
-- 
2.43.0


From c2e4b09bed03ad43262b9d66aa716e0f63fdb691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:28 +0000
Subject: [PATCH 49/80] fix: vertex areas of triangle meshes in space were
 twice too large

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 6f1fa60..0c9df33 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -557,7 +557,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         """Compute circumcentric area here"""
         # FIXME: this is not a circumcentric area! wil do for now... we have the circumcentric area now but not happy with it yet..
         I20 = self.topology.incidence[2, 0]
-        t_a = np.linalg.norm(self.triangle_normals(), axis=1)
+        t_a = np.linalg.norm(self.triangle_normals(), axis=1) / 2
         vertex_idx, v_a = npi.group_by(I20.flatten()).sum(np.repeat(t_a, 3, axis=0))
         return v_a / 3
 
-- 
2.43.0


From d2835dfe8bd268f35e2dd30353f5df85395ea435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 50/80] fix: center of mass of solids that are not star shaped
 around the origin

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 0c9df33..5be2f08 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -600,7 +600,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
             np.zeros_like(tris[:, 0:1, :])
         ), axis=1)
         tet_centroids = tets.mean(axis=1)
-        tet_volumes = euclidian.unsigned_volume(tets)
+        tet_volumes = euclidian.signed_volume(tets)
 
         return (tet_volumes[..., None] * tet_centroids).sum(axis=0) / tet_volumes.sum()
 
-- 
2.43.0


From 8322135b144d4e7feec8fe7454df4e16a4e48e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 51/80] fix: multi_indices of items that do not all occur in
 both arrays

---
 pycomplex/sparse.py | 60 ++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 47 deletions(-)

diff --git a/pycomplex/sparse.py b/pycomplex/sparse.py
index 5f5f2f5..e6b4f6a 100755
--- a/pycomplex/sparse.py
+++ b/pycomplex/sparse.py
@@ -98,9 +98,6 @@ def multi_indices(this, that):
     Should the items in both this and that be unique, npi.indices is a more efficient alternative
     with identical results
 
-    Note that this function only has vectorized efficiency if the number of 'combinatorial patterns' is small
-    relative to the overall size of the problem.
-
     Parameters
     ----------
     this : indexable object
@@ -116,50 +113,19 @@ def multi_indices(this, that):
         indices into that
 
     """
-    i_this = npi.as_index(this)
-    i_that = npi.as_index(that)
-
-    # FIXME: both counts need to be versus the same range
-    _, c_this = npi.count(i_this)
-    _, c_that = npi.count(i_that)
-    ok = _
-
-    # total number of entries in the broadcasting pattern
-    nnz = (c_this * c_that).sum()
-
-    cg = np.vstack((c_this, c_that)).T
-    shapes, participants = npi.group_by(cg, ok)
-
-    out_this = []
-    out_that = []
-    for shape, participant in zip(shapes, participants):
-        this_idx, that_idx = np.indices(shape, np.int)
-
-        if True:
-            ti = npi.contains(participant, i_this)
-            q = npi.group_by(this[ti]).split_array_as_array(np.flatnonzero(ti))
-            f = q[:, this_idx.reshape(1, -1)]
-            out_this.append(f.flatten())
-
-            ti = npi.contains(participant, i_that)
-            q = npi.group_by(that[ti]).split_array_as_array(np.flatnonzero(ti))
-            f = q[:, that_idx.reshape(1, -1)]
-            out_that.append(f.flatten())
-
-        if False:
-            for p in participant:
-                a, = np.where(this==p)
-                o = a[this_idx.flatten()]
-                out_this.append(o)
-                b, = np.where(that==p)
-                o = b[that_idx.flatten()]
-                out_that.append(o)
-
-    out_this = np.concatenate(tuple(out_this))
-    out_that = np.concatenate(tuple(out_that))
-
-    if not len(out_this) == nnz:
-        raise ValueError
+    # label all items over the range they have in common
+    labels = npi.as_index(np.concatenate((this, that), axis=0)).inverse
+    l_this, l_that = labels[:len(this)], labels[len(this):]
+
+    # the matches of each item of this are consecutive once that is sorted
+    order = np.argsort(l_that, kind='mergesort')
+    first = np.searchsorted(l_that[order], l_this, side='left')
+    count = np.searchsorted(l_that[order], l_this, side='right') - first
+
+    out_this = np.repeat(np.arange(len(l_this)), count)
+    # position of each pair among the pairs of the same item of this
+    offset = np.arange(len(out_this)) - np.repeat(np.cumsum(count) - count, count)
+    out_that = order[np.repeat(first, count) + offset]
 
     if not np.array_equiv(this[out_this], that[out_that]):
         # add a little sanity check; this should be true by construction
-- 
2.43.0


From 4eeee766b2b5e89b6033856fe6e1a7f75aead3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 52/80] fix: dense form of sparse arrays with entries that
 occur more than once, or not at all

---
 pycomplex/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/sparse.py b/pycomplex/sparse.py
index e6b4f6a..dff3e63 100755
--- a/pycomplex/sparse.py
+++ b/pycomplex/sparse.py
@@ -190,7 +190,7 @@ class Sparse(object):
         return Sparse(self.axes, self.data.astype(dtype))
 
     def todense(self):
-        return npi.Table(*self.axes).mean(self.data)
+        return npi.Table(*self.axes).sum(self.data)
 
     def dot(self, other):
         if isinstance(other, Sparse):
-- 
2.43.0


From e4c2e5381a5fb5938d23759856b1560dd6ee7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 53/80] fix: pointwise product of sparse arrays with entries
 that occur more than once

---
 pycomplex/sparse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomplex/sparse.py b/pycomplex/sparse.py
index dff3e63..bca52f1 100755
--- a/pycomplex/sparse.py
+++ b/pycomplex/sparse.py
@@ -177,8 +177,8 @@ class Sparse(object):
 
     def __mul__(self, other):
         if isinstance(other, Sparse):
-            # FIXME: make self and other canonical first
-            s = self.concatenate(other)
+            # within each of self and other, every index is to occur only once
+            s = self.canonical().concatenate(other.canonical())
             # select from s only dual items
             axes, data = npi.group_by(s.index).prod(s.data)
             filter = s.index.count == 2
@@ -223,6 +223,8 @@ class Sparse(object):
 
     def canonical(self):
         """sum doubles, drop zeros"""
+        axes, data = npi.group_by(self.index).sum(self.data)
+        return Sparse(axes, data).filter(lambda d: d != 0)
 
     def filter(self, condition):
         mask = condition(self.data)
-- 
2.43.0


From 17e1df36cf22bea92d7142c701eb2d249b299508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 54/80] fix: block arrays with blocks of equal or broadcastable
 shapes

---
 pycomplex/block.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 9f86ba5..c53ef51 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -25,11 +25,25 @@ from cached_property import cached_property
 from pycomplex.sparse import sparse_zeros
 
 
+def object_array(blocks):
+    """Nested lists of blocks as an object array, without looking inside of the blocks themselves"""
+    shape, level = [], blocks
+    while isinstance(level, (list, tuple)):
+        shape.append(len(level))
+        level = level[0]
+    array = np.empty(shape, dtype=object)
+    for idx in np.ndindex(*shape):
+        b = blocks
+        for i in idx:
+            b = b[i]
+        array[idx] = b
+    return array
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
     def __init__(self, block):
-        # FIXME: we wish to convertnested lists but not merge in leaf level arrays. how to enforce this?
-        self.block = np.asarray(block, dtype=object)
+        self.block = object_array(block) if isinstance(block, (list, tuple)) else np.asarray(block, dtype=object)
         # assert self.compatible
 
     @cached_property
@@ -78,7 +92,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block).reshape(self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -90,7 +104,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block).reshape(self.block.T.shape))
 
     def __getitem__(self, slc):
         """Slicing simply passes on to the block"""
@@ -109,7 +123,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
+        block = object_array(block).reshape(A.shape)
         return type(self)(block)
 
     def __add__(self, other):
-- 
2.43.0


From b7e019da6103b7a31a11ead0e0bb5815edfe3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 55/80] fix: shape of block matrices

---
 pycomplex/block.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index c53ef51..99349e4 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -65,7 +65,10 @@ class BlockArray(object):
         if self.nested:
             # FIXME
             raise NotImplementedError
-        return [[self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])] for n in range(self.ndim)]
+        return [
+            [self.block[(0,) * n + (i,) + (0,) * (self.ndim - n - 1)].shape[n] for i in range(self.block.shape[n])]
+            for n in range(self.ndim)
+        ]
 
     @cached_property
     def nested(self):
@@ -205,8 +208,8 @@ class BlockMatrix(BlockArray):
     @cached_property
     def square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def diagonal(self):
         """Get the diagonal of the block
-- 
2.43.0


From 4c12439401fa2f3a194b1eb27e0a375e4049a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 56/80] fix: diagonal block matrices lacked their off-diagonal
 blocks

---
 pycomplex/block.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 99349e4..4dea486 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -291,11 +291,7 @@ class SparseBlockMatrix(BlockMatrix):
     def diags(diag):
         """Turn dense block vector into diagonal block structure"""
         assert diag.ndim == 1
-        output_shape = diag.block.shape * 2
-        output = np.zeros(output_shape, dtype=object)
-        for i, b in enumerate(diag.block):
-            output[i, i] = scipy.sparse.diags(b)
-        return SparseBlockMatrix(output)
+        return SparseBlockMatrix.as_diagonal(diag)
 
 
 
-- 
2.43.0


From 8affe254f559c82d77c7dd6fdf94fe24fc44907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 57/80] fix: merging a sparse block matrix replaced its blocks

---
 pycomplex/block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 4dea486..6b9a082 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -285,7 +285,8 @@ class SparseBlockMatrix(BlockMatrix):
     def merge(self):
         if self.nested:
             raise NotImplementedError
-        return scipy.sparse.bmat(self.block)
+        # bmat converts the blocks it is given in place
+        return scipy.sparse.bmat(self.block.copy())
 
     @staticmethod
     def diags(diag):
-- 
2.43.0


From 98053a595f5eb7d513ca28c232afd87ab6a94a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 58/80] fix: velocity of a dual flux on regular complexes was
 reversed

---
 pycomplex/complex/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 44d745d..2dd010b 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -385,7 +385,8 @@ class BaseComplex(object):
 
         elif isinstance(self, ComplexRegularMixin):
             pp = self.primal_position
-            gradients = pp[-2][B] - pp[-1][:, None, :]
+            # pointing inward, just like the volume gradients of a simplex
+            gradients = pp[-1][:, None, :] - pp[-2][B]
             # gradients -= gradients.mean(axis=1, keepdims=True)
 
             gradients = linalg.normalized(gradients)
-- 
2.43.0


From 5348ead05932f3ef57460a6e944b8795595a1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 59/80] fix: velocity of a dual flux on simplicial curves was
 reversed

---
 pycomplex/complex/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 2dd010b..f9aa8ad 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -382,6 +382,9 @@ class BaseComplex(object):
             from pycomplex.geometry import euclidian
             # NOTE: analogous computation would be normal of cube faces multiplied with their area
             gradients = euclidian.simplex_gradients(self.vertices[self.topology.elements[-1]])
+            if self.topology.n_dim == 1:
+                # the i-th boundary element of an edge is its i-th vertex, rather than the one opposing it
+                gradients = gradients[:, ::-1]
 
         elif isinstance(self, ComplexRegularMixin):
             pp = self.primal_position
-- 
2.43.0


From bb907c833aae37ee16061886a9c2875b8124ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 60/80] fix: velocity of a dual flux on curves in 3-space
 failed

---
 pycomplex/complex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index f9aa8ad..2dbea88 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -398,7 +398,7 @@ class BaseComplex(object):
             raise NotImplementedError
 
 
-        u, s, v = np.linalg.svd(gradients)
+        u, s, v = np.linalg.svd(gradients, full_matrices=False)
         # only retain components in the plane of the element
         s[:, self.topology.n_dim:] = np.inf
         s = 1 / s
-- 
2.43.0


From 11361aa2b458ae57fe46eda9075bedc27aab7eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:52 +0000
Subject: [PATCH 61/80] fix: area of degenerate spherical triangles was
 arbitrary

---
 pycomplex/geometry/spherical.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 387a709..bd2c834 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -53,7 +53,12 @@ def triangle_area_from_corners(*tri):
     areas : ndarray, [n], float
         spherical area enclosed by the input corners
     """
-    return triangle_area_from_normals(*[np.cross(tri[v-2], tri[v-1]) for v in range(3)])
+    # well behaved for degenerate triangles, where the directions of the normals of the edges are not
+    a, b, c = tri
+    A, B, C = [np.linalg.norm(t, axis=-1) for t in tri]
+    numerator = np.abs(linalg.dot(a, np.cross(b, c)))
+    denominator = A * B * C + linalg.dot(a, b) * C + linalg.dot(b, c) * A + linalg.dot(c, a) * B
+    return 2 * np.arctan2(numerator, denominator)
 
 
 def triangle_areas_around_center(center, corners):
-- 
2.43.0


From 00627f8233612246ab3ede926cec679e53982ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:52 +0000
Subject: [PATCH 62/80] fix: dual multigrid transfers on the sphere intersected
 edges on its opposite side

---
 pycomplex/complex/simplicial/spherical.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 6de1817..7c60991 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -354,8 +354,12 @@ class ComplexSpherical2(ComplexSpherical):
         L = r = m - 2
 
         # compute the two intersection points
-        pl = +intersect_edges(p0[a, l], P2, p1[a, L], p2)   # right fine edge is left coarse edge / left fine vertex
-        pr = -intersect_edges(p0[a, r], P2, p1[a, R], p2)   # left fine edge if right coarse edge / right fine vertex
+        def intersect(*edges):
+            # of the two antipodal intersections, pick the one on our side of the sphere
+            p = intersect_edges(*edges)
+            return np.where(linalg.dot(p, p2)[:, None] < 0, -p, p)
+        pl = intersect(p0[a, l], P2, p1[a, L], p2)   # right fine edge is left coarse edge / left fine vertex
+        pr = intersect(p0[a, r], P2, p1[a, R], p2)   # left fine edge if right coarse edge / right fine vertex
 
         if False:
             import matplotlib.pyplot as plt
-- 
2.43.0


From 7a8f1531f2c853b6f1b7ce4478ec1ac0a70e89b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:52 +0000
Subject: [PATCH 63/80] fix: dual multigrid transfers ignored the radius of the
 sphere

---
 pycomplex/complex/simplicial/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 7c60991..3ff19f4 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -405,7 +405,7 @@ class ComplexSpherical2(ComplexSpherical):
             np.broadcast_to(i20[central_tris, None, :], areas.shape),
         )
 
-        return (center_transfer + corner_transfer).tocsr()
+        return (center_transfer + corner_transfer).tocsr() * fine.radius ** 2
 
     @cached_property
     def coarse_to_fine(coarse):
-- 
2.43.0


From 978ba0bf178208d4c2e7042609e5f6570cb3212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 64/80] fix: subdivided spheres lost their radius

---
 pycomplex/complex/simplicial/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index fa3bc5c..090981e 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -17,9 +17,10 @@ class BaseComplexSimplicial(BaseComplex):
     """
 
     def subdivide_fundamental(self, oriented=True):
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate(self.primal_position, axis=0),
             topology=self.topology.subdivide_fundamental(oriented),
+            weights=None,
         )
 
     def subdivide_fundamental_transfer(self):
@@ -27,9 +28,10 @@ class BaseComplexSimplicial(BaseComplex):
 
     def subdivide_simplicial(self):
         PP = self.primal_position
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate([PP[0], PP[-1]], axis=0),
             topology=self.topology.subdivide_simplicial(),
+            weights=None,
         )
 
     def subdivide_cubical(self):
-- 
2.43.0


From 955b86216a05e790046fdf8935750f4d7e50c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 65/80] fix: loop subdivision of a weighted sphere kept the
 weights of its vertices

---
 pycomplex/complex/simplicial/spherical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 3ff19f4..c2a8478 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -255,7 +255,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop()
+            topology=self.topology.subdivide_loop(),
+            weights=None
         )
 
     def subdivide_loop_direct(self):
@@ -266,7 +267,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop_direct()
+            topology=self.topology.subdivide_loop_direct(),
+            weights=None
         )
 
     def as_euclidian(self):
-- 
2.43.0


From 08b6d344cf6f4605efa6cb67a374d8c1643b847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 66/80] fix: casting a sphere to a surface dropped its weights

---
 pycomplex/complex/simplicial/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index c2a8478..4af397b 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -273,7 +273,7 @@ class ComplexSpherical2(ComplexSpherical):
 
     def as_euclidian(self):
         from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
-        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology)
+        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     @staticmethod
     def multigrid_transfer_dual(coarse, fine):
-- 
2.43.0


From acca8a6782994b0ca1dbf5779f8d4ab65d6f87ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 67/80] fix: casting a surface to a sphere dropped its weights

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 5be2f08..84a004e 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -726,7 +726,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         radius = np.linalg.norm(self.vertices, axis=1)
         assert np.allclose(radius, radius.mean())
         from pycomplex.complex.simplicial.spherical import ComplexSpherical2
-        return ComplexSpherical2(vertices=self.vertices, topology=self.topology)
+        return ComplexSpherical2(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     def save_STL(self, filename):
         """Save a mesh to binary STL.
-- 
2.43.0


From db56efa2709786737f50d86a8758ef8e97935cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 68/80] fix: boundary of part of a 2-sphere failed, and that of
 other spheres lost its radius

---
 pycomplex/complex/simplicial/spherical.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 4af397b..c47d6d3 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -38,6 +38,19 @@ class ComplexSpherical(BaseComplexSimplicial):
         from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
         return ComplexSimplicialEuclidian(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
+    @cached_property
+    def boundary(self):
+        boundary = self.topology.boundary
+        if boundary is None:
+            return None
+        idx = boundary.parent_idx[0]
+        return ComplexSpherical(
+            vertices=self.vertices[idx],
+            topology=boundary,
+            radius=self.radius,
+            weights=None if self.weights is None else self.weights[idx]
+        )
+
     def homogenize(self, points):
         return points
 
-- 
2.43.0


From fe1d10e7b6cbb3fc99a62ddbd47b5c8c9e37b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 69/80] fix: a circle without subdivisions had another radius

---
 pycomplex/synthetic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycomplex/synthetic.py b/pycomplex/synthetic.py
index 4b3090e..1120eea 100755
--- a/pycomplex/synthetic.py
+++ b/pycomplex/synthetic.py
@@ -70,6 +70,7 @@ def n_cube(n_dim, centering=False, mirror=True):
 def circle(subdivisions: int) -> ComplexCubical1Euclidian2:
     """Construct a circle as a 1-cube grid embedded in euclidian 2-space"""
     complex = n_cube(2, centering=True).boundary
+    complex = complex.copy(vertices=linalg.normalized(complex.vertices))
     for i in range(subdivisions):
         complex = complex.subdivide_cubical(smooth=True)
         complex = complex.copy(vertices=linalg.normalized(complex.vertices))
-- 
2.43.0


From 219c7c0d103928ccd694a690643196172fcb25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 70/80] fix: delaunay_cube contained simplices without volume

---
 pycomplex/synthetic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycomplex/synthetic.py b/pycomplex/synthetic.py
index 1120eea..b8bec18 100755
--- a/pycomplex/synthetic.py
+++ b/pycomplex/synthetic.py
@@ -335,6 +335,10 @@ def delaunay_cube(density=30, n_dim=2, iterations=30):
 
         points = np.concatenate([outer, points], axis=0)
         simplices = scipy.spatial.Delaunay(points).simplices
+        # drop simplices without volume, that lie within a face of the cube
+        corners = points[simplices]
+        flat = np.any(np.all(corners == 0, axis=1) | np.all(corners == 1, axis=1), axis=1)
+        simplices = simplices[~flat]
         a, b = np.unique(simplices, return_inverse=True)
         simplices = b.reshape(simplices.shape).astype(index_dtype)
         points = points[a]
-- 
2.43.0


From 4951e5bed92f006a544ec47dce9a167e03d4a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 71/80] fix: pick_primal_brute failed on euclidian complexes

---
 pycomplex/complex/simplicial/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 090981e..e01c1dd 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -306,7 +306,7 @@ class BaseComplexSimplicial(BaseComplex):
     def pick_primal_brute(self, points):
         """Added for debugging purposes"""
         _, basis = self.pick_precompute
-        baries = np.einsum('bcv,pc->bpv', basis, points)
+        baries = np.einsum('bcv,pc->bpv', basis, self.homogenize(points))
         quality = (baries * (baries < 0)).sum(axis=-1)
         simplex_index = np.argmax(quality, axis=0)
         return simplex_index
-- 
2.43.0


From e632e129abeb106bec8881bcf5a6812d0b64cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 72/80] fix: default initial guess of stencil systems that are
 not square

---
 pycomplex/stencil/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index d074c7b..741451b 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -43,7 +43,7 @@ class Equation(object):
     def solve_minres_normal(self, y, x0=None, **kwargs):
         """Works both for zero-conduction and zero-resistance zero-order problems"""
         if x0 is None:
-            x0 = y * 0
+            x0 = self.system.allocate_x()
         return self.normal.solve_minres(y, x0, **kwargs)
 
     def solve_qmr(self, y, x0, **kwargs):
@@ -175,5 +175,5 @@ class NormalSmoothEquation(Equation):
 class NormalEquation(Equation):
     def solve(self, y, x0=None, **kwargs):
         if x0 is None:
-            x0 = y * 0
+            x0 = self.system.allocate_x()
         return self.solve_minres(y=y, x0=x0, **kwargs)
-- 
2.43.0


From 32483d38384afdc789140b745ef3c1ed77ff3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 73/80] fix: solve_minres stopped before it had a solution, and
 failed without an initial guess or with a zero right hand side

---
 pycomplex/solvers.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pycomplex/solvers.py b/pycomplex/solvers.py
index d0d34fe..37864d4 100755
--- a/pycomplex/solvers.py
+++ b/pycomplex/solvers.py
@@ -97,7 +97,7 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
     rnorm = 0
     ynorm = 0
 
-    xtype = x0.dtype
+    xtype = np.result_type(A, b, float) if x0 is None else x0.dtype
 
     eps = np.finfo(xtype).eps
 
@@ -117,6 +117,9 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
     if beta1 < 0:
         raise ValueError('indefinite preconditioner')
 
+    elif beta1 == 0:
+        return x
+
     beta1 = np.sqrt(beta1)
 
 
@@ -130,7 +133,8 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
     rhs1 = beta1
     rhs2 = 0
     tnorm2 = 0
-    ynorm2 = 0
+    gmax = 0
+    gmin = np.finfo(xtype).max
     cs = -1
     sn = 0
     w = np.zeros(n, dtype=xtype)
@@ -165,9 +169,6 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
         if itn == 1:
             if beta/beta1 <= 10*eps:
                 istop = -1  # Terminate later
-            # tnorm2 = alfa**2 ??
-            gmax = abs(alfa)
-            gmin = gmax
 
         # Apply previous rotation Qk-1 to get
         #   [deltak epslnk+1] = [cs  sn][dbark    0   ]
@@ -203,14 +204,13 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
         gmax = max(gmax, gamma)
         gmin = min(gmin, gamma)
         z = rhs1 / gamma
-        ynorm2 = z**2 + ynorm2
         rhs1 = rhs2 - delta*z
         rhs2 = - epsln*z
 
         # Estimate various norms and test for convergence.
 
         Anorm = np.sqrt(tnorm2)
-        ynorm = np.sqrt(ynorm2)
+        ynorm = np.linalg.norm(x)
         epsa = Anorm * eps
         epsx = Anorm * ynorm * eps
         epsr = Anorm * ynorm * tol
@@ -221,8 +221,8 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
 
         qrnorm = phibar
         rnorm = qrnorm
-        test1 = rnorm / (Anorm*ynorm)    # ||r||  / (||A|| ||x||)
-        test2 = root / Anorm            # ||Ar|| / (||A|| ||r||)
+        test1 = rnorm / (Anorm*ynorm) if Anorm*ynorm else np.inf    # ||r||  / (||A|| ||x||)
+        test2 = root / Anorm if Anorm else np.inf           # ||Ar|| / (||A|| ||r||)
 
         # Estimate  cond(A).
         # In this version we look at the diagonals of  R  in the
@@ -247,7 +247,7 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
                 istop = 6
             if Acond >= 0.1/eps:
                 istop = 4
-            if epsx >= beta:
+            if epsx >= beta1:
                 istop = 3
             # if rnorm <= epsx   : istop = 2
             # if rnorm <= epsr   : istop = 1
-- 
2.43.0


From 4a4d50264ce71c96f70d02fc525a973bdd9b0dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:57 +0000
Subject: [PATCH 74/80] fix: averages over elements of six or more dimensions
 were negative, by overflow of the number of paths to their corners

---
 pycomplex/topology/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 3313461..959bd56 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -218,7 +218,7 @@ class BaseTopology(object):
         Primal could override this implementation with a more efficient implementation based on elements/corners arrays
 
         """
-        A = list(accumulate([np.abs(m) for m in self.matrices], func=operator.mul))
+        A = list(accumulate([np.abs(m).astype(index_dtype) for m in self.matrices], func=operator.mul))
         return [scipy.sparse.identity(A[0].shape[0], dtype=sign_dtype)] + A
 
     def accumulated_operators_N(self):
@@ -230,7 +230,7 @@ class BaseTopology(object):
             n-th element of the list maps n-elements to N-elements
 
         """
-        A = list(accumulate([np.abs(m.T) for m in self.matrices[::-1]], func=operator.mul))
+        A = list(accumulate([np.abs(m.T).astype(index_dtype) for m in self.matrices[::-1]], func=operator.mul))
         A = [scipy.sparse.identity(A[0].shape[0], dtype=sign_dtype)] + A
         return A[::-1]
 
-- 
2.43.0


From 527646d381c1f18fdcef76ffc65507cd334a4666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:44 +0000
Subject: [PATCH 75/80] fix: solve_minres stopped at once if the right hand
 side is large compared to the matrix

---
 pycomplex/solvers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomplex/solvers.py b/pycomplex/solvers.py
index 37864d4..07793dc 100755
--- a/pycomplex/solvers.py
+++ b/pycomplex/solvers.py
@@ -164,10 +164,12 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
         if beta < 0:
             raise ValueError('non-symmetric matrix')
         beta = np.sqrt(beta)
-        tnorm2 += alfa**2 + oldb**2 + beta**2
+        tnorm2 += alfa**2 + beta**2
+        if itn >= 2:    # the first oldb is the norm of b, which is not a property of A
+            tnorm2 += oldb**2
 
         if itn == 1:
-            if beta/beta1 <= 10*eps:
+            if beta <= 10*eps*abs(alfa):    # b is an eigenvector of A
                 istop = -1  # Terminate later
 
         # Apply previous rotation Qk-1 to get
-- 
2.43.0


From 0410e26b8f1c233dce440adfd0c560aa33b5b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:05 +0000
Subject: [PATCH 76/80] fix: solve_cg stopped at once if the numbers involved
 are small

---
 pycomplex/solvers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycomplex/solvers.py b/pycomplex/solvers.py
index 07793dc..5431e6f 100755
--- a/pycomplex/solvers.py
+++ b/pycomplex/solvers.py
@@ -39,6 +39,7 @@ def solve_cg(deflate, operator, rhs, x0=None):
 
     eps = 1e-9
     max_iter = 3000
+    norm = 0        # running estimate of the norm of the operator
 
     x = np.copy(x0)
     deflate(x)
@@ -54,8 +55,12 @@ def solve_cg(deflate, operator, rhs, x0=None):
         q = operator(d)
         deflate(q)
 
+        # stop if there is nothing left to solve, or along directions the operator does not see; whatever the units
+        dd = dot(d, d)
+        if dd == 0 or delta_new <= eps**3 * dot(rhs, rhs): break
+        norm = max(norm, np.sqrt(dot(q, q) / dd))
         dq = dot(d, q)
-        if np.abs(dq) < eps: break
+        if np.abs(dq) <= eps**1.5 * norm * dd: break
 
         alpha = delta_new / dq
 
-- 
2.43.0


From b1ee783c240e7f932f9d18731b386bfce41ad77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:40 +0000
Subject: [PATCH 77/80] fix: products of sparse arrays of more than two
 dimensions lost axes, and those of two vectors failed

---
 pycomplex/sparse.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pycomplex/sparse.py b/pycomplex/sparse.py
index bca52f1..75ef16d 100755
--- a/pycomplex/sparse.py
+++ b/pycomplex/sparse.py
@@ -204,11 +204,9 @@ class Sparse(object):
             si, oi = multi_indices(self.axes[-1], other.axes[0])
 
 
-            free = []
-            if self.ndim == 2:
-                free.append(self.axes[0][si])
-            if other.ndim == 2:
-                free.append(other.axes[-1][oi])
+            free = [a[si] for a in self.axes[:-1]] + [a[oi] for a in other.axes[1:]]
+            if not free:
+                return np.dot(self.data[si], other.data[oi])
 
             # sum over j
             g = npi.group_by(tuple(free))
-- 
2.43.0


From ac00ae2193afdab45f3fd3d5660a27efa52a5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:33 +0000
Subject: [PATCH 78/80] fix: smoothing does not truncate positions to integers
 if the vertices are

---
 pycomplex/complex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 2dbea88..cd25158 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -169,7 +169,7 @@ class BaseComplex(object):
                 C[n] = np.flatnonzero(c) if isinstance(c, np.ndarray) else c
 
         # accumulate new vertex positions
-        vertices = self.vertices.copy()
+        vertices = self.vertices.astype(float)
         # start with n-elements, working backwards to vertices
         for corners, cr, centroids in reversed(list(zip(self.topology.corners, C, self.primal_position))):
             if cr is not None:
-- 
2.43.0


From 07bab50bd2dce6f41ed18467bb9437f0e5aa4645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:20 +0000
Subject: [PATCH 79/80] fix: picking dual cubes failed if there are no points
 to pick

---
 pycomplex/complex/regular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index 16accf9..5ededd3 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -233,7 +233,7 @@ class ComplexRegularMixin(object):
 
         """
         domains, _ = self.pick_fundamental(points)
-        return domains.reshape(len(domains), -1)[:, 0]
+        return domains[(slice(None),) + (0,) * (domains.ndim - 1)]
 
     def average_dual(self, d0):
         """Average a dual 0-form to obtain values on all dual elements
-- 
2.43.0


From e7871b3cc551a44e2bb54c479889fe1f685ec345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:00 +0000
Subject: [PATCH 80/80] fix: extruding a weighted complex keeps a weight per
 vertex

---
 pycomplex/complex/simplicial/euclidian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 84a004e..9151941 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -801,7 +801,11 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         solid_points = np.concatenate((self.vertices, other.vertices))
         solid_tris   = np.concatenate((self_tris, other_tris, boundary_tris))
 
-        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None)
+        weights = None
+        if self.weights is not None and other.weights is not None:
+            weights = np.concatenate((self.weights, other.weights))
+
+        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None, weights=weights)
         assert solid.topology.is_oriented
         return solid
 
-- 
2.43.0

