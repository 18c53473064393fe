From d09ed215e016c627118e37e47ff99f0e17a6e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 01/34] fix: do not translate rays in SpanForm.transform

---
 src/rigeo/polydd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 4b3f240..0341159 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -164,7 +164,8 @@ class SpanForm:
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
         if self.rays is not None:
-            rays = (rotation @ self.rays.T).T + translation
+            # rays are directions, which are not affected by translation
+            rays = (rotation @ self.rays.T).T
 
         return SpanForm(vertices=vertices, rays=rays)
 
-- 
2.43.0


From 3ba787d5e49c6f0fa4f250a58967cbfc11fd0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 02/34] fix: face form conversion when there are only equality
 rows

---
 src/rigeo/polydd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 0341159..72339cc 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -202,7 +202,8 @@ class FaceForm:
         A = -M[:, 1:]
 
         ineq_idx = np.array(
-            [idx for idx in range(mat.row_size) if idx not in mat.lin_set]
+            [idx for idx in range(mat.row_size) if idx not in mat.lin_set],
+            dtype=int,
         )
         eq_idx = np.array([idx for idx in mat.lin_set])
 
-- 
2.43.0


From b060fa1a0d85b413e7d479681cd5700c7849f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 03/34] fix: sample box surface in the local frame

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index bef5745..0977d53 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -146,7 +146,7 @@ class Box(ConvexPolyhedron):
         # TODO would probably be nicer to sample the number per face first,
         # like in the edges function below
         rng = np.random.default_rng(rng)
-        points = self.random_points(n, rng=rng)
+        points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents
 
         x, y, z = self.half_extents
         Ax = 4 * y * z
-- 
2.43.0


From ae729177dfe62e106491b6e2bd546b62386868be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 04/34] fix: respect the tolerance in Cylinder.contains

---
 src/rigeo/shape/cylinder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 8138615..9c79552 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -123,7 +123,8 @@ class Cylinder(Shape):
         P1 = points @ self.longitudinal_axis[:, None]
         P2 = points @ self.transverse_axes
         return np.all(
-            [E.contains(P) for E, P in zip(self._ellipsoids, (P1, P2))], axis=0
+            [E.contains(P, tol=tol) for E, P in zip(self._ellipsoids, (P1, P2))],
+            axis=0,
         )
 
     def must_contain(self, points, scale=1.0):
-- 
2.43.0


From 6593d2ce08ac08b55511f03649c34914a57ddc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 05/34] fix: Cylinder.is_same accepts a tolerance like all
 other shapes

---
 src/rigeo/shape/cylinder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 9c79552..7004374 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -109,14 +109,14 @@ class Cylinder(Shape):
         """The volume of the cylinder."""
         return np.pi * self.radius**2 * self.length
 
-    def is_same(self, other):
+    def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
         return (
-            np.isclose(self.length, other.length)
-            and np.isclose(self.radius, other.radius)
-            and np.allclose(self.center, other.center)
-            and np.allclose(self.rotation, other.rotation)
+            np.isclose(self.length, other.length, atol=tol)
+            and np.isclose(self.radius, other.radius, atol=tol)
+            and np.allclose(self.center, other.center, atol=tol)
+            and np.allclose(self.rotation, other.rotation, atol=tol)
         )
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From 555914eececa70bdcbe2ca8a1fb537f82e480cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 06/34] fix: enforce definiteness margin in moment SDP
 constraints

---
 src/rigeo/shape/cylinder.py | 3 ++-
 src/rigeo/shape/poly.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 7004374..8f3f64d 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -158,7 +158,8 @@ class Cylinder(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._poly0s)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index e7fe25d..92dfa58 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -280,7 +280,8 @@ class ConvexPolyhedron(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._polys)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
-- 
2.43.0


From 4dde1cc3215f9861990e29150fe7d3217af885d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 07/34] fix: do not apply definiteness margin to the cylinder's
 flat disks

---
 src/rigeo/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 8f3f64d..b9c41ec 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -181,7 +181,7 @@ class Cylinder(Shape):
         disk_constraints = [
             c
             for J, disk in zip(Js, self.disk0s)
-            for c in disk.moment_constraints(J, eps=eps)
+            for c in disk.moment_constraints(J)
         ]
 
         return (
-- 
2.43.0


From ae0f0db1296347cc98668fd9f0e66478aaea38f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 08/34] fix: minimum bounding sphere of a box

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 0977d53..35e173d 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -334,7 +334,7 @@ class Box(ConvexPolyhedron):
 
         half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         if sphere:
-            radius = np.max(half_extents)
+            radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
         return Ellipsoid(
             half_extents=half_extents,
-- 
2.43.0


From d6a3489e82d154429ef1a1ad3b607b437fd2cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 09/34] fix: Ellipsoid.mbe accepts a solver like all other
 shapes

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3e2695c..95ac724 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -415,7 +415,7 @@ class Ellipsoid(Shape):
             Qr, V = self._QV_degenerate()
             return psd_constraints + [cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]
 
-    def mbe(self, rcond=None, sphere=False):
+    def mbe(self, rcond=None, sphere=False, solver=None):
         if not sphere:
             return self
         radius = np.max(self.half_extents)
-- 
2.43.0


From d86fa5997233f6b71ca1b4d84d0248d3c7cc0faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 10/34] fix: rotation of points sampled on the surface of an
 ellipsoid

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 95ac724..929301a 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -502,7 +502,7 @@ class Ellipsoid(Shape):
             count += n_acc
 
         # rotate and translate points as needed
-        points = points @ self.rotation + self.center
+        points = points @ self.rotation.T + self.center
 
         # reshape to desired shape
         if shape == (1,):
-- 
2.43.0


From 6fe8bc78b311492d10989c37cf7f2b74ea79c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 11/34] fix: random sampling in one dimension

---
 src/rigeo/random.py          | 6 +++---
 src/rigeo/shape/ellipsoid.py | 2 +-
 src/rigeo/shape/poly.py      | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rigeo/random.py b/src/rigeo/random.py
index ff590fc..a0157a0 100644
--- a/src/rigeo/random.py
+++ b/src/rigeo/random.py
@@ -52,7 +52,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     See https://compneuro.uwaterloo.ca/files/publications/voelker.2017.pdf
     """
-    assert dim >= 1
+    assert dim >= 0
     if np.isscalar(shape):
         shape = (shape,)
     full_shape = tuple(shape) + (dim + 1,)
@@ -67,7 +67,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == (1,):
-        return np.squeeze(points)
+        return np.squeeze(points, axis=0)
     return points
 
 
@@ -85,7 +85,7 @@ def random_points_in_ball(shape=1, dim=3, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == 1:
-        return np.squeeze(points)
+        return np.squeeze(points, axis=0)
     return points
 
 
diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 929301a..7f16330 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -506,7 +506,7 @@ class Ellipsoid(Shape):
 
         # reshape to desired shape
         if shape == (1,):
-            return np.squeeze(points)
+            return np.squeeze(points, axis=0)
         return points.reshape(shape + (self.dim,))
 
     def transform(self, rotation=None, translation=None):
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 92dfa58..f9acca9 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -187,7 +187,7 @@ class ConvexPolyhedron(Shape):
         w = random_weight_vectors(full_shape, rng=rng)
         points = w @ self.vertices
         if shape == (1,):
-            return np.squeeze(points)
+            return np.squeeze(points, axis=0)
         return points
 
     def aabb(self):
-- 
2.43.0


From d1a1f758208e63300fdd82e494ba50ecd7b2abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 12/34] fix: volume of ellipsoids in dimensions other than
 three

---
 src/rigeo/shape/ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 7f16330..0508a93 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -1,6 +1,7 @@
 import numpy as np
 import cvxpy as cp
 from scipy.linalg import orth, null_space
+from scipy.special import gamma
 
 from ..util import clean_transform
 from ..random import random_points_in_ball, random_points_on_hypersphere
@@ -108,7 +109,8 @@ class Ellipsoid(Shape):
     @property
     def volume(self):
         """The volume of the ellipsoid."""
-        return 4 * np.pi * np.prod(self.half_extents) / 3
+        unit_ball_volume = np.pi ** (self.dim / 2) / gamma(self.dim / 2 + 1)
+        return unit_ball_volume * np.prod(self.half_extents)
 
     def __repr__(self):
         return f"Ellipsoid(half_extents={self.half_extents}, center={self.center}, rotation={self.rotation})"
-- 
2.43.0


From d37f670e4de4e15055914c2868e298a1c8263bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 13/34] fix: massless inertial parameters specified by the
 first moment

---
 src/rigeo/inertial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index e3f4bab..e12ef81 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -47,7 +47,8 @@ class InertialParameters:
         if h is not None and com is not None:
             raise ValueError("Cannot specify both h and com.")
         if com is None:
-            if h is None:
+            # center of mass of a massless body is arbitrary
+            if h is None or (mass == 0 and not np.any(h)):
                 com = np.zeros(3)
             else:
                 com = h / mass
-- 
2.43.0


From b4a6efcb869ef06fbcdc365645baa4aadffa6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 14/34] fix: transform_matrix_inv in dimensions other than
 three

---
 src/rigeo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 912fd4f..7489694 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -209,7 +209,7 @@ def transform_matrix_inv(rotation=None, translation=None, dim=3):
     translation."""
     rotation, translation = clean_transform(rotation, translation, dim=dim)
     return transform_matrix(
-        rotation=rotation.T, translation=-rotation.T @ translation
+        rotation=rotation.T, translation=-rotation.T @ translation, dim=dim
     )
 
 
-- 
2.43.0


From 8b1f82edf06bd99685ac410f4d3d62ee0c7ea7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 15/34] fix: recognize large triangular numbers exactly

---
 src/rigeo/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 7489694..53a5f7c 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -1,5 +1,6 @@
 """Miscellaneous utility functions."""
 import itertools
+import math
 import numbers
 from pathlib import Path
 
@@ -52,8 +53,9 @@ def is_triangular_number(x):
         return False, -1
 
     # use quadratic formula to solve
-    n = 0.5 * (np.sqrt(1 + 8 * x) - 1)
-    return n.is_integer(), int(n)
+    x = int(x)
+    n = (math.isqrt(1 + 8 * x) - 1) // 2
+    return n * (n + 1) // 2 == x, n
 
 
 def unvech(a):
-- 
2.43.0


From bbe9d6db4e46fd5c0333c2f41e2702fc3e15b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 16/34] fix: degree-zero polynomial basis

---
 src/rigeo/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index 30754d7..a5258d5 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -133,7 +133,7 @@ class Polynomial:
             b[i] = 1
             basis.append(MomentIndex(b))
         return [
-            sum(group)
+            sum(group, start=basis[0])
             for group in itertools.combinations_with_replacement(basis, d)
         ]
 
-- 
2.43.0


From 58058f03fc7a5eb55647653038a2727e52114c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 17/34] fix: bounding spheres of points

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 0508a93..66fc361 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -708,8 +708,8 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     constraints = [cp.norm2(A @ x + b) <= 1 for x in P]
     if sphere:
         # if we want a sphere, then A is a multiple of the identity matrix
-        r = cp.Variable(1)
-        constraints.append(A == r * np.eye(rank))
+        a = cp.Variable(1)
+        constraints.append(A == a * np.eye(rank))
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
-- 
2.43.0


From 053e9c6bb58ad4b6543091ab67c2d3689f12abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 18/34] fix: ellipsoid representation used to check ellipsoid
 containment

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 66fc361..9d02bbb 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -550,8 +550,8 @@ class Ellipsoid(Shape):
         constraints = [
             t >= 0,
             schur(
-                self.S - t * other.A,
-                self.A @ self.b - t * self.b,
+                self.S - t * other.S,
+                self.A @ self.b - t * (other.A @ other.b),
                 self.b @ self.b - 1 - t * (other.b @ other.b - 1),
             )
             << 0,
-- 
2.43.0


From 6d748c6f506bca2ffb8f30fd6b37f8a2e3bd449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 19/34] fix: ellipsoid representation used to compute bounding
 ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 9d02bbb..e7a0952 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -612,10 +612,14 @@ class Ellipsoid(Shape):
         )
 
 
-def _mbee_con_mat(S, d, Ai, bi, ti):
+def _mbee_con_mat(S, d, ellipsoid, ti):
     """Constraint matrix for minimum bounding ellipsoid of ellipsoids problem."""
     dim = S.shape[0]
-    ci = bi @ bi - 1
+
+    # quadratic form x.T @ Ai @ x + 2 * bi @ x + ci <= 0 of the ellipsoid
+    Ai = ellipsoid.S
+    bi = ellipsoid.A @ ellipsoid.b
+    ci = ellipsoid.b @ ellipsoid.b - 1
     Z = np.zeros((dim, dim))
     f = cp.reshape(-1 - ti * ci, (1, 1), order="C")
     e = cp.reshape(d - ti * bi, (dim, 1), order="C")
@@ -656,7 +660,7 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
 
     objective = cp.Minimize(-cp.log_det(S))
     constraints = [ts >= 0] + [
-        _mbee_con_mat(S, d, E.A, E.b, ti) << 0 for E, ti in zip(ellipsoids, ts)
+        _mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)
     ]
     if sphere:
         # if we want a sphere, then S is a multiple of the identity matrix
-- 
2.43.0


From f1af1af2fa73e02bbc8b6afe99c103174c2f43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 20/34] fix: comparison of degenerate ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index e7a0952..91047a8 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -247,7 +247,16 @@ class Ellipsoid(Shape):
         """Check if this ellipsoid is the same as another."""
         if not isinstance(other, self.__class__):
             return False
-        return np.allclose(self.Q, other.Q, atol=tol)
+        if self.dim != other.dim:
+            return False
+
+        # linear part of the affine map from the unit ball to the ellipsoid;
+        # this is finite even if the ellipsoid is degenerate
+        B1 = self.rotation @ np.diag(self.half_extents) @ self.rotation.T
+        B2 = other.rotation @ np.diag(other.half_extents) @ other.rotation.T
+        return np.allclose(B1, B2, atol=tol) and np.allclose(
+            self.center, other.center, atol=tol
+        )
 
     def contains(self, points, tol=1e-8):
         """Check if points are contained in the ellipsoid.
-- 
2.43.0


From c1da9edf403eb6b8173a78e595c76e5eb7f368c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 21/34] fix: comparison of a box with a general polyhedron

---
 src/rigeo/shape/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index f9acca9..2391608 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -170,7 +170,7 @@ class ConvexPolyhedron(Shape):
         return [self.A @ p <= scale * self.b for p in points]
 
     def is_same(self, other, tol=1e-8):
-        if not isinstance(other, self.__class__):
+        if not isinstance(other, ConvexPolyhedron) or self.dim != other.dim:
             return False
         return self.contains_polyhedron(
             other, tol=tol
-- 
2.43.0


From 796f034eafc3ffd44791bc6ac59a465354f16430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 22/34] fix: recognize cones whose apex is an explicit vertex

---
 src/rigeo/polydd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 72339cc..6c8ddc0 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -104,7 +104,10 @@ class SpanForm:
         : bool
             ``True`` if the polyhedron is a cone, ``False`` otherwise.
         """
-        return self.rays is not None and self.vertices is None
+        # the apex may be represented explicitly by a vertex at the origin
+        return self.rays is not None and (
+            self.vertices is None or np.allclose(self.vertices, 0)
+        )
 
     def to_cdd_matrix(self):
         """Convert to a CDD matrix.
-- 
2.43.0


From 15aad7869b38f2304bae46dd94d08626756c3a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 23/34] fix: minimum bounding ellipsoid of a flat box

---
 src/rigeo/shape/box.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 35e173d..351a67c 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -332,7 +332,9 @@ class Box(ConvexPolyhedron):
     def mbe(self, rcond=None, sphere=False, solver=None):
         from .ellipsoid import Ellipsoid
 
-        half_extents = self.half_extents * np.sqrt(3)  # TODO check this
+        # a flat box is bounded by a lower-dimensional ellipsoid
+        rank = np.count_nonzero(self.half_extents)
+        half_extents = self.half_extents * np.sqrt(rank)
         if sphere:
             radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
-- 
2.43.0


From 09444453655f875af502dc14780f8328cdaf645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 24/34] fix: maximum inscribed box of a degenerate ellipsoid

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 91047a8..5b129d1 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -447,7 +447,7 @@ class Ellipsoid(Shape):
         from .box import Box
 
         return Box(
-            half_extents=self.half_extents / np.sqrt(3),
+            half_extents=self.half_extents / np.sqrt(max(self.rank, 1)),
             center=self.center,
             rotation=self.rotation,
         )
-- 
2.43.0


From 6c60e34c053514f7c5dd8dcb89159d96851dd9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 25/34] fix: bounding ellipsoid of a single point

---
 src/rigeo/shape/ellipsoid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 5b129d1..76e3beb 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -708,6 +708,10 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     R = orth((points - r).T, rcond=rcond)
     rank = R.shape[1]
 
+    # there is nothing to optimize for a single point
+    if rank == 0:
+        return Ellipsoid(half_extents=np.zeros(points.shape[1]), center=r)
+
     # project onto the rowspace
     # this allows us to handle degenerate sets of points that live in a
     # lower-dimensional subspace than R^d
-- 
2.43.0


From 717f79249f9014f2b56bc7c1243e3ac3ef4f892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 26/34] fix: inscribed ellipsoid of a single point

---
 src/rigeo/shape/poly.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 2391608..a9d0050 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -216,6 +216,10 @@ class ConvexPolyhedron(Shape):
         R = orth((self.vertices - r).T, rcond=rcond)
         rank = R.shape[1]
 
+        # there is nothing to optimize for a single point
+        if rank == 0:
+            return Ellipsoid(half_extents=np.zeros(self.dim), center=r)
+
         # project onto the rowspace
         # this allows us to handle degenerate sets of points that live in a
         # lower-dimensional subspace than R^d
-- 
2.43.0


From 54e40796c0a8323da2bc5b603e501fea2ad8d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 27/34] fix: ellipsoid from an affine form with a non-symmetric
 matrix

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 76e3beb..baaa812 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -148,7 +148,7 @@ class Ellipsoid(Shape):
     @classmethod
     def from_affine(cls, A, b, rcond=None):
         """Construct an ellipsoid from an affine transformation of the unit ball."""
-        S = A @ A
+        S = A.T @ A
 
         # use least squares instead of direct solve in case we have a
         # degenerate ellipsoid
-- 
2.43.0


From f31890eef745635f66f4451c7ae65124a00450e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 28/34] fix: containment of tiny or far away ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index baaa812..b5fdc54 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -554,16 +554,17 @@ class Ellipsoid(Shape):
     def contains_ellipsoid(self, other, solver=None):
         # See Boyd and Vandenberghe pp. 411
         # TODO does not work for degenerate ellipsoids
+        # use coordinates in which the other ellipsoid is the unit ball, so
+        # that the problem is well-scaled regardless of the ellipsoids' size
+        # and location
+        A = self.A @ other.rotation @ np.diag(other.half_extents)
+        b = self.A @ (other.center - self.center)
+
         t = cp.Variable(1)
         objective = cp.Minimize([0])  # feasibility problem
         constraints = [
             t >= 0,
-            schur(
-                self.S - t * other.S,
-                self.A @ self.b - t * (other.A @ other.b),
-                self.b @ self.b - 1 - t * (other.b @ other.b - 1),
-            )
-            << 0,
+            schur(A.T @ A - t * np.eye(self.dim), A.T @ b, b @ b - 1 + t) << 0,
         ]
         problem = cp.Problem(objective, constraints)
         problem.solve(solver=solver)
-- 
2.43.0


From dd89efdf5fc38e9193f512fb21f2057bcc5e442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 29/34] fix: overflow of integer extents

---
 src/rigeo/shape/box.py       | 2 +-
 src/rigeo/shape/cylinder.py  | 4 ++--
 src/rigeo/shape/ellipsoid.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 351a67c..98d3f2e 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -54,7 +54,7 @@ class Box(ConvexPolyhedron):
 
     # TODO change parameter order to match transform
     def __init__(self, half_extents, center=None, rotation=None):
-        self.half_extents = np.array(half_extents)
+        self.half_extents = np.array(half_extents, dtype=float)
         assert self.half_extents.shape == (3,)
         assert np.all(self.half_extents >= 0)
 
diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index b9c41ec..cab01ba 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -31,8 +31,8 @@ class Cylinder(Shape):
         assert length >= 0
         assert radius >= 0
 
-        self.length = length
-        self.radius = radius
+        self.length = float(length)
+        self.radius = float(radius)
 
         if rotation is None:
             self.rotation = np.eye(3)
diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index b5fdc54..8433db9 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -63,7 +63,7 @@ class Ellipsoid(Shape):
     def __init__(self, half_extents, rotation=None, center=None):
         if np.isscalar(half_extents):
             half_extents = [half_extents]
-        self.half_extents = np.array(half_extents)
+        self.half_extents = np.array(half_extents, dtype=float)
 
         assert np.all(
             self.half_extents >= 0
-- 
2.43.0


From 7fe44c9b1755a3e474649f4e71ba5fb7fcbe9a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 30/34] fix: overflow of integer centers of mass

---
 src/rigeo/inertial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index e12ef81..5dd6aae 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -52,6 +52,7 @@ class InertialParameters:
                 com = np.zeros(3)
             else:
                 com = h / mass
+        com = np.array(com, dtype=float)
         self.com = com
 
         if H is not None and I is not None:
-- 
2.43.0


From c0dfecacbcbf6ab640dc23fad43293b6f723f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 31/34] fix: overflow when evaluating polynomials at integer
 points

---
 src/rigeo/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index a5258d5..8a2125b 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -113,7 +113,7 @@ class Polynomial:
 
     def evaluate(self, x):
         """Evaluate the polynomial at point x."""
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         return np.sum(
             [
                 coeff * np.prod(x**idx.value)
-- 
2.43.0


From e93313e5e6cb3e73578772f6d6141d80ea7d53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 32/34] fix: FaceForm keeps its own copy of the half-spaces it
 is built from

---
 src/rigeo/polydd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 6c8ddc0..2a3e477 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -185,8 +185,8 @@ class FaceForm:
             self.A = np.vstack((A_ineq, A_eq, -A_eq))
             self.b = np.concatenate((b_ineq, b_eq, -b_eq))
         else:
-            self.A = A_ineq
-            self.b = b_ineq
+            self.A = np.array(A_ineq)
+            self.b = np.array(b_ineq)
 
     def __repr__(self):
         return f"FaceForm(A={self.A}, b={self.b})"
-- 
2.43.0


From a6a8982b6ec7701ab2b11d5c6a06a6d413449a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 33/34] fix: InertialParameters keeps its own copy of the
 second moment matrix

---
 src/rigeo/inertial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index 5dd6aae..3f1a416 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -71,7 +71,7 @@ class InertialParameters:
         if translate_from_com:
             H = H + mass * np.outer(com, com)
 
-        self.H = H
+        self.H = np.array(H)
 
     def __repr__(self):
         return f"InertialParameters(mass={self.mass}, com={self.com}, H={self.H})"
-- 
2.43.0


From 71988d8b78cbc49eab1f4a12f3ae94c150de8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 34/34] fix: RigidBody keeps its own list of shapes, whatever
 iterable it is given

---
 src/rigeo/rigidbody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/rigidbody.py b/src/rigeo/rigidbody.py
index d71b1ce..ed5eaef 100644
--- a/src/rigeo/rigidbody.py
+++ b/src/rigeo/rigidbody.py
@@ -31,7 +31,7 @@ class RigidBody:
         if params is None:
             params = InertialParameters.zero()
 
-        self.shapes = shapes
+        self.shapes = list(shapes)
         self.params = params
 
     def __add__(self, other):
-- 
2.43.0

