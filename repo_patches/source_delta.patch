From e8221674ee56f0851a63a987c1d15106faa76e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 01/14] fix: lens coordinates use a dtype name that exists in
 numpy 2

---
 dreimac/lenscoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/lenscoords.py b/dreimac/lenscoords.py
index c8a3736..5f70276 100644
--- a/dreimac/lenscoords.py
+++ b/dreimac/lenscoords.py
@@ -93,7 +93,7 @@ class LensCoords(EMCoords):
 
         root_of_unity = np.exp(2 * np.pi * 1j / self._prime)
 
-        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), np.complex_ )
+        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), complex )
         cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]
         cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:, 2]
 
-- 
2.43.0


From e9e3683c44bf34b3d977f01f5e832a06f0b6844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 02/14] fix: complex projective class map reads the array it
 assembled, not a compile-time copy

numba freezes closure arrays below 1 MB as constants, so the phases were all
lost (exp(0)) for small and medium inputs.
---
 dreimac/complexprojectivecoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 936fa83..5a30a78 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -298,7 +298,7 @@ def _sparse_integrate(
                 class_map[b, i] += nu[i, ball_indx[b]]
                 for t in range(n_landmarks):
                     class_map[b, i] += varphi[t, b] * eta[i, ball_indx[b], t]
-        return np.exp(2 * np.pi * 1j * class_map0) * np.sqrt(varphi.T)
+        return np.exp(2 * np.pi * 1j * class_map) * np.sqrt(varphi.T)
 
     return _assemble(
         class_map0,
-- 
2.43.0


From 99a40a410d7c2450dcbff2a341672418e6e3f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 03/14] fix: import scipy where the cocycle repair of complex
 projective coordinates uses it

---
 dreimac/complexprojectivecoords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 5a30a78..577683b 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy
 from numba import jit
 import scipy.sparse as sparse
 from scipy.sparse.linalg import lsqr
-- 
2.43.0


From 798753023d4c7636e1284caf4cbe38ff0256fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 04/14] fix: repairing a second toroidal class no longer asks
 for the truth value of a sparse array

---
 dreimac/toroidalcoords.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 77e7438..da27edb 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -136,9 +136,10 @@ class ToroidalCoords(EMCoords):
                 if is_cocycle:
                     fixed_cocycles.append(cocycle_as_vector)
                 else:
-                    delta1 = delta1 or CohomologyUtils.make_delta1_compact(
-                        dist_land_land, rips_threshold, self._cns_lookup_table
-                    )
+                    if delta1 is None:
+                        delta1 = CohomologyUtils.make_delta1_compact(
+                            dist_land_land, rips_threshold, self._cns_lookup_table
+                        )
 
                     d1cocycle = delta1 @ cocycle_as_vector.T
 
-- 
2.43.0


From 73d5bef7999187c938741bad128553b9f3fe09e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 05/14] fix: Gram-Schmidt projects onto the orthogonalised
 vectors

Projecting onto the original columns is only orthogonal for two vectors, so
lattice reduction of three or more classes was not LLL-reduced.
---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index da27edb..a0d92d9 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -391,7 +391,7 @@ def _gram_schmidt(B):
     for i in range(1, n):
         Ai = B[:, i]
         for j in range(0, i):
-            Aj = B[:, j]
+            Aj = A[:, j]
             # t = np.dot(B[i],B[j])
             Ai = Ai - proj(Aj, Ai)
         A[:, i] = Ai
-- 
2.43.0


From 60deba6769d1c3d7cddb9c1e77235df40810164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 06/14] fix: reported Gram matrix is the one of the reduced
 basis, whose vectors are columns

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index a0d92d9..f62eaa1 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -215,7 +215,7 @@ class ToroidalCoords(EMCoords):
             ) = _reduce_circular_coordinates(circ_coords, gram_mat)
 
             self._original_gram_matrix = gram_mat
-            self._gram_matrix = decorrelated_vectors @ decorrelated_vectors.T
+            self._gram_matrix = decorrelated_vectors.T @ decorrelated_vectors
             self._change_basis = change_basis
 
         return circ_coords
-- 
2.43.0


From 0c5241c5c896b8ea7366f11eda9b316692df94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 07/14] fix: moving_dot honours its patch dimension

---
 dreimac/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index f89a935..1de6b5f 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -874,7 +874,6 @@ class GeometryExamples:
             kernel = np.outer(gauss_x, gauss_y)
             return kernel
 
-        dim = 10
         P = np.zeros((sqrt_num_images**2, dim * dim))
         bound = 15
         xs = bound * np.power(np.linspace(-1, 1, sqrt_num_images), 3)
-- 
2.43.0


From 65f9c1497e8350d6ff4808b975524b07be3e9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 08/14] fix: Moore space distance matrix is symmetric

Only paths through the boundary point nearest to the first endpoint were
considered, so d(x, y) and d(y, x) differed.
---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 1de6b5f..ac9b01c 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1226,6 +1226,8 @@ class GeometryExamples:
                     )
 
         _fill_dist_mat(X, dist_mat, R, prime)
+        # a path may leave the disk through the boundary near either endpoint
+        dist_mat = np.minimum(dist_mat, dist_mat.T)
         return dist_mat, X
 
 
-- 
2.43.0


From 82add96966fb46d283ee2581c9db35d945ad2b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 09/14] fix: lens disk chart finds the right sector when the
 quotient rounds below an integer

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index ac9b01c..cb4b33f 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1603,7 +1603,7 @@ class LensMapUtils:
             arg_z = np.mod(np.angle(p1), 2 * np.pi)
             theta = np.mod(arg_z, 2 * np.pi / q)
 
-            k = np.floor((arg_z - theta) / (2 * np.pi / q))
+            k = np.round((arg_z - theta) / (2 * np.pi / q))
 
             phi = np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q
 
-- 
2.43.0


From 120287b68f94d80187abfe8937d7c4bf65715c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 10/14] fix: circle_to_3dnorthpole leaves the caller's point
 alone

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index cb4b33f..62923cf 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1454,7 +1454,7 @@ class ProjectiveMapUtils:
         """
         magSqr = np.sum(x**2)
         if magSqr > 1:
-            x /= np.sqrt(magSqr)
+            x = x / np.sqrt(magSqr)
             magSqr = 1
         u = np.zeros(3)
         u[0:2] = x
-- 
2.43.0


From 29b3948637b74eac181be5e0b77b9f6ae33cb266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 11/14] fix: rotmat rotates a vector onto its opposite instead
 of returning the identity

---
 dreimac/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 62923cf..f2f221f 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1554,7 +1554,12 @@ class ProjectiveMapUtils:
         c = a - np.sum(b * a) * b
         # If a numerically coincides with b, don't rotate at all
         if np.sqrt(np.sum(c**2)) < 1e-15:
-            return np.eye(d)
+            if np.sum(b * a) > 0:
+                return np.eye(d)
+            # If a is opposite to b, rotate half a turn in any plane containing b
+            c = np.zeros(d)
+            c[np.argmin(np.abs(b))] = 1
+            c = c - np.sum(b * c) * b
 
         # Otherwise, compute rotation matrix
         c = c / np.sqrt(np.sum(c**2))
-- 
2.43.0


From 9f7a492f192f220d2c7307e6bdc1bed2ee15975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 12/14] fix: rotmat is defined and orthogonal for vectors that
 are almost parallel or opposite

1 - lam**2 rounds below zero for such vectors, which filled the matrix with NaN.
---
 dreimac/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index f2f221f..bbfefa8 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1563,8 +1563,11 @@ class ProjectiveMapUtils:
 
         # Otherwise, compute rotation matrix
         c = c / np.sqrt(np.sum(c**2))
+        # c is inaccurate when a is almost a multiple of b, so orthogonalise again
+        c = c - np.sum(b * c) * b
+        c = c / np.sqrt(np.sum(c**2))
         lam = np.sum(b * a)
-        beta = np.sqrt(1 - np.abs(lam) ** 2)
+        beta = np.sum(c * a)
         rot = (
             np.eye(d)
             - (1 - lam) * (c[:, None].dot(c[None, :]))
-- 
2.43.0


From 04e2a9d733c4df3c418fa904815a2b50f7009565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 13/14] fix: a point outside of the cover no longer spoils the
 projective coordinates of the others

Its NaN class map made the whole covariance matrix NaN.
---
 dreimac/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index bbfefa8..3f8cec7 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -743,7 +743,9 @@ class EquivariantPCA:
 
         def _one_step_linear_reduction(X, dims_to_keep):
             try:
-                _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                # points outside of the cover have undefined (NaN) coordinates
+                XC = X[:, ~np.isnan(X).any(axis=0)]
+                _, U = np.linalg.eigh(XC.dot(np.conjugate(XC).T))
                 U = np.fliplr(U)
             except:
                 U = np.eye(X.shape[0])
@@ -776,7 +778,9 @@ class EquivariantPCA:
                 if i == n_dim - proj_dim - 1:
                     XRet = X
                 try:
-                    _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                    # points outside of the cover have undefined (NaN) coordinates
+                    XC = X[:, ~np.isnan(X).any(axis=0)]
+                    _, U = np.linalg.eigh(XC.dot(np.conjugate(XC).T))
                     U = np.fliplr(U)
                     # U, _, _ = np.linalg.svd(X)
                 except:
-- 
2.43.0


From 81ec2b87c11f521ce8bd507e9fada21230eed98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 14/14] fix: integer landmark distances no longer truncate the
 partition of unity

---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index ea480a7..25c37d8 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -171,7 +171,7 @@ class EMCoords(object):
         """
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
-        phi = np.zeros_like(dist_land_data)
+        phi = np.zeros(dist_land_data.shape)
         phi[U] = partunity_fn(dist_land_data[U], r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
-- 
2.43.0

