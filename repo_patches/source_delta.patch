From d3ade8e59dde6b3f08732b25e828e9af24e4d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 01/15] fix: use a symmetric square root of the intertwiner for
 real-type physically irreducible representations

---
 src/spgrep/irreps.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 1aae7d9..5584c67 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -596,21 +596,16 @@ def get_physically_irrep(
             irrep, conj_irrep, atol=atol, max_num_random_generations=max_num_random_generations
         )
 
-        # Take real or imaginary part of eigenvectors for new basis vectors
-        eigvals, eigvecs = np.linalg.eig(U)  # eigvecs[:, i] is the i-th eigenvector
-        real_eigvecs = []
-        for eigvec in np.transpose(eigvecs):
-            if not np.allclose(np.real(eigvec), 0, atol=atol):
-                real_eigvec = np.real(eigvec)
-            else:
-                real_eigvec = np.imag(eigvec)
-            real_eigvecs.append(real_eigvec / np.linalg.norm(real_eigvec))
-        S = np.transpose(real_eigvecs)
+        # U is symmetric and unitary, so its real and imaginary parts are commuting real symmetric matrices.
+        # Real orthogonal matrix S diagonalizes both of them simultaneously, S.T @ U @ S = diag(eigvals).
+        # The weights are chosen to be generic to separate different eigenvalues of U.
+        _, S = np.linalg.eigh(np.cos(1.0) * np.real(U) + np.sin(1.0) * np.imag(U))
+        eigvals = np.einsum("ji,jk,ki->i", S, U, S)
 
-        # Square root of intertwiner
-        T = S.T @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S
+        # Square root of intertwiner, U = T @ T and np.conj(T) = T^-1
+        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T
 
-        real_irrep = np.real(np.einsum("il,klm,mj->kij", T, irrep, np.conj(T), optimize="greedy"))
+        real_irrep = np.real(np.einsum("il,klm,mj->kij", np.conj(T), irrep, T, optimize="greedy"))
 
     elif indicator in [-1, 0]:
         real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)
-- 
2.43.0


From 03d3ffcafb66a373dd96176ca5a60c22a0a1d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 02/15] fix: Frobenius-Schur indicator of small representations
 is zero unless 2k is a reciprocal lattice vector

---
 src/spgrep/irreps.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 5584c67..2add359 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -95,8 +95,16 @@ def enumerate_small_representations(
         )
         irreps.append(rep * phases[:, None, None])
 
+    # Summation over translations in Frobenius-Schur indicator becomes zero unless `2*kpoint equiv 0`
+    two_kpoint = 2 * kpoint
+    two_kpoint = two_kpoint - np.rint(two_kpoint)
+    is_real_kpoint = np.allclose(two_kpoint, 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        if is_real_kpoint:
+            indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        else:
+            indicators = [0 for _ in irreps]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -124,12 +132,7 @@ def enumerate_small_representations(
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
 
-        indicator = frobenius_schur_indicator(irrep)
-        # summation over translations becomes zero unless `2*kpoint equiv 0`
-        two_kpoint = 2 * kpoint
-        two_kpoint -= np.rint(two_kpoint)
-        if not np.allclose(two_kpoint, 0):
-            indicator = 0
+        indicator = frobenius_schur_indicator(irrep) if is_real_kpoint else 0
 
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
-- 
2.43.0


From c81b34b2a5b9cd2a654313597a49fd4573d44b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 03/15] fix: detect type-I magnetic space group by absence of
 time-reversal operations

---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 67e82ff..3bcc92a 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -224,7 +224,7 @@ def decompose_by_maximal_space_subgroup(
     a0_idx: int
         Index of :math:`a_{0}` in given list of symmetries
     """
-    if np.all(time_reversals == 1):
+    if np.all(time_reversals == 0):
         # Type-I MSG
         return None
 
-- 
2.43.0


From 1feed00d323fedfe489b00a91ba41fe24e729572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 04/15] fix: check columns of multiplication table in
 is_matrix_group

---
 src/spgrep/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 3bcc92a..38f86e1 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -89,10 +89,10 @@ def is_matrix_group(rotations: NDArrayInt) -> bool:
     except ValueError:
         return False
 
-    # Check if each element appears only once in a row
+    # Check if each element appears only once in a row and a column
     order = rotations.shape[0]
     for i in range(order):
-        if set(table[i]) != set(range(order)):
+        if set(table[i]) != set(range(order)) or set(table[:, i]) != set(range(order)):
             return False
 
     return True
-- 
2.43.0


From af6dc153f4b518a012da52c08d1441d29d8d4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 05/15] fix: map symmetry operations to indices of unique
 operations even if duplicates are interleaved

---
 src/spgrep/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index c31dcae..4e917b1 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -84,7 +84,7 @@ def unique_primitive_symmetry(
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = i
+            mapping_to_primitive_symmetry[i] = len(rotations_int)
             rotations_int.append(rotation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
-- 
2.43.0


From aa18495533eb65185835e2433feb0366ce78f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 06/15] fix: complex-conjugate unitary part when extending
 co-representations to anti-linear operations

---
 src/spgrep/corep.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index b0fbafc..919d62d 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -184,21 +184,23 @@ def enumerate_spinor_small_corepresentations(
     for indicator, irrep, conj_irrep in conj_pairs:
         dim = irrep.shape[1]
         if indicator == 1:
-            # Unitary matrix s.t. irrep @ U = conj_irrep @ U
+            # Unitary matrix s.t. irrep @ U = U @ conj_irrep
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
-                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ irrep
+                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
+                * U[None, :, :]
+                @ np.conj(irrep)
             )
         elif indicator == -1:
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
-            #   [0, conj_irrep]]
+            #   [0, irrep]]
             corep[xsg_indices, :dim, :dim] = irrep
-            corep[xsg_indices, dim:, dim:] = conj_irrep
+            corep[xsg_indices, dim:, dim:] = irrep
 
             # [ [0, -U],
             #   [U, 0] ]
@@ -209,7 +211,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         elif indicator == 0:
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
@@ -230,7 +232,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         else:
             raise ValueError("Unreachable!")
-- 
2.43.0


From 39dade385583189b07a23038ee567f437129dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 07/15] fix: time-reversal operations flip k in little groups
 and factor systems of co-representations

---
 src/spgrep/core.py  |  2 +-
 src/spgrep/corep.py |  1 +
 src/spgrep/group.py | 13 +++++++++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 112a1a8..4166115 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -543,7 +543,7 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
             raise ValueError("Specify symmetry operations in primitive cell!")
 
     little_rotations, little_translations, mapping_little_group = get_little_group(
-        rotations, translations, kpoint, atol=atol
+        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals
     )
 
     if time_reversals is None:
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 919d62d..6eab9ab 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -108,6 +108,7 @@ def enumerate_spinor_small_corepresentations(
         little_rotations,
         little_translations,
         kpoint,
+        little_time_reversals,
     )
     factor_system = corep_spinor_factor_system * nonsymmorphic_factor_system
 
diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 38f86e1..8231606 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -102,6 +102,7 @@ def get_factor_system_from_little_group(
     little_rotations: NDArrayInt,
     little_translations: NDArrayFloat,
     kpoint: NDArrayFloat,
+    little_time_reversals: NDArrayInt | None = None,
 ) -> NDArrayComplex:
     r"""Calculate factor system of projective representation of little co-group.
 
@@ -110,6 +111,7 @@ def get_factor_system_from_little_group(
        = \exp \left( -i \mathbf{g}_{i} \cdot \mathbf{w}_{j} \right) D^{\mathbf{k}}_{p}(S_{k})
 
     where :math:`S_{i}S_{j} = S_{k}` and :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} - \mathbf{k}`.
+    For anti-linear operation :math:`S_{i}1'`, :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} + \mathbf{k}`.
 
     Parameters
     ----------
@@ -118,6 +120,8 @@ def get_factor_system_from_little_group(
     little_translations: array, (order, 3)
         Translation parts of coset of little group stabilizing ``kpoint``.
     kpoint: array, (3, )
+    little_time_reversals: (Optional) array[int], (order, )
+        Time-reversal parts of coset of little group stabilizing ``kpoint``.
 
     Returns
     -------
@@ -130,6 +134,8 @@ def get_factor_system_from_little_group(
     for i, rotation in enumerate(little_rotations):
         # Never take modulus!
         residuals[i] = rotation.T @ kpoint - kpoint
+        if little_time_reversals is not None and little_time_reversals[i]:
+            residuals[i] = rotation.T @ kpoint + kpoint
 
     factor_system = np.zeros((n, n), dtype=np.complex_)
     for i, residual in enumerate(residuals):
@@ -144,6 +150,7 @@ def get_little_group(
     translations: NDArrayFloat,
     kpoint: NDArrayFloat,
     atol: float = 1e-8,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, NDArrayInt]:
     """Return coset of little group of given space group which stabilize kpoint under rotations.
 
@@ -152,6 +159,10 @@ def get_little_group(
     rotations: array, (order, 3, 3)
     translations: array, (order, 3)
     kpoint: array, (3, )
+    atol: float
+        Absolute tolerance to compare k-vectors
+    time_reversals: (Optional) array[int], (order, )
+        If specified, time-reversal operations additionally flip sign of ``kpoint``.
 
     Returns
     -------
@@ -167,6 +178,8 @@ def get_little_group(
 
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
         residual = rotation.T @ kpoint - kpoint
+        if time_reversals is not None and time_reversals[i]:
+            residual = rotation.T @ kpoint + kpoint
         residual = residual - np.rint(residual)
         if not np.allclose(residual, 0, atol=atol):
             continue
-- 
2.43.0


From b26d64350b5088b7a408943422ad1385d564fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 08/15] fix: accept anti-translations of type-IV magnetic space
 groups in primitive cell

---
 src/spgrep/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 4166115..0b82e21 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -536,7 +536,10 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
         kpoint = np.zeros(3)
 
     # Sanity check to use primitive cell
-    for rotation, translation in zip(rotations, translations):
+    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
+        if time_reversals is not None and time_reversals[i]:
+            # Anti-translation in type-IV MSG
+            continue
         if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
             translation, 0, atol=atol
         ):
-- 
2.43.0


From b1fda2d55d5bfbdb10df059092385b1fc2205d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 09/15] fix: take account of transformation from input cell to
 standardized cell

---
 src/spgrep/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 0b82e21..9762550 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -98,7 +98,10 @@ def get_spacegroup_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # (input cell) -> (standardized cell) -> (primitive cell)
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -379,7 +382,10 @@ def get_spacegroup_spinor_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # (input cell) -> (standardized cell) -> (primitive cell)
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
-- 
2.43.0


From 983cdf04bd56a0621d8dacc058e5eebd10adfa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 10/15] fix: keep time-reversal parts when reducing magnetic
 operations to primitive cell

---
 src/spgrep/core.py      |  9 ++++++---
 src/spgrep/transform.py | 17 +++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 9762550..ca2cca2 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -373,10 +373,12 @@ def get_spacegroup_spinor_irreps(
 
     if magmoms is None:
         dataset = get_symmetry_dataset(cell=(lattice, positions, numbers), symprec=symprec)
+        time_reversals = None
     else:
         dataset = get_magnetic_symmetry_dataset(
             cell=(lattice, positions, numbers, magmoms), symprec=symprec
         )
+        time_reversals = dataset["time_reversals"]
 
     rotations = dataset["rotations"]
     translations = dataset["translations"]
@@ -392,7 +394,7 @@ def get_spacegroup_spinor_irreps(
     prim_lattice = to_primitive.T @ lattice  # (AP)^T = P^T @ A^T
     # mapping_to_prim: [0..num_sym) -> [0..order)
     uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(
-        prim_rotations, prim_translations
+        prim_rotations, prim_translations, time_reversals
     )
 
     if magmoms is None:
@@ -413,8 +415,9 @@ def get_spacegroup_spinor_irreps(
             max_num_random_generations=max_num_random_generations,
         )
     else:
-        time_reversals = dataset["time_reversals"]
-        uniq_prim_time_reversals = time_reversals[mapping_to_prim]
+        # time_reversals[i] == uniq_prim_time_reversals[mapping_to_prim[i]]
+        uniq_prim_time_reversals = np.zeros(len(uniq_prim_rotations), dtype=int)
+        uniq_prim_time_reversals[mapping_to_prim] = time_reversals
         (
             prim_irreps,
             _,
diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index 4e917b1..e521c2a 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -53,7 +53,9 @@ def transform_symmetry_and_kpoint(
 
 
 def unique_primitive_symmetry(
-    rotations: NDArrayInt, translations: NDArrayFloat
+    rotations: NDArrayInt,
+    translations: NDArrayFloat,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, list[int]]:
     """Remove duplicated symmetry operations.
 
@@ -61,6 +63,8 @@ def unique_primitive_symmetry(
     ----------
     rotations: array, (num_sym, 3, 3)
     translations: array, (num_sym, 3)
+    time_reversals: (Optional) array[int], (num_sym, )
+        If specified, operations with different time-reversal parts are distinguished.
 
     Returns
     -------
@@ -69,23 +73,24 @@ def unique_primitive_symmetry(
     mapping_to_primitive_symmetry: array, (num_sym, )
         ``(rotations[i], translations[i])`` is transformed to ``(unique_rotations[j], unique_translations[j])`` where ``j = mapping_to_primitive_symmetry[i]``.
     """
-    rotations_int: list[tuple[tuple[int]]] = []
+    operations_int: list[tuple[tuple[tuple[int]], bool]] = []
 
     unique_rotations = []
     unique_translations = []
     mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        rotation_int = ndarray2d_to_integer_tuple(rotation)
+        is_time_reversal = time_reversals is not None and bool(time_reversals[i])
+        operation_int = (ndarray2d_to_integer_tuple(rotation), is_time_reversal)
         try:
-            j = rotations_int.index(rotation_int)
+            j = operations_int.index(operation_int)
             # Duplicated symmetry operation
             mapping_to_primitive_symmetry[i] = j
         except ValueError:
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = len(rotations_int)
-            rotations_int.append(rotation_int)
+            mapping_to_primitive_symmetry[i] = len(operations_int)
+            operations_int.append(operation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
 
-- 
2.43.0


From 7c0def6c1a973f6e4852553c2bcfb4dddecbee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 11/15] fix: return spinor factor system and SU(2) rotations
 for all operations of little group in centered cells

---
 src/spgrep/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index ca2cca2..43e5c83 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -446,6 +446,15 @@ def get_spacegroup_spinor_irreps(
         prim_irreps,
         mapping_prim_little_group,
     )
+    # conv_to_prim_little_group: [0..little_group_order) -> [0..prim_little_group_order)
+    remapping_prim_little_group = {idx: i for i, idx in enumerate(mapping_prim_little_group)}
+    conv_to_prim_little_group = [
+        remapping_prim_little_group[mapping_to_prim[i]] for i in mapping_little_group
+    ]
+    little_spinor_factor_system = little_spinor_factor_system[conv_to_prim_little_group][
+        :, conv_to_prim_little_group
+    ]
+    little_unitary_rotations = little_unitary_rotations[conv_to_prim_little_group]
 
     if magmoms is None:
         return (
@@ -461,7 +470,7 @@ def get_spacegroup_spinor_irreps(
             irreps,
             little_spinor_factor_system,
             little_unitary_rotations,
-            little_anti_linear,
+            little_anti_linear[conv_to_prim_little_group],
             rotations,
             translations,
             time_reversals,
-- 
2.43.0


From a65a928e5d5d8f192becb5a4f522af00c64d6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 12/15] fix: decompose representations that contain the same
 irrep more than once

---
 src/spgrep/irreps.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 2add359..92cd6c6 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -324,8 +324,11 @@ def decompose_representation(
     Returns
     -------
     irreps: list of unitary Irreps with (order, dim, dim)
+        Mutually inequivalent irreps contained in ``representation``
     """
+    order = representation.shape[0]
     dim0 = representation.shape[1]
+    character = get_character(representation)
 
     rng = np.random.default_rng(seed=0)
     for _ in range(max_num_random_generations):
@@ -345,7 +348,12 @@ def decompose_representation(
         # Decompose to subspaces corresponding to Irreps
         irreps = _get_irreps_from_matrix(representation, matrix, rtol=rtol)
 
-        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:
+        # The same irrep may appear several times in `representation`
+        multiplicities = [
+            np.around(np.real(np.sum(np.conj(get_character(irrep)) * character)) / order)
+            for irrep in irreps
+        ]
+        if np.sum([m * irrep.shape[1] for m, irrep in zip(multiplicities, irreps)]) == dim0:
             return irreps
 
     warn("Failed to search all irreps. Try increasing max_num_random_generations.")
-- 
2.43.0


From 863a4cbfba48b22af200ea926ed123232f701b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 13/15] fix: Frobenius-Schur indicator of projective irreps is
 defined only for real factor systems

---
 src/spgrep/irreps.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 92cd6c6..09bd69e 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -204,8 +204,15 @@ def enumerate_unitary_irreps(
     for irrep in irreps:
         irrep = purify_irrep_value(irrep, atol=atol)
 
+    # Complex conjugation of projective irreps belongs to `factor_system` only if it is real.
+    # Otherwise the Frobenius-Schur indicator depends on choice of phases and is meaningless.
+    is_real_factor_system = np.allclose(np.imag(factor_system), 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        if is_real_factor_system:
+            indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        else:
+            indicators = [0 for _ in irreps]
         return irreps, indicators
 
     # Physically irreducible representation
-- 
2.43.0


From e390b2724c2f42542513ff37c88e39b48087e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 14/15] fix: keep linearly independent symmetric tensors that
 are not orthogonal to the others

---
 src/spgrep/tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/tensor.py b/src/spgrep/tensor.py
index 845718a..1e30a1b 100644
--- a/src/spgrep/tensor.py
+++ b/src/spgrep/tensor.py
@@ -103,13 +103,14 @@ def apply_intrinsic_symmetry(
             continue
         sym_tensor /= np.linalg.norm(sym_tensor)
 
-        # Store if independent to other symmetric tensors
+        # Store if independent to other symmetric tensors.
+        # Independent tensors are not orthogonal in general: the distance is zero only for a dependent one.
         if (
             len(list_sym_basis) > 0
             and grassmann_distance(
                 sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)
             )
-            < 0.5
+            < 1e-3
         ):
             continue
 
-- 
2.43.0


From 74b70945c46f229ab570eef9f2631313abf08bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 15/15] fix: reject out-of-range Hall numbers in
 get_symmetry_from_hall_number

---
 src/spgrep/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spgrep/utils.py b/src/spgrep/utils.py
index 8fe16ca..8278116 100644
--- a/src/spgrep/utils.py
+++ b/src/spgrep/utils.py
@@ -40,6 +40,9 @@ def get_symmetry_from_hall_number(hall_number: int) -> tuple[NDArrayInt, NDArray
     rotations: (num_syms, 3, 3)
     translations: (num_syms, 3)
     """
+    if not 1 <= hall_number <= 530:
+        raise ValueError(f"Unknown Hall number: {hall_number}")
+
     symmetry = get_symmetry_from_database(hall_number)
     rotations = symmetry["rotations"]
     translations = symmetry["translations"]
-- 
2.43.0

