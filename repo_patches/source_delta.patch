From ec8616e8bfb99936b858c15fc40b47b563d2072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:36 +0000
Subject: [PATCH 01/18] fix: keep integer hopping indices when all
 modifications override existing terms

---
 tbplas/builder/super.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 24b0958..074d787 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -801,10 +801,10 @@ class SuperCell(OrbitalSet):
                     dr_new.append(dr_i)
 
             # Append additional hopping terms
-            hop_i = np.append(hop_i, hop_i_new)
-            hop_j = np.append(hop_j, hop_j_new)
-            hop_v = np.append(hop_v, hop_v_new)
             if len(dr_new) != 0:
+                hop_i = np.append(hop_i, hop_i_new)
+                hop_j = np.append(hop_j, hop_j_new)
+                hop_v = np.append(hop_v, hop_v_new)
                 dr = np.vstack((dr, dr_new))
         return hop_i, hop_j, hop_v, dr
 
-- 
2.43.0


From f33568c689f7a82ad1e36993ff33b166bdfd1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:12 +0000
Subject: [PATCH 02/18] fix: use the documented symmetric gauge in
 set_mag_field

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index c48e522..90e3d0c 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -68,7 +68,7 @@ def set_mag_field(long [::1] hop_i, long [::1] hop_j,
             dx, dy = dr[ih, 0], dr[ih, 1]
             sx = orb_pos[jj, 0] + orb_pos[ii, 0]
             sy = orb_pos[jj, 1] + orb_pos[ii, 1]
-            phase = factor * 0.5 * intensity * (dx * sx - dy * sy)
+            phase = factor * 0.5 * intensity * (dx * sy - dy * sx)
             hop_v[ih] = hop_v[ih] * (cos(phase) + 1j * sin(phase))
 
 
-- 
2.43.0


From 77a1b93e67e00a0d3ad55e65f2aefefe0b46a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:12 +0000
Subject: [PATCH 03/18] fix: use absolute on-site energies for the spectral
 bound in get_rescale

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index 90e3d0c..dfa7fc2 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -104,7 +104,7 @@ def get_rescale(double [::1] orb_eng, long [::1] hop_i, long [::1] hop_j,
 
     ham_sum = np.zeros(num_orb_sc, dtype=np.float64)
     for io in range(num_orb_sc):
-        ham_sum[io] = orb_eng[io]
+        ham_sum[io] = abs(orb_eng[io])
     for ih in range(num_hop_sc):
         ii, jj = hop_i[ih], hop_j[ih]
         hop_abs = sqrt(hop_v[ih].real**2 + hop_v[ih].imag**2)
-- 
2.43.0


From 3aaafa764d86465c9cecf4886db12c32ba9fe246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:12 +0000
Subject: [PATCH 04/18] fix: account for the current scaling factor in
 Sample.rescale_ham

---
 tbplas/builder/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index b164df4..652f066 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -292,8 +292,9 @@ class Sample(Observable):
         self.init_orb_eng()
         self.init_hop()
         if factor is None:
-            factor = core.get_rescale(self.orb_eng, self.hop_i, self.hop_j,
-                                      self.hop_v)
+            # The arrays may have already been rescaled.
+            factor = self._rescale * core.get_rescale(self.orb_eng, self.hop_i,
+                                                      self.hop_j, self.hop_v)
         self.orb_eng *= (self._rescale / factor)
         self.hop_v *= (self._rescale / factor)
         self._rescale = factor
-- 
2.43.0


From 5d15d830dccf22456fe50a9d177af800f73f59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 05/18] fix: check all indices before removing orbitals from a
 primitive cell

An out-of-range index raised after other orbitals had already been popped,
and a negative index removed an orbital without its hopping terms.
---
 tbplas/builder/primitive.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 207d0a8..f70f227 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -348,13 +348,14 @@ class PrimitiveCell(Observable):
         # Check arguments
         self.check_lock()
 
-        # Delete the orbitals
         indices = sorted(set(indices))
+        for orb_i in indices:
+            if not (0 <= orb_i < self.num_orb):
+                raise exc.PCOrbIndexError(orb_i)
+
+        # Delete the orbitals
         for i, orb_i in enumerate(indices):
-            try:
-                self._orbital_list.pop(orb_i - i)
-            except IndexError as err:
-                raise exc.PCOrbIndexError(orb_i) from err
+            self._orbital_list.pop(orb_i - i)
 
         # Delete associated hopping terms
         self._hopping_dict.remove_orbitals(indices)
-- 
2.43.0


From 2d887bb8b34bdb99cf0571005c6dc15dfa07eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 06/18] fix: do not miss edits with colliding hashes in
 PrimitiveCell arrays

hash(-1.0) == hash(-2.0): changing an energy from -1 to -2 left orb_eng
and hop_eng unchanged.
---
 tbplas/builder/primitive.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index f70f227..bb784b3 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -67,7 +67,7 @@ class PrimitiveCell(Observable):
         container of hopping terms in the primitive cell
         Only half of the hopping terms are stored. Conjugate terms are added
         automatically when constructing the Hamiltonian.
-    _hash_dict: Dict[str, int]
+    _hash_dict: Dict[str, tuple]
         hashes of attributes to be used by 'sync_*' methods to update the arrays
     _orb_pos: (num_orb, 3) float64 array
         FRACTIONAL positions of all orbitals
@@ -136,18 +136,21 @@ class PrimitiveCell(Observable):
               self._hopping_dict, self.extended)
         return hash(fp)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def _get_attr_hash(self, attr: str) -> tuple:
         """
-        Get the hash of given attribute.
+        Get the fingerprint of given attribute.
+
+        NOTE: the actual content is used as fingerprint since hash values
+        collide, e.g. hash(-1.0) == hash(-2.0).
 
         :param attr: name of the attribute
-        :return: hash of the attribute
+        :return: fingerprint of the attribute
         :raises ValueError: if attr is illegal
         """
         if attr == "orb":
-            new_hash = hash(tuple(self._orbital_list))
+            new_hash = tuple(self._orbital_list)
         elif attr == "hop":
-            new_hash = hash(self._hopping_dict)
+            new_hash = tuple(self._hopping_dict.to_list())
         else:
             raise ValueError(f"Illegal attribute name {attr}")
         return new_hash
-- 
2.43.0


From 9024d761904baf4319e390827e2d6a3421c7d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 07/18] fix: check all terms of a HopDict before adding any of
 them

---
 tbplas/builder/primitive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index bb784b3..a94d9a7 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -398,12 +398,16 @@ class PrimitiveCell(Observable):
         """
         self.check_lock()
         hop_dict.to_spare()
+        hop_list = []
         for rn, hop_mat in hop_dict.hoppings.items():
             for i in range(hop_mat.nnz):
                 orb_i = hop_mat.row.item(i)
                 orb_j = hop_mat.col.item(i)
                 hop_eng = hop_mat.data.item(i)
-                self.add_hopping(rn, orb_i, orb_j, hop_eng)
+                self._check_hop_index(rn, orb_i, orb_j)
+                hop_list.append((rn, orb_i, orb_j, hop_eng))
+        for hop in hop_list:
+            self.add_hopping(*hop)
 
     def get_hopping(self, rn: rn_type,
                     orb_i: int,
-- 
2.43.0


From 0ae4a8b400b577d7da2012dff55f093b3a20840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 08/18] fix: keep the vacancies unchanged when new ones are
 rejected

An illegal index left the preceding ones added (add_vacancies) or all
existing ones deleted (set_vacancies). set_vacancies() failed on its
default argument.
---
 tbplas/builder/super.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 074d787..86b41bd 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -259,11 +259,10 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
+        vacancies = [tuple(vacancy) for vacancy in vacancies]
         for vacancy in vacancies:
-            if not isinstance(vacancy, tuple):
-                vacancy = tuple(vacancy)
             self._check_id_pc(vacancy)
-            self._vacancy_set.add(vacancy)
+        self._vacancy_set.update(vacancies)
 
     def set_vacancies(self, vacancies: Union[Iterable[id_pc_type], np.ndarray] = None) -> None:
         """
@@ -278,8 +277,12 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
-        self._vacancy_set = set()
-        self.add_vacancies(vacancies)
+        old_vacancies, self._vacancy_set = self._vacancy_set, set()
+        try:
+            self.add_vacancies(() if vacancies is None else vacancies)
+        except Exception:
+            self._vacancy_set = old_vacancies
+            raise
 
     def sync_array(self, force_sync: bool = False) -> None:
         """
-- 
2.43.0


From 477ce890fd85fa9aa333ba28bb1fabaaf058942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:31 +0000
Subject: [PATCH 09/18] fix: check for diagonal terms before storing a matrix
 in HopDict

The rejected matrix stayed in the dictionary. The check also failed on
matrices that are already sparse.
---
 tbplas/builder/base.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 9e5daee..6f4040c 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -539,14 +539,14 @@ class HopDict:
             raise ValueError(f"Shape of hopping matrix {hop_mat.shape} does not "
                              f"match {self._mat_shape}")
 
+        # Check for diagonal terms
+        if rn == (0, 0, 0):
+            self._check_diag(hop_mat)
+
         # Set hopping matrix
         # We copy the hopping matrix to avoid changing it accidentally.
         self._hoppings[rn] = hop_mat.copy()
 
-        # Check for diagonal terms
-        if rn == (0, 0, 0):
-            self._check_diag()
-
     def __getitem__(self, rn: rn_type) -> np.ndarray:
         """
         Get the hopping matrix according to cell index.
@@ -579,20 +579,19 @@ class HopDict:
             raise exc.CellIndexLenError(rn)
         return rn
 
-    def _check_diag(self) -> None:
+    @staticmethod
+    def _check_diag(hop_mat: Union[coo_matrix, np.ndarray]) -> None:
         """
         Check for diagonal hopping terms (on-site energies).
 
+        :param hop_mat: hopping matrix of the (0, 0, 0) cell
         :return: None
         :raises PCHopDiagonalError: if on-site energies are included in hopping
             matrix
         """
-        rn = (0, 0, 0)
-        if rn in self._hoppings.keys():
-            hop_mat = self._hoppings[rn]
-            for i, energy in enumerate(np.abs(np.diag(hop_mat))):
-                if energy >= 1e-5:
-                    raise exc.PCHopDiagonalError(rn, i)
+        for i, energy in enumerate(np.abs(hop_mat.diagonal())):
+            if energy >= 1e-5:
+                raise exc.PCHopDiagonalError((0, 0, 0), i)
 
     def to_spare(self) -> None:
         """
@@ -602,7 +601,8 @@ class HopDict:
         :raises PCHopDiagonalError: if on-site energies are included in hopping
             matrix
         """
-        self._check_diag()
+        if (0, 0, 0) in self._hoppings.keys():
+            self._check_diag(self._hoppings[(0, 0, 0)])
         new_hoppings = dict()
         for rn, hop_mat in self._hoppings.items():
             new_hoppings[rn] = coo_matrix(hop_mat)
-- 
2.43.0


From 58b671190bc181f0c3a14ab73a6f2ad029b28f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:31 +0000
Subject: [PATCH 10/18] fix: respect the lock when removing terms from
 InterHopping

---
 tbplas/builder/base.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 6f4040c..f70f043 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -488,6 +488,44 @@ class InterHopping(Observable, IntraHopping):
         self.check_lock()
         super().add_hopping(rn, orb_i, orb_j, energy)
 
+    def remove_hopping(self, rn: rn_type,
+                       orb_i: int,
+                       orb_j: int) -> bool:
+        """
+        Remove an existing hopping term.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :param orb_i: orbital index or bra
+        :param orb_j: orbital index of ket
+        :return: whether the hopping term is removed
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_hopping(rn, orb_i, orb_j)
+
+    def remove_orbitals(self, indices: Union[Iterable[int], np.ndarray]) -> None:
+        """
+        Remove given orbitals and associated hopping terms, then update
+        remaining hopping terms.
+
+        :param indices: indices of orbitals to remove
+        :return: None
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        super().remove_orbitals(indices)
+
+    def remove_rn(self, rn: rn_type) -> bool:
+        """
+        Remove all the hopping terms of given cell index.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :return: whether the hopping terms are removed
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_rn(rn)
+
 
 class HopDict:
     """
-- 
2.43.0


From c0ea3c28e0080e6039c44b0d84ad096e71cb7332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:08 +0000
Subject: [PATCH 11/18] fix: sum dyn_pol over processes once, after all
 q-points

calc_dyn_pol_regular and calc_dyn_pol_arbitrary called all_reduce on the
whole dyn_pol array within the loop over q-points, so the rows of earlier
q-points were multiplied by the number of processes for every later one.
---
 tbplas/diagonal/lindhard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 9fe8e13..4b4b3a1 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -409,7 +409,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
@@ -498,7 +498,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
-- 
2.43.0


From a43b17c5865f621ce44d04b234b08e506b355736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:08 +0000
Subject: [PATCH 12/18] fix: allow more processes than tasks in
 MPIEnv.dist_bound

min() and max() of the empty range raised ValueError.
---
 tbplas/parallel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tbplas/parallel.py b/tbplas/parallel.py
index c5dac5e..6ac9fee 100644
--- a/tbplas/parallel.py
+++ b/tbplas/parallel.py
@@ -110,13 +110,14 @@ class MPIEnv:
     def dist_bound(self, n_max: int) -> Tuple[int, int]:
         """
         Same as dist_range, but returns the lower and upper bounds.
-        Both of the bounds are close, i.e. [i_min, i_max].
+        Both of the bounds are close, i.e. [i_min, i_max]. If there are more
+        processes than tasks, i_max == i_min - 1 on the processes without tasks.
 
         :param n_max: upper bound of range
         :return: lower and upper bounds of subrange assigned to this process
         """
         i_index = self.dist_range(n_max)
-        i_min, i_max = min(i_index), max(i_index)
+        i_min, i_max = i_index.start, i_index.stop - 1
         return i_min, i_max
 
     def reduce(self, data_local: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 3e5b7933394ac9cd088a8a30564e377c4c466918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:17 +0000
Subject: [PATCH 13/18] fix: accept sequences of coordinates in frac2cart

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index e91babb..c09ff17 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -116,7 +116,7 @@ def frac2cart(lattice_vectors: np.ndarray,
     if not isinstance(lattice_vectors, np.ndarray):
         lattice_vectors = np.array(lattice_vectors)
     if not isinstance(fractional_coordinates, np.ndarray):
-        fractional_coordinates = np.ndarray(fractional_coordinates)
+        fractional_coordinates = np.array(fractional_coordinates)
     cartesian_coordinates = np.zeros(fractional_coordinates.shape)
     conversion_matrix = lattice_vectors.T
     for i, row in enumerate(fractional_coordinates):
-- 
2.43.0


From 4551c2f4436c24ecc3d90e3351fe4ebb7b396627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:17 +0000
Subject: [PATCH 14/18] fix: do not truncate rotated integer coordinates in
 rotate_coord

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index c09ff17..b2369c9 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -172,7 +172,7 @@ def rotate_coord(coord: np.ndarray,
     rot_mat = cos_ang * np.eye(3) + sin_ang * u_prod + (1 - cos_ang) * u_tens
 
     # Rotate coordinates
-    coord_rot = np.zeros(shape=coord.shape, dtype=coord.dtype)
+    coord_rot = np.zeros(coord.shape)
     for i in range(coord.shape[0]):
         coord_rot[i] = np.matmul(rot_mat, coord[i] - center) + center
     return coord_rot
-- 
2.43.0


From a5f591e48d7734344ec5134d8e1e8b5d8e669859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:42 +0000
Subject: [PATCH 15/18] fix: accept sequences of q-points in
 Lindhard.calc_epsilon

---
 tbplas/diagonal/lindhard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 4b4b3a1..76c5e95 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -539,7 +539,7 @@ class Lindhard(DiagSolver):
             relative dielectric function
         """
         if not isinstance(q_points, np.ndarray):
-            q_points = np.ndarray(q_points, dtype=np.float64)
+            q_points = np.array(q_points, dtype=np.float64)
         num_qpt = q_points.shape[0]
         num_omega = self._omegas.shape[0]
         epsilon = np.zeros((num_qpt, num_omega), dtype=np.complex128)
-- 
2.43.0


From 36f5dc65d18eff6bbc3a856e3db71faa34d38c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:33 +0000
Subject: [PATCH 16/18] fix: include the first time step in the AC correlation
 function

---
 tbplas/fortran/tbpm.f90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tbplas/fortran/tbpm.f90 b/tbplas/fortran/tbpm.f90
index e49df30..9a91892 100644
--- a/tbplas/fortran/tbpm.f90
+++ b/tbplas/fortran/tbpm.f90
@@ -301,6 +301,12 @@ SUBROUTINE tbpm_accond(Bes, n_Bes, beta, mu, s_indptr, n_indptr, &
             REAL(corrval(4)), AIMAG(corrval(4))
 #endif
 
+        ! update correlation functions
+        corr(1, 1) = corr(1, 1) + corrval(1) / n_ran_samples
+        corr(2, 1) = corr(2, 1) + corrval(2) / n_ran_samples
+        corr(3, 1) = corr(3, 1) + corrval(3) / n_ran_samples
+        corr(4, 1) = corr(4, 1) + corrval(4) / n_ran_samples
+
         ! iterate over time
         ! Norm check is performed for psi2. It can also be done for psi1_x
         ! and psi1_y.
-- 
2.43.0


From 5044f71cb6b61cb5e8c80205f0b0c431f774c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:52 +0000
Subject: [PATCH 17/18] fix: search all corners of the reshaped cell for
 orbitals in reshape_prim_cell

---
 tbplas/builder/advanced.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index c3a1c55..735cd15 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -1,6 +1,6 @@
 """Functions and classes for advanced modeling."""
 
-from math import floor, ceil, sqrt
+from math import floor, sqrt
 from typing import Union, List, Tuple, Dict
 from collections import namedtuple, defaultdict
 from copy import deepcopy
@@ -181,24 +181,24 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
     res_cell.extended = prim_cell.extended * (vol_res / vol_prim)
 
     # Determine searching range
-    # sum_vec is actually a0+a1, a1+a2 or a2+a0 depending on j, i.e., the
-    # diagonal vector. If it is not taken into consideration, orbitals and
-    # hopping terms in the top right corner of reshaped cell may be missing.
+    # An orbital belongs to the reshaped cell if its fractional coordinate x
+    # with respect to the new lattice vectors falls within [-delta, 1-delta).
+    # All the corners of the reshaped cell, as well as the offsets of orbitals
+    # with respect to the cells, should be taken into consideration. Otherwise,
+    # some orbitals and hopping terms may be missing.
+    orb_pos = prim_cell.orb_pos
+    edges = np.array([-delta * lat_frac, (1.0 - delta) * lat_frac])
+    rn_min = edges.min(axis=0).sum(axis=0) - orb_pos.max(axis=0, initial=0.0)
+    rn_max = edges.max(axis=0).sum(axis=0) - orb_pos.min(axis=0, initial=0.0)
     rn_range = np.zeros((3, 2), dtype=np.int32)
-    for i in range(3):
-        sum_vec = lat_frac.sum(axis=0) - lat_frac[i]
-        for j in range(3):
-            rn_range[j, 0] = min(rn_range[j, 0], floor(sum_vec[j]))
-            rn_range[j, 1] = max(rn_range[j, 1], ceil(sum_vec[j]))
-    rn_range[:, 0] -= 1
-    rn_range[:, 1] += 1
+    rn_range[:, 0] = np.floor(rn_min) - 1
+    rn_range[:, 1] = np.ceil(rn_max) + 1
 
     # Function for getting cell index from fractional coordinates
     def _get_cell_index(x):
         return floor(x.item(0)), floor(x.item(1)), floor(x.item(2))
 
     # Add orbitals
-    orb_pos = prim_cell.orb_pos
     orb_map = OrbitalMap()
     for i_a in range(rn_range.item(0, 0), rn_range.item(0, 1)+1):
         for i_b in range(rn_range.item(1, 0), rn_range.item(1, 1)+1):
-- 
2.43.0


From 2bcca067b365ddfbaa826b96af8e0c77c330eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:52 +0000
Subject: [PATCH 18/18] fix: detect smaller extended factors in merge_prim_cell

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index 735cd15..819ab01 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -363,7 +363,7 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
     # Determine the 'extended' attribute
     extended = pc_list[0].extended
     for pc in pc_list:
-        if (pc.extended - extended) >= 1.e-3:
+        if abs(pc.extended - extended) >= 1.e-3:
             print(f"INFO: resetting extend to 1.0")
             extended = 1.0
             break
-- 
2.43.0

