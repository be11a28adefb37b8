From d7df42595c0e6602b097064a30920607b8833157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 01/50] fix: equal PointGroupElements with sympy and float R
 have equal hashes

---
 qsymm/groups.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 34eafd1..9c33a3b 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -216,12 +216,13 @@ class PointGroupElement:
             return Rs < Ro
 
     def __hash__(self):
-        # U is not hashed, if R is floating point it is also not hashed
+        # U is not hashed. R is only hashed if it is an integer array: floating
+        # point and sympy representations of the same R compare equal.
         R, c, a = self.R, self.conjugate, self.antisymmetry
-        if isinstance(R, ta.ndarray_float):
-            return hash((c, a))
-        else:
+        if isinstance(R, ta.ndarray_int):
             return hash((R, c, a))
+        else:
+            return hash((c, a))
 
     def __mul__(self, g2):
         g1 = self
-- 
2.43.0


From 3d4e6f4aada6b5e5b09f4727d4335cf14da7abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 02/50] fix: ContinuousGroupGenerator rejects R that is not
 both Hermitian and antisymmetric

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 9c33a3b..24aaaa8 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -534,7 +534,7 @@ class ContinuousGroupGenerator:
 
     def __init__(self, R=None, U=None):
         # Make sure that R and U have correct properties
-        if R is not None and not _is_hermitian(R) and not _is_antisymmetric(R):
+        if R is not None and not (_is_hermitian(R) and _is_antisymmetric(R)):
             raise ValueError('R must be Hermitian antisymmetric')
         if U is not None and not _is_hermitian(U):
             raise ValueError('U must be Hermitian')
-- 
2.43.0


From 784c74c91684eaaf77e858042cc2fcfb18b77248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 03/50] fix: hexagonal with sympy_R uses the spin rotation that
 belongs to its C6

---
 qsymm/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 24aaaa8..77a8080 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -813,7 +813,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
     if spin is not None and sympy_R:
-        U6 = spin_rotation(np.pi / 3 * np.array([0, 0, 1]), spin)
+        # the exact C6 below rotates by -pi / 3
+        U6 = spin_rotation(-np.pi / 3 * np.array([0, 0, 1]), spin)
     else:
         U6 = None
     if dim == 2:
-- 
2.43.0


From cf6e4280c58eacd76ccffe74d3cddbc412eaa8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 04/50] fix: pretty_print_cgg works for generators without a
 conserved quantity

---
 qsymm/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 77a8080..616e575 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1055,6 +1055,8 @@ def pretty_print_cgg(g, latex=False):
             L_name = r'L = {} \\'.format(_array_to_latex(np.round(L, 3)))
         else:
             L_name = '\nL = {}'.format(str(np.round(L, 3)).replace('\n', '\n    '))
+    else:
+        L_name = ''
 
     if latex:
         if R is not None:
-- 
2.43.0


From 4b1f061e7d0f54989e80e6e4c1f92392d5f3d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:55 +0000
Subject: [PATCH 05/50] fix: rotation axis and angle for axes whose components
 sum to zero

---
 qsymm/groups.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 616e575..4f092c3 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1081,17 +1081,18 @@ def rotation_to_angle(R):
     # Convert 3D rotation matrix to axis and angle
     assert allclose(R, R.real)
     n = np.array([1j * np.trace(L @ R) for L in L_matrices()]).real
-    # Choose direction to minimize number of minus signs
-    absn = la.norm(n) * np.sign(np.sum(n))
+    absn = la.norm(n)
     if np.isclose(absn, 0):
         # n is zero for 2-fold rotation, find eigenvector with +1
         val, vec = la.eigh(R)
         assert np.isclose(val[-1], 1), R
         n = vec[:, -1]
-        # Choose direction to minimize number of minus signs
-        n /= np.sign(np.sum(n))
+        absn = 0
     else:
         n /= absn
+    # Choose direction to minimize number of minus signs
+    if np.sum(n) < 0 and not np.isclose(np.sum(n), 0):
+        n, absn = -n, -absn
     theta = np.arctan2(absn, np.trace(R).real - 1)
     return n, theta
 
-- 
2.43.0


From c5f55490308315250c74cf554a32ff40cee495c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:55 +0000
Subject: [PATCH 06/50] fix: symmetry_from_permutation maps each site to its
 image site

---
 qsymm/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 4f092c3..749ac54 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1289,7 +1289,8 @@ def symmetry_from_permutation(R, perm, norbs, onsite_action=None,
     for a in norbs.keys():
         if not norbs[a] == norbs[perm[a]]:
             raise ValueError('Symmetry related sites must have the same number or orbitals')
-        U[ranges[a], ranges[perm[a]]] = onsite_action[a]
+        # U takes the orbitals of site a to the image site perm[a]
+        U[ranges[perm[a]], ranges[a]] = onsite_action[a]
     g = PointGroupElement(R, antiunitary, antisymmetry, U)
     return g
 
-- 
2.43.0


From 76275cc4405e83ac5cb8c376020d5b1ad51c9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:55 +0000
Subject: [PATCH 07/50] fix: rref returns S for a zero matrix

---
 qsymm/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index f4a125e..650ffb1 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -509,7 +509,7 @@ def rref(m, rtol = 1e-3, return_S=False):
         to reduced row echelon form. Only returned if return_S = True.
 
     Note: If r is the reduced row echelon form of the input matrix m, then
-        m = S.dot(r).
+        r = S.dot(m).
     """
 
     red = np.array(m)
@@ -533,11 +533,12 @@ def rref(m, rtol = 1e-3, return_S=False):
         P[i, i] = coeff
         return P
 
+    S = np.eye(rows, dtype=complex)
+
     # Stop if m is identically zero
     if np.allclose(red, 0):
-        return red
+        return (red, S) if return_S else red
 
-    S = np.eye(rows, dtype=complex)
     tol = np.max(np.abs(m)) * rtol
 
     lead = 0
-- 
2.43.0


From 189030a79744a11a304f3437a56ee580c067d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:55 +0000
Subject: [PATCH 08/50] fix: _inv_int accepts unimodular matrices with rounding
 errors in the determinant

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 650ffb1..3509a81 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -618,6 +618,6 @@ def _inv_int(A):
     _A = ta.array(A, int)
     if A == np.empty((0, 0)):
         return A
-    if _A != A or abs(la.det(A)) != 1:
+    if _A != A or not np.isclose(abs(la.det(A)), 1):
         raise ValueError('Input needs to be an invertible integer matrix')
     return ta.array(np.round(la.inv(_A)), int)
-- 
2.43.0


From 9621984e495c773336ccc714d433d9f8c1a3195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 09/50] fix: continuum_variables has no terms of positive
 degree in zero dimensions

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5e01e13..2421a9e 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -222,7 +222,8 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
             all_powers[i] = range(power + 1)
 
     if dim == 0:
-        return [kwant_continuum.sympify(1)]
+        # without momenta there are only terms of degree zero
+        return [kwant_continuum.sympify(1)] if total_power == 0 else []
 
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
-- 
2.43.0


From 0a137f3eb41d11d82328bf72454c8a576d72006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 10/50] fix: constrain_family allows symmetries that map a term
 to new variables

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 2421a9e..95ad23b 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -420,7 +420,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
 
     # Get all variables and fix ordering
     all_variables = set()
-    for member in it.chain(*rotated_families):
+    for member in it.chain(family, *rotated_families):
         all_variables |= member.keys()
     all_variables = list(all_variables)
 
-- 
2.43.0


From f5f6437f0c6207520ac81c9c7f674eb45b57ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 11/50] fix: bloch_family does not change the symmetries it is
 called with

---
 qsymm/hamiltonian_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 95ad23b..09bb082 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -709,8 +709,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         family.extend(hopfamily)
     if symmetrize:
         # Make sure that group is generated while keeping track of unitary part.
-        for g in pg:
-            g._strict_eq = True
+        # Do not change the operators of the caller.
+        pg = [PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True) for g in pg]
         pg = generate_group(set(pg))
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
-- 
2.43.0


From ba2b6f23a775d04690a1ec69961f7c75fa608704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 12/50] fix: bloch_family and constrain_family accept an empty
 list of point group symmetries

---
 qsymm/hamiltonian_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 09bb082..c734520 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -397,11 +397,11 @@ def constrain_family(symmetries, family, sparse_linalg=False):
     family: iterable of Model or BlochModel objects, that represents the
         family with the symmetry constraints applied. """
 
-    if not family:
-        return family
     # Fix ordering
     family = list(family)
     symmetries = list(symmetries)
+    if not family or not symmetries:
+        return family
     # Check compatibility of family members and symmetries
     shape = family[0].shape
     momenta = family[0].momenta
@@ -707,7 +707,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         if conserved:
             hopfamily = constrain_family(conserved, hopfamily)
         family.extend(hopfamily)
-    if symmetrize:
+    if symmetrize and pg:
         # Make sure that group is generated while keeping track of unitary part.
         # Do not change the operators of the caller.
         pg = [PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True) for g in pg]
-- 
2.43.0


From 3724ef32eca41c64e1fbde18f4b4d790a8732d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 13/50] fix: toarray and tocsr convert sparse matrices and
 LinearOperators

---
 qsymm/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index fdb6b1d..82abd44 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -620,7 +620,7 @@ class Model(UserDict):
                 result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
             else:
                 # LinearOperator doesn't support multiplication with sparse matrix
-                val = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
+                result[key] = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
         return result
 
     def toarray(self):
@@ -632,10 +632,10 @@ class Model(UserDict):
                 result[key] = val
             elif isinstance(val, Number):
                 result[key] = np.asarray(val)
-            elif scipy.sparse.spmatrix:
-                result[key] = val.A
+            elif isinstance(val, scipy.sparse.spmatrix):
+                result[key] = val.toarray()
             else:
-                 val = val @ np.eye(val.shape[-1], dtype=complex)
+                result[key] = val @ np.eye(val.shape[-1], dtype=complex)
         return result
 
     def copy(self):
-- 
2.43.0


From 27a04548e4189cbd7ef5dcedbedf44d73cd4ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 14/50] fix: eliminate_zeros uses the Frobenius norm for sparse
 matrices

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 82abd44..b8624ed 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -718,6 +718,9 @@ class Model(UserDict):
             return result
         # Write it explicitely so it works with sparse arrays
         def norm(mat):
+            if isinstance(mat, scipy.sparse.spmatrix):
+                # `**` is the matrix power
+                return np.sqrt(np.sum(np.abs(mat).power(2)))
             return np.sqrt(np.sum(np.abs(mat)**2))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
-- 
2.43.0


From 3555d2bb51593528f8b6490a0fc5c9e3d90a8bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 15/50] fix: around works for sparse matrices

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index b8624ed..fd3082e 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -587,7 +587,7 @@ class Model(UserDict):
         result = self.zeros_like()
         for key, val in self.items():
             val = np.around(val, decimals)
-            if not np.allclose(val, 0):
+            if not allclose(val, 0):
                 result[key] = val
         return result
 
-- 
2.43.0


From 0a9b95590481b5dc5acb49d876931baf00fd4355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 16/50] fix: subs evaluates the exponential if it is the only
 factor of a key

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index fd3082e..13d29ac 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -544,7 +544,7 @@ class Model(UserDict):
             # find all exponentials.
             key = sympy.expand(key, power_base=True, power_exp=True,
                                mul=True, log=False, multinomial=False)
-            find_expos = [ele for ele in key.args if ele.is_Pow]
+            find_expos = [ele for ele in sympy.Mul.make_args(key) if ele.is_Pow]
             if len(find_expos):
                 rest = key / np.prod(find_expos)
                 # If an exponential evaluates to a number, replace it with that number.
-- 
2.43.0


From 14b2d9cb17985d4a0d5002c16ca72baeaa32226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 17/50] fix: Model.evalf evaluates complex exponentials of the
 momenta

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 13d29ac..34f56b2 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -609,7 +609,7 @@ class Model(UserDict):
 
     def evalf(self, subs=None):
         """Evaluate using parameter values in `subs`."""
-        return sum(float(key.evalf(subs=subs)) * val for key, val in self.items())
+        return sum(complex(key.subs(e, sympy.E).evalf(subs=subs)) * val for key, val in self.items())
 
     def tocsr(self):
         """Convert to sparse csr format."""
-- 
2.43.0


From a8b4c18421dcda1c9a5a518918689ea23f12c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:25 +0000
Subject: [PATCH 18/50] fix: nullspace of a sparse matrix with the dense
 algorithm

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 3509a81..2681744 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -259,7 +259,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-            A = A.A
+            A = A.toarray()
         # Do dense SVD
         _, s, vh = la.svd(A, full_matrices = True)
         nnz = np.isclose(s, 0, atol=atol)
-- 
2.43.0


From 9e1eaa7b0501f77bfb6274540d6a2f0d15502333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 19/50] fix: allclose of sparse matrices without stored entries

Any such matrix was close to every matrix of the same shape and never close to 0.
---
 qsymm/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 2681744..42dd513 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -47,8 +47,9 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
     elif isinstance(b, sla.LinearOperator):
         b = b @ np.eye(a.shape[-1], dtype=complex)
 
-    # Check if empty arrays, only compare shape
-    if a.size == 0:
+    # Check if empty arrays, only compare shape. Do not use `size`, for sparse
+    # matrices it is the number of stored entries.
+    if 0 in a.shape:
         return a.shape == b.shape
     atol = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))
     diff = a - b
-- 
2.43.0


From 44670d0e490de573516008e01bd4e1a0df1bc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 20/50] fix: Model keeps the terms of all keys that normalize
 to the same symbol

---
 qsymm/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 34f56b2..4ee1cac 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -196,9 +196,12 @@ class Model(UserDict):
 
         if isinstance(hamiltonian, abc.Mapping):
             # Initialize as dict sympifying the keys
-            self.data = {symbol_normalizer(k): v for k, v in hamiltonian.items()
-                              if symbol_normalizer(k) in self.keep
-                                 or not self.keep}
+            # Add up the values of keys that become the same
+            self.data = {}
+            for k, v in hamiltonian.items():
+                k = symbol_normalizer(k)
+                if k in self.keep or not self.keep:
+                    self.data[k] = self.data[k] + v if k in self.data else v
 
         else:
             # Try to parse the input with kwant_continuum.sympify
-- 
2.43.0


From e644e43d70ffefdd1fb542fd1e42d709e8f9299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 21/50] fix: comparison of BlochCoeff with other objects

---
 qsymm/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 4ee1cac..30c7728 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -73,6 +73,8 @@ class BlochCoeff(tuple):
         hop1, coeff1 = self
         if other == 1:
             return allclose(hop1, 0) and coeff1 == 1
+        if not isinstance(other, BlochCoeff):
+            return False
         hop2, coeff2 = other
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
-- 
2.43.0


From b4e0a3c8a3378309d2f0a08f6771741185f33ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 22/50] fix: hexagonal raises when particle-hole and spin are
 combined, as documented

---
 qsymm/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 749ac54..ca266a8 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -812,6 +812,10 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         is different. Here we consider the action of the mirror, which is the same as the
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
+    if ph and spin is not None:
+        raise ValueError('If `ph` is True, `spin` may not be provided, as it is not '
+                         'possible to deduce the unitary representation of particle-hole symmetry '
+                         'from spin alone. In this case construct the particle-hole operator manually.')
     if spin is not None and sympy_R:
         # the exact C6 below rotates by -pi / 3
         U6 = spin_rotation(-np.pi / 3 * np.array([0, 0, 1]), spin)
-- 
2.43.0


From 8a3c1f7caaee09f940afb7210e98adafe90199c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 23/50] fix: spin_matrices rejects spins that are not
 half-integers

---
 qsymm/groups.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index ca266a8..baf9a23 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1149,9 +1149,8 @@ def spin_matrices(s, include_0=False):
         Array of shape `(3, 2*s + 1, 2*s + 1)`, or if `include_0` is True
         `(4, 2*s + 1, 2*s + 1)`.
     """
-    d = np.round(2*s + 1)
-    assert np.isclose(d, int(d))
-    d = int(d)
+    d = int(np.round(2*s + 1))
+    assert np.isclose(d, 2*s + 1)
     Sz = 1/2 * np.diag(np.arange(d - 1, -d, -2))
     # first diagonal for general s from en.wikipedia.org/wiki/Spin_(physics)
     diag = [1/2*np.sqrt((s + 1) * 2*i - i * (i + 1)) for i in np.arange(1, d)]
-- 
2.43.0


From 6058c2d38cb05eba3cddeaad05a85a9a0da3a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 24/50] fix: d-orbital angular momentum matrices match the
 documented orbitals

---
 qsymm/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index baf9a23..4c6f1f8 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1226,16 +1226,16 @@ def L_matrices(d=3, l=1):  # Noqa: E741
                                [0, 0, 0]]])
     elif d == 3 and l==2:
         s3 = np.sqrt(3)
-        return 1j * np.array([[[0, 0, 0, -1, 0],
-                              [0, 0, 0, -s3, 0],
-                              [0, 0, 0, 0, 1],
-                              [1, s3, 0, 0, 0],
-                              [0, 0, -1, 0, 0]],
-                             [[0, 0, 0, 0, -1],
-                              [0, 0, 0, 0, s3],
-                              [0, 0, 0, -1, 0],
-                              [0, 0, 1, 0, 0],
-                              [1, -s3, 0, 0, 0]],
+        return 1j * np.array([[[0, 0, 0, 1, 0],
+                              [0, 0, 0, s3, 0],
+                              [0, 0, 0, 0, -1],
+                              [-1, -s3, 0, 0, 0],
+                              [0, 0, 1, 0, 0]],
+                             [[0, 0, 0, 0, 1],
+                              [0, 0, 0, 0, -s3],
+                              [0, 0, 0, 1, 0],
+                              [0, 0, -1, 0, 0],
+                              [-1, s3, 0, 0, 0]],
                              [[0, 0, -2, 0, 0],
                               [0, 0, 0, 0, 0],
                               [2, 0, 0, 0, 0],
-- 
2.43.0


From 4386a7451ab906d5d23a87f678d9588ed13310de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:28 +0000
Subject: [PATCH 25/50] fix: continuous generators act on sparse Models

---
 qsymm/groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 4c6f1f8..fd47c94 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -572,7 +572,11 @@ class ContinuousGroupGenerator:
                           for i, j in product(range(dim), repeat=2)])
             result += 1j * model.transform_symbolic(trf)
         if U_nonzero:
-            result += model @ (1j*U) + (-1j*U) @ model
+            commutator = model @ (1j*U) + (-1j*U) @ model
+            if result.format is not commutator.format:
+                # The product of a sparse Model with a dense array is dense
+                result, commutator = result.toarray(), commutator.toarray()
+            result += commutator
         return result
 
 
-- 
2.43.0


From 311e77ef229878d01847c0893f2f5294bb0b68b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:53 +0000
Subject: [PATCH 26/50] fix: axis of continuous rotations was rounded twice
 when printing

---
 qsymm/groups.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index fd47c94..5f846dc 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1048,7 +1048,6 @@ def pretty_print_cgg(g, latex=False):
     if R is not None and R.shape[0] == 3:
         n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
         n /= la.norm(n)
-        n = _round_axis(n)
         if latex:
             rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
         else:
-- 
2.43.0


From 7e3dd322e5a081425ae642595d48afc27cdd26d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:31 +0000
Subject: [PATCH 27/50] fix: printed conserved quantity matches the printed
 continuous rotation

---
 qsymm/groups.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 5f846dc..42596b1 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1047,17 +1047,22 @@ def pretty_print_cgg(g, latex=False):
 
     if R is not None and R.shape[0] == 3:
         n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
+        norm = la.norm(n) / 2
         n /= la.norm(n)
         if latex:
             rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
         else:
             rot_name = '\nR_ϕ = R(ϕ, {})'.format(_round_axis(n))
     elif R is not None and R.shape[0] == 2:
+        norm = np.trace(L_matrices(2)[0] @ R).real / 2
         rot_name = r'R_{{\phi}} = R\left(\phi\right)\\' if latex else 'R_ϕ = R(ϕ)\n'
     else:
+        norm = 1
         rot_name = ''
 
     if L is not None:
+        # Rescale, such that ϕ is the angle of the real space rotation
+        L = L / norm
         if latex:
             L_name = r'L = {} \\'.format(_array_to_latex(np.round(L, 3)))
         else:
-- 
2.43.0


From a053b85a6d184d69ab4dcc2393b2a2140eaf9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 28/50] fix: sparse nullspace finds all null spaces of
 dimension up to A.shape[0]-3

---
 qsymm/linalg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 42dd513..471d15c 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -236,18 +236,18 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
             # Number of new null space vectors to find in each step
             k_step = abs(k_max)
             k_max = min(A.shape[0] - 2, k_step)
-            while k_max < A.shape[0] - 1:
+            while True:
                 evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
                                          k=k_max, return_eigenvectors=True)
                 if np.max(np.abs(evals)) > atol:
                     # We found the first large one
                     break
+                elif k_max >= A.shape[0] - 2:
+                    raise ValueError('A should have at most A.shape[0]-3 dimensional null space.'
+                                     'Try using sparse=False.')
                 else:
                     # All small, need to increase k_max
-                    k_max += k_step
-            else:
-                raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
-                                 'Try using sparse=False.')
+                    k_max = min(A.shape[0] - 2, k_max + k_step)
         else:
             raise ValueError('k_max must be nonzero.')
 
-- 
2.43.0


From 655d5a51dbddb803716a83426cfe547d79dfb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 29/50] fix: solve_mat_eqn with conjugation finds all solutions

---
 qsymm/linalg.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 471d15c..a9e3763 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -445,18 +445,25 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     if N == 0:
         return np.empty((0, dim, dim))
 
+    # If X^* enters, the equations are only real-linear in X, use real
+    # coefficients for both Hermitian and antihermitian basis matrices.
+    real_linear = any(conjugate) and not hermitian
+
+    def basis(sparse=sparse):
+        bas = matrix_basis(dim, traceless=traceless, sparse=sparse)
+        if real_linear:
+            bas = it.chain(bas, matrix_basis(dim, traceless=traceless,
+                                             antihermitian=True, sparse=sparse))
+        return bas
+
     # Prepare for differences in sparse and dense algebra
     if sparse:
-        def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=True)
         vstack = scipy.sparse.vstack
         bmat = scipy.sparse.bmat
         # Cast it to coo format and reshape
         def flatten(x):
             return scipy.sparse.coo_matrix(x).reshape((x.shape[0]*x.shape[1], 1))
     else:
-        def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=False)
         vstack = np.vstack
         bmat = np.block
         def flatten(x):
@@ -473,7 +480,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
 
     null_mat = bmat(null_mat)
 
-    if hermitian:
+    if hermitian or real_linear:
         # Simultaneaous equations for real and immaginary parts
         # Lapack guarantees that the SVD of a real matrix is real
         null_mat = vstack((null_mat.real, null_mat.imag))
@@ -482,9 +489,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     ns = nullspace(null_mat, sparse=sparse, k_max=k_max)
     # Make all solutions
     # 'ij,jkl->ikl'
-    def basis():
-        return matrix_basis(dim, traceless=traceless, sparse=False)
-    return np.array([sum((v * mat for v, mat in zip(vec, basis()))) for vec in ns])
+    return np.array([sum((v * mat for v, mat in zip(vec, basis(sparse=False)))) for vec in ns])
 
 
 def rref(m, rtol = 1e-3, return_S=False):
-- 
2.43.0


From 6a566c963f139ef246335d161582876dafed020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 30/50] fix: solve_mat_eqn returns an array of the documented
 shape if there are no solutions

---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index a9e3763..c729ff3 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -489,7 +489,8 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     ns = nullspace(null_mat, sparse=sparse, k_max=k_max)
     # Make all solutions
     # 'ij,jkl->ikl'
-    return np.array([sum((v * mat for v, mat in zip(vec, basis(sparse=False)))) for vec in ns])
+    sols = [sum((v * mat for v, mat in zip(vec, basis(sparse=False)))) for vec in ns]
+    return np.array(sols).reshape((-1, dim, dim))
 
 
 def rref(m, rtol = 1e-3, return_S=False):
-- 
2.43.0


From 1b9e9f73e8ddccf05d56cab5d1afd8a9129350ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 31/50] fix: sparse_basis of a matrix of zeros is empty

---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index c729ff3..fbd1947 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -613,7 +613,8 @@ def sparse_basis(bas, num_digits=3, reals=False):
         bas_mat = re + 1j * im
     # Round to num_digits and return only nonvanishing rows
     bas_mat = np.round(bas_mat, num_digits)
-    bas_mat = np.vstack([row for row in bas_mat if not np.allclose(row, 0, atol=10**(-num_digits))])
+    nonzero = [not np.allclose(row, 0, atol=10**(-num_digits)) for row in bas_mat]
+    bas_mat = bas_mat[np.array(nonzero)]
     if len(bas_mat) < len(bas):
         warnings.warn('Removed linearly dependent terms from the family during sparsification. '+ \
                       'Resulting family will contain fewer members.')
-- 
2.43.0


From 530799ea8647aabc80db135b361fb65bbceedf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 32/50] fix: make_basis_pretty drops members that vanish up to
 rounding errors

---
 qsymm/hamiltonian_generator.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index c734520..c25844e 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -484,11 +484,9 @@ def make_basis_pretty(family, num_digits=2):
     # Transform the model by S
     rfamily = []
     for vec in S:
-        term = sum([val * family[i] for i, val in enumerate(vec)])
-        # Eliminate entries that vanish
-        if term:
-            rfamily.append(term)
-    return round_family(rfamily, num_digits)
+        rfamily.append(sum([val * family[i] for i, val in enumerate(vec)]))
+    # Eliminate entries that vanish
+    return [term for term in round_family(rfamily, num_digits) if term]
 
 
 def remove_duplicates(family, tol=1e-8):
-- 
2.43.0


From 90f5be54d365f32221343663642b6d5553e0eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 33/50] fix: continuum_pairing attaches no phase to continuous
 generators by default

---
 qsymm/hamiltonian_generator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index c25844e..c91fa1f 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -111,7 +111,9 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
         momentum variables. Default is ['k_x', 'k_y', 'k_z'].
     phases: iterable of numbers
         Phase factors to multiply the hole block of the symmetry operators in
-        particle-hole space. By default, all phase factors are 1.
+        particle-hole space. By default, all phase factors are 1. For a
+        ContinuousGroupGenerator it is the (real) generator of the phase factor,
+        which is added to the hole block, 0 by default.
     ph_square: integer, either 1 or -1.
         Specifies whether the particle-hole operator squares to +1 or -1.
     sparse_linalg : bool
@@ -138,9 +140,10 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     if ph_square not in (-1, 1):
         raise ValueError('Particle-hole operator must square to +1 or -1.')
-    if phases is None:
-        phases = np.ones(len(symmetries))
     symmetries = deepcopy(symmetries)
+    if phases is None:
+        # The generator of a trivial phase factor is 0
+        phases = [0 if isinstance(sym, ContinuousGroupGenerator) else 1 for sym in symmetries]
     N = symmetries[0].U.shape[0]
     # Attach phases to symmetry operators and extend to BdG space
     for sym, phase in zip(symmetries, phases):
-- 
2.43.0


From d972978116aaa79026c8b052d94c5b0dcd931651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 34/50] fix: continuum_pairing returns Models with the momenta
 it was called with

---
 qsymm/hamiltonian_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index c91fa1f..a12d5b3 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -155,7 +155,7 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
     ph = np.array([[0, 1], [ph_square, 0]])
     ph = PointGroupElement(np.eye(dim), True, True, np.kron(ph, np.eye(N)))
     symmetries.append(ph)
-    momenta = momenta[:dim]
+    all_momenta, momenta = momenta, momenta[:dim]
     momentum_variables = continuum_variables(dim, total_power, all_powers=all_powers, momenta=momenta)
     # matrix basis for all matrices in off-diagonal blocks
     b0 = np.zeros((N, N))
@@ -181,8 +181,8 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     # Cast the pairing terms into new Model objects, to ensure that each object has the correct
     # shape.
-    family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()}) for monomial in
-              family]
+    family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()},
+                    momenta=all_momenta) for monomial in family]
     return [mon for mon in family if len(mon)]
 
 
-- 
2.43.0


From 09f64d59811cfeef9a9706d5d28b5688d7bbfbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 35/50] fix: continuum_variables accepts names of momenta

---
 qsymm/hamiltonian_generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index a12d5b3..82978a8 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
-from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
+from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, _find_momenta, e, I
 from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group
 from . import kwant_continuum
 
@@ -231,8 +231,7 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
     else:
-        momenta = [kwant_continuum.make_commutative(k, k)
-                        for k in momenta]
+        momenta = _find_momenta(tuple(momenta))
 
     # Generate powers for all terms
     powers = [p for p in it.product(*all_powers) if sum(p) == total_power]
-- 
2.43.0


From 9f44f50bf625caa778fa016c8aef2b7709c77b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 36/50] fix: bloch_family accepts names of momenta

---
 qsymm/hamiltonian_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 82978a8..19a144a 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -673,6 +673,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
     # Check dimensionality
     dim = len(hopping_vectors[0][-1])
     assert all([len(hop[-1]) == dim for hop in hopping_vectors])
+    momenta = _find_momenta(tuple(momenta))
 
     # Add zero hoppings for onsites
     if onsites:
-- 
2.43.0


From b924240fe115dede18894c6b878bc0ba2ab1abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 37/50] fix: bloch_family with symmetrize=True returns linearly
 independent members

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 19a144a..7fd1009 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -716,7 +716,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-            term = symmetrize_monomial(term, pg).around(decimals=num_digits)
+            # Rounding here would make linearly dependent terms independent
+            term = symmetrize_monomial(term, pg).eliminate_zeros(rtol=0, atol=10**(-num_digits))
             if not term == {}:
                 family2.append(term)
         family = remove_duplicates(family2, tol=10**(-num_digits))
-- 
2.43.0


From 4cef1a5f09e123f43a41ec9011336b9f7f586c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 38/50] fix: bloch_family with bloch_model=True accepts exact
 hopping vectors

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 7fd1009..b5dfeb0 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -686,7 +686,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         block_basis = np.eye(n*m, n*m).reshape((n*m, n, m))
         block_basis = np.concatenate((block_basis, 1j*block_basis))
         if bloch_model:
-            bloch_coeff = BlochCoeff(np.array(vec), sympy.sympify(1))
+            bloch_coeff = BlochCoeff(np.array(vec, dtype=float), sympy.sympify(1))
         else:
             # Hopping direction in real space
             # Dot product with momentum vector
-- 
2.43.0


From 2a348886567cb79b14edfbb169cab12cc817f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 39/50] fix: check_symmetry checks all symmetries if the family
 is an iterator

---
 qsymm/hamiltonian_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index b5dfeb0..37e3caa 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -364,6 +364,8 @@ def check_symmetry(family, symmetries, num_digits=None):
     """
     def fail():
         raise ValueError(f'Member {member} does not satisfy symmetry {symmetry}.')
+    # family can be an iterator, which is exhausted by the first symmetry
+    family = list(family)
     for symmetry in symmetries:
         # Iterate over all members of the family
         for member in family:
-- 
2.43.0


From 1ff55dc2a5eb457f8e974c4c4976b4c719f0e927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 40/50] fix: nullspace(sparse=True) works for matrices with few
 columns

---
 qsymm/linalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index fbd1947..3ca5993 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -224,6 +224,10 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Treat A=0 case
         if np.allclose(A.data, 0, atol=atol/A.shape[1]):
             return np.eye(A.shape[1])
+        if k_max and A.shape[1] <= max(k_max, 1) + 1:
+            # Sparse solver only works for larger matrices
+            ns = nullspace(A, atol=atol, sparse=False)
+            return ns[:k_max] if k_max > 0 else ns
         # Make Hermitian positive definite matrix
         A = A.T.conj().dot(A)
 
-- 
2.43.0


From a899d7e40f34c34c1a0ae395d4655879d630f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 41/50] fix: continuous_symmetries works for families with
 one-dimensional blocks

---
 qsymm/symmetry_finder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 3dfc11e..75721df 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -721,7 +721,11 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
         R = None
         Ls = matrix_basis(blockdim, traceless=True)
         trf_hams = [ContinuousGroupGenerator(R, L).apply(rham) for L in Ls]
-        Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        if trf_hams:
+            Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        else:
+            # There is no action in a 1D block
+            Lblock = np.zeros((Rblock.shape[0], 0))
         Lblocks.append(Lblock)
 
     # Build constraint matrix: first the spatial blocks in a column, then the
-- 
2.43.0


From 93fd7b9b2193a900af65564a56238fb2e4d7c62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 42/50] fix: Model applies keep to strings and to keys that are
 split by normalize

---
 qsymm/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 30c7728..a059d11 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -202,7 +202,8 @@ class Model(UserDict):
             self.data = {}
             for k, v in hamiltonian.items():
                 k = symbol_normalizer(k)
-                if k in self.keep or not self.keep:
+                # With normalize=True, discard terms after splitting the keys
+                if k in self.keep or not self.keep or normalize:
                     self.data[k] = self.data[k] + v if k in self.data else v
 
         else:
@@ -267,6 +268,9 @@ class Model(UserDict):
                     self[new_key] += new_val
             # remove zero entries, apply symbol_normalizer
             self.data = {symbol_normalizer(k): v for k, v in self.items() if not allclose(v, 0)}
+            # discard everything that is not in keep
+            if self.keep:
+                self.data = {k: v for k, v in self.items() if k in self.keep}
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
-- 
2.43.0


From 131220c959f973a884bafa8ce7910077ff0765a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 43/50] fix: Model has the shape of its input if no term is
 kept

---
 qsymm/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index a059d11..d993c93 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -228,11 +228,13 @@ class Model(UserDict):
         self.shape = shape
         self.format = format
         if self.shape is None or self.format is None:
-            if self.data == {}:
+            # The input has a shape even if none of it is kept
+            values = hamiltonian.values() if isinstance(hamiltonian, abc.Mapping) else self.values()
+            if not values:
                 # raise ValueError('Must provide `shape` and `format` when initializing empty Model.')
                 warn('Provide `shape` and `format` when initializing empty Model.', DeprecationWarning)
             else:
-                val = next(iter(self.values()))
+                val = next(iter(values))
                 shape, format = _shape_and_format(val)
                 self.shape = (shape if self.shape is not None else shape)
                 self.format = (format if self.format is not None else format)
-- 
2.43.0


From 7521eb9a76781729697bd87a537dad8b6b239e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 44/50] fix: copies of Models with sparse values do not share
 their data

---
 qsymm/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index d993c93..a0c9848 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1,5 +1,5 @@
 from itertools import product
-from copy import copy
+from copy import copy as shallow_copy
 from numbers import Number
 from warnings import warn
 from functools import lru_cache
@@ -23,6 +23,11 @@ e = kwant_continuum.e
 I = sympy.I  # noqa: E741
 
 
+def copy(val):
+    """Copy a value, including the data of sparse matrices."""
+    return val.copy() if scipy.sparse.issparse(val) else shallow_copy(val)
+
+
 def substitute_exponents(expr):
     """Substitute trignometric functions with exp.
 
-- 
2.43.0


From 9315c35adbc6ceb5b428dde187bd64281965f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 45/50] fix: BlochModel accepts BlochCoeffs to keep with
 symbolic input

---
 qsymm/model.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index a0c9848..4727f08 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -827,23 +827,28 @@ class BlochModel(Model):
                                 )
             elif symbolic:
                 # First cast it to model with restructuring, then try to interpret it as BlochModel
-                self.__init__(Model(hamiltonian,
-                                    locals=locals,
-                                    momenta=momenta,
-                                    keep=keep,
-                                    normalize=True,
-                                    shape=shape,
-                                    format=format))
+                self._init_symbolic(hamiltonian, locals, momenta, keep, True, shape, format)
             else:
                 raise ValueError('All keys must have the same type (sympy expression or BlochCoeff).')
         else:
             # Use Model to parse input
-            self.__init__(Model(hamiltonian,
-                                locals=locals,
-                                momenta=momenta,
-                                keep=keep,
-                                shape=shape,
-                                format=format))
+            self._init_symbolic(hamiltonian, locals, momenta, keep, False, shape, format)
+
+    def _init_symbolic(self, hamiltonian, locals, momenta, keep, normalize, shape, format):
+        # Initialize from symbolic input, BlochCoeffs to keep can only be
+        # compared after casting to BlochModel
+        keep = set() if keep is None else set(keep)
+        keep_hop = {key for key in keep if isinstance(key, BlochCoeff)}
+        self.__init__(Model(hamiltonian,
+                            locals=locals,
+                            momenta=momenta,
+                            keep=(None if keep_hop else keep),
+                            normalize=normalize,
+                            shape=shape,
+                            format=format))
+        if keep_hop:
+            self.keep = {_bloch_normalizer(key, self.momenta) for key in keep}
+            self.data = {key: val for key, val in self.items() if key in self.keep}
 
     # Allow getting values using text keys
     def __getitem__(self, key):
-- 
2.43.0


From fb054578dedc539cf50e5a67cda68ff1d8b01935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 46/50] fix: circular draws 1x1 matrices of class D with given
 charge

---
 qsymm/kwant_rmt.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/qsymm/kwant_rmt.py b/qsymm/kwant_rmt.py
index bd37a4c..2535fc6 100644
--- a/qsymm/kwant_rmt.py
+++ b/qsymm/kwant_rmt.py
@@ -281,10 +281,7 @@ def circular(n, sym='A', charge=None, rng=None):
         if sym == 'DIII':
             det *= (-1) ** (n // 2)
         if (charge > 0) != (det > 0):
-            idx = np.arange(n)
-            idx[-1] -= 1
-            idx[-2] += 1
-            s = s[idx]
+            s[-1] *= -1
 
     # Add the proper time-reversal symmetry:
     if sym in ('AI', 'CI'):
-- 
2.43.0


From 78017f3750d74476c0ab2b777878e0584c827306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 47/50] fix: store terms added to a Model under normalized keys

Adding a constant to a Model without constant term, or assigning to a text
key, stored a key that is neither a sympy expression nor a BlochCoeff, and
most methods of the result failed.
---
 qsymm/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 4727f08..1be9731 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -279,8 +279,13 @@ class Model(UserDict):
             if self.keep:
                 self.data = {k: v for k, v in self.items() if k in self.keep}
 
-    # Make sure values have the correct format
+    def _normalize_key(self, key):
+        return _symbol_normalizer(key)
+
+    # Make sure keys and values have the correct format
     def __setitem__(self, key, item):
+        if key not in self.data:
+            key = self._normalize_key(key)
         if (isinstance(item, self.format) and self.shape == item.shape):
             self.data[key] = item
         elif (isinstance(item, Number) and self.shape == ()):
@@ -850,6 +855,9 @@ class BlochModel(Model):
             self.keep = {_bloch_normalizer(key, self.momenta) for key in keep}
             self.data = {key: val for key, val in self.items() if key in self.keep}
 
+    def _normalize_key(self, key):
+        return _bloch_normalizer(key, self.momenta)
+
     # Allow getting values using text keys
     def __getitem__(self, key):
         if key in self.data:
-- 
2.43.0


From 00182a88ebd7a38fb04f654aaed98fbf2ec8a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 48/50] fix: allow text keys with exponentials in BlochModel

The symbol `e` of a text key was not recognised.
---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 1be9731..017b6bc 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1031,7 +1031,7 @@ def _bloch_normalizer(key, momenta):
     if isinstance(key, BlochCoeff):
         return key
     else:
-        return _to_bloch_coeff(key, momenta)
+        return _to_bloch_coeff(_symbol_normalizer(key), momenta)
 
 
 def _shape_and_format(val):
-- 
2.43.0


From f41b53b7823a703d71f12df43aa0fcad9c46f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 49/50] fix: evalf of BlochModel

It raised AttributeError for every nonempty BlochModel.
---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 017b6bc..c000eda 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -893,6 +893,10 @@ class BlochModel(Model):
         result = model.subs(*args, **kwargs)
         return BlochModel(result)
 
+    def evalf(self, subs=None):
+        """Evaluate using parameter values in `subs`."""
+        return self.tomodel(nsimplify=False).evalf(subs=subs)
+
     def tosympy(self, nsimplify=False):
         """Return sympy representation of the Model.
         If nsimplify=True, attempt to rewrite numerical coefficients as exact formulas."""
-- 
2.43.0


From 2c76a102da4fe2fd53caf8131aee04ad89660b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 50/50] fix: keep the format of sparse Models when transposing

The transpose of csr matrices are csc matrices, the result could not be
added, converted or rounded.
---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index c000eda..c31595c 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -589,6 +589,9 @@ class Model(UserDict):
         """Transpose"""
         result = self.zeros_like()
         result.data = {key: val.T for key, val in self.items()}
+        if issubclass(self.format, scipy.sparse.spmatrix):
+            # Transposing a sparse matrix may change its type
+            result.data = {key: self.format(val) for key, val in result.items()}
         result.shape = self.shape[::-1]
         return result
 
-- 
2.43.0

