From fc0119cf8ee2c723a97bb5823037b7916dcd30ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 01/42] fix: serial concatenation of Kraus objects takes input
 qubits from the first-applied channel

---
 PyQCodes/chan/_kraus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 9a5a471..6957dc3 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -405,7 +405,7 @@ class SparseKraus(Kraus):
         assert isinstance(other, SparseKraus), "Kraus object should be of type 'SparseKraus'."
         if self.dim_in**self.numb_qubits[0] != other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return SparseKraus(SparseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
@@ -715,7 +715,7 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         if not self.dim_in**self.numb_qubits[0] == other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return DenseKraus(DenseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
-- 
2.43.0


From 0ceb6651288184d3852755ef8d16721c2e37caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 02/42] fix: serial concatenation of sparse Kraus operators
 stacks the products instead of densifying them

---
 PyQCodes/chan/_kraus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 6957dc3..0f2f8fe 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -26,7 +26,7 @@ THE SOFTWARE.
 """
 import numpy as np
 from scipy.sparse import kron
-from sparse import COO, kron, tensordot, matmul, SparseArray
+from sparse import COO, kron, tensordot, matmul, stack, SparseArray
 from abc import ABC, abstractmethod, abstractstaticmethod
 
 r"""
@@ -610,7 +610,7 @@ class SparseKraus(Kraus):
         kraus_ops = [matmul(kraus1[j], kraus2[i]) for j in range(0, len(kraus1))
                      for i in range(0, len(kraus2))]
         # Reshape them to be three-dimensional.
-        return COO(np.array(kraus_ops, dtype=np.complex128),)
+        return stack(kraus_ops, axis=0)
 
 
 class DenseKraus(Kraus):
-- 
2.43.0


From ad69c7f8d1b2ce73ae1800660d21721f50c91408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 03/42] fix: parallel concatenation of channels acting on more
 than one particle

---
 PyQCodes/chan/_kraus.py  | 6 ++++--
 PyQCodes/chan/channel.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 0f2f8fe..8dd55ea 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -416,7 +416,8 @@ class SparseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in = self.input_dim * other.input_dim
+        dim_out = self.output_dim * other.output_dim
         return SparseKraus(SparseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
 
@@ -726,7 +727,8 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in = self.input_dim * other.input_dim
+        dim_out = self.output_dim * other.output_dim
         return DenseKraus(DenseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 8a27261..d3ec0e0 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -352,8 +352,8 @@ class AnalyticQChan():
         else:
             new_kraus_ops = DenseKraus.parallel_concatenate(self.kraus, other.kraus)
         numb_qubits = [1, 1]
-        dim_in = self.dim_in * other.dim_in
-        dim_out = self.dim_out * other.dim_out
+        dim_in = self.krauss.input_dim * other.krauss.input_dim
+        dim_out = self.krauss.output_dim * other.krauss.output_dim
         return AnalyticQChan(new_kraus_ops, numb_qubits, dim_in, dim_out, sparse=issparse)
 
     def _is_qubit_channel(self):
-- 
2.43.0


From fbf73dc0d7060e06be3bd863f2117123819a2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 04/42] fix: lowering n back to one resets the conjugated
 sparse Kraus operators

---
 PyQCodes/chan/_kraus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 8dd55ea..e913ef2 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -269,7 +269,8 @@ class Kraus(ABC):
         elif n < self.current_n:
             # Reduce Densekraus operator to correspond to nth channel.
             if n == 1:
-                self.nth_kraus_ops = self.kraus_ops
+                # Also resets the conjugated kraus operators of SparseKraus.
+                self._initialize_kraus_ops()
             else:
                 self.nth_kraus_ops = self._tensor_kraus_operators(self.kraus_ops, self.kraus_ops)
                 for i in range(0, n - 2):
-- 
2.43.0


From c93e28d71a761d2d07ada053094e9e492ba3e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 05/42] fix: entropy exchange blocks of orthogonal Kraus groups
 of unequal size

---
 PyQCodes/chan/_kraus.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index e913ef2..ee677fe 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -846,7 +846,6 @@ class DenseKraus(Kraus):
         # and A_2 correponds to {k_1, k_2}.
 
         """
-        numb_rows = self.numb_kraus ** n
         # Compute adjoint of the complementary channel.
         if adjoint:
             return np.einsum("ijkl,ij->kl", self.nth_kraus_exch, rho, dtype=np.complex128)
@@ -863,11 +862,10 @@ class DenseKraus(Kraus):
                 W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:orthogonal_split,
                               count:orthogonal_split, :, :], rho)
                 output.append(W.T)
-                count += orthogonal_split
+                count = orthogonal_split
 
             # Last section of kraus operators
-            diff = (numb_rows - count)
-            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[diff:, diff:, :, :], rho)
+            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:, count:, :, :], rho)
             output.append(W.T)
         return output
 
-- 
2.43.0


From 761190513efabc2cc18b449be82baafd53578f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 06/42] fix: entropy of a list of matrices of different shapes

---
 PyQCodes/chan/channel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index d3ec0e0..51d23b8 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -519,8 +519,9 @@ class AnalyticQChan():
             The von neumann entropy.
 
         """
-        if self.sparse:
-            eigs = np.linalg.eigvalsh(mat)
+        if isinstance(mat, (list, tuple)):
+            # Matrices in the list can have different shapes.
+            eigs = np.concatenate([np.ravel(np.linalg.eigvalsh(block)) for block in mat])
         else:
             eigs = np.ravel(np.linalg.eigvalsh(mat))
         no_zeros = eigs[np.abs(eigs) > cut_off]
-- 
2.43.0


From 6fd070000ba04913a8791f6d6e72227b5f7833bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 07/42] fix: numb_krauss property reads the attribute that
 exists

---
 PyQCodes/chan/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 51d23b8..51d9ae2 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -258,7 +258,7 @@ class AnalyticQChan():
     def numb_krauss(self):
         r"""Return the number of kraus operators for the single (n=1) channel."""
         assert self._type == "kraus", "Function only works with kraus operators."
-        return self.krauss.numb_krauss
+        return self.krauss.numb_kraus
 
     @property
     def kraus(self):
-- 
2.43.0


From 9b79c6b36ded314f68972e159c88a0ced5637184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 08/42] fix: sparse channel evaluated on an array of density
 matrices

---
 PyQCodes/chan/_kraus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index ee677fe..5bfc1da 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -501,6 +501,8 @@ class SparseKraus(Kraus):
             rho.
 
         """
+        if rho.ndim == 3:
+            return np.array([self.channel(state, adjoint) for state in rho])
         if adjoint:
             left_mult = matmul(self.nth_kraus_ops_conj, rho)
             return np.sum(matmul(left_mult, self.nth_kraus_ops), axis=0)
-- 
2.43.0


From fdd422bf9d7bff68c87e0b9fc409158176d35810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 09/42] fix: Choi matrices of channels with different number of
 input and output qubits

---
 PyQCodes/chan/_choi.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index e6f5b83..6486074 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -141,8 +141,10 @@ class ChoiQutip():
             raise ValueError("Choi matrix shape does not match dimension specified.")
 
         # dimemsion for the qutip object to understand.
-        dim = [[[dim_in] * self.num_in, [dim_out] * self.num_out],
-               [[dim_in] * self.num_in, [dim_out] * self.num_out]]
+        # All particles of the input (and of the output) are one system, as QuTiP does not accept
+        # nested lists of different lengths.
+        dim = [[[self.input_dim], [self.output_dim]],
+               [[self.input_dim], [self.output_dim]]]
         self._dim = dim
         self.qutip = Qobj(choi_matrix, dims=dim, type="super", superrep="choi")
         assert self.qutip.istp, "Choi matrix is not trace perserving."
@@ -191,9 +193,8 @@ class ChoiQutip():
         # Definition is taken from John Watrous.
         choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
-        # Keep the following dimensions when doing partial trace
-        keep = [i for i in range(self.num_out, 2 * self.num_out)]
-        return ptrace(Qobj(choi_rho, dims=self.dim), keep).data.todense()
+        # Keep the output system when doing partial trace
+        return ptrace(Qobj(choi_rho, dims=self.dim), [1]).data.todense()
 
     def complementary_channel(self, rho):
         r"""
-- 
2.43.0


From 15b40015b2fe9249b2130e1c3e1ef364d5f91e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 10/42] fix: the adjoint flag is honoured for channels given as
 Choi matrices

---
 PyQCodes/chan/_choi.py   | 12 ++++++++++--
 PyQCodes/chan/channel.py |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index 6486074..bbb6a2a 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -174,14 +174,17 @@ class ChoiQutip():
     def numb_qubits(self):
         return [self.num_in, self.num_out]
 
-    def channel(self, rho):
+    def channel(self, rho, adjoint=False):
         r"""
-        Compute the channel on a density matrix.
+        Compute the channel (or its adjoint) on a density matrix.
 
         Parameters
         ----------
         rho : array
 
+        adjoint : bool
+            Compute the adjoint of the channel instead.
+
         Returns
         -------
         array :
@@ -190,6 +193,11 @@ class ChoiQutip():
         ----------
         See John Watrous Notes of Choi-Matrix. Note that he uses row-based vectorization.
         """
+        if adjoint:
+            # Entry (j, i) of the adjoint is the trace of \Phi(\ketbra{i}{j}) times rho.
+            shape = (self.input_dim, self.output_dim, self.input_dim, self.output_dim)
+            return np.einsum("iajb,ba->ji", np.reshape(self.choi, shape), rho)
+
         # Definition is taken from John Watrous.
         choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 51d9ae2..5614364 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -461,7 +461,7 @@ class AnalyticQChan():
 
         # For Choi Matrix.
         assert n == 1, "n, nth use of the channel must be one for choi-matrices."
-        return self.choi.channel(rho)
+        return self.choi.channel(rho, adjoint)
 
     def entropy_exchange(self, rho, n, adjoint=False):
         r"""
-- 
2.43.0


From 5492221b29b5883d8054bc41a11bfca90ddc9a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 11/42] fix: SLSQP with multi-processing keeps the best of the
 samples

---
 PyQCodes/chan/_coherent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 86e2ede..ba38947 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -87,16 +87,16 @@ def _use_multi_processes(samples, bounds, args, maxiter, eps, ftol, fobjective,
     pool = Pool(processes=pool_number)
     results = pool.map(obj_func, samples)
 
-    # Initialize parameters for finding maximas over the results.
-    maxima = -1e10
+    # Initialize parameters for finding the minima of the objective function over the results.
+    minima = np.inf
     optimal_x_val = None
     success = False
     for r in results:
-        if -r["fun"] > maxima:
-            maxima = r["fun"]
+        if r["fun"] < minima:
+            minima = r["fun"]
             optimal_x_val = r["x"]
             success = r["success"]
-    return maxima, success, optimal_x_val
+    return minima, success, optimal_x_val
 
 
 def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjective, disp):
-- 
2.43.0


From ce27be9fe3bdb3feb2d35d4bdc75d1caabb3b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 12/42] fix: SLSQP without multi-processing returns the best
 value found over the samples

---
 PyQCodes/chan/_coherent.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index ba38947..bfb654d 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -131,11 +131,13 @@ def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjectiv
         Returns the optimal solution found, whether it converges or not and the variables of the
         parameterization corresponding to the optimal solution.
     """
-    optimal_val = -1e10
+    optimal_val = np.inf
+    optimal_x_val = None
+    success = False
     for s in samples:
         optimize = _optimize_using_slsqp(s, bounds, args, maxiter, eps, ftol, fobjective, disp)
-        if optimize["fun"] > optimal_val:
-            optimal_val = optimize
+        if optimize["fun"] < optimal_val:
+            optimal_val = optimize["fun"]
             optimal_x_val = optimize["x"]
             success = optimize["success"]
     return optimal_val, success, optimal_x_val
-- 
2.43.0


From a354ff189f5b30cd2ee105c4d24b4b04e39f7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 13/42] fix: a subclass of ParameterizationABC is accepted as
 the parameterization

---
 PyQCodes/chan/_coherent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index bfb654d..b437c49 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -62,9 +62,10 @@ def _choose_objective_func(objective):
 
 def _get_parameterization_scheme_density(param):
     r"""Get parameterization static class from the param string"""
-    if not (isinstance(param, str) or isinstance(param, ParameterizationABC)):
+    is_class = isinstance(param, type) and issubclass(param, ParameterizationABC)
+    if not (isinstance(param, str) or is_class or isinstance(param, ParameterizationABC)):
         raise TypeError("Param should either be string or class ParameterizationABC.")
-    if isinstance(param, ParameterizationABC):
+    if not isinstance(param, str):
         return param
     if param == "overparam":
         paramet = OverParam
-- 
2.43.0


From 5cc8245b6ae5024e794b796c1960ac246b690207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 14/42] fix: SLSQP accepts user-provided samples without the
 lipschitz sampler

---
 PyQCodes/chan/_coherent.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index b437c49..3b60f69 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -279,7 +279,6 @@ def optimize_procedure(channel, n, rank, optimizer="diffev", param="overparam",
                                                                           objective_func, disp)
 
     elif optimizer == "slsqp":
-        assert lipschitz != 0, "SLSQP parameter requires 'lipschitz' parameter to be nonzero."
         # Epsilon and ftol parameters for optimizer.
         eps, ftol = 1e-5, 1e-8
 
-- 
2.43.0


From 6e1468d969117eb8c3dac7f5fab36e1135aff14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 15/42] fix: Cholesky vector of a density matrix is the inverse
 of rho_from_vec for every size and rank

---
 PyQCodes/chan/param.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index 9824488..6c6fe73 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -580,11 +580,19 @@ class CholeskyParam(ParameterizationABC):
         if rank is None:
             rank = nsize
         assert 1 <= rank <= nsize
-        cholesky_fac = np.linalg.cholesky(rho)
+        # Write rho as A * A^{\dagger}, where A has shape (nsize, rank). Then the QR-decomposition
+        # of A^{\dagger} gives the cholesky factor, even if rho does not have full rank.
+        eigs, evecs = np.linalg.eigh(rho)
+        factor = evecs[:, nsize - rank:] * np.sqrt(np.maximum(eigs[nsize - rank:], 0.))
+        cholesky_fac = np.conj(np.linalg.qr(np.conj(factor.T))[1].T)
+        # Change the phase of each column, so that the diagonal elements are real and positive.
+        diagonal = np.diag(cholesky_fac)
+        phases = np.array([np.conj(x) / np.abs(x) if np.abs(x) > 0. else 1. for x in diagonal])
+        cholesky_fac = cholesky_fac * phases
         # First set of elements is the diagonal elements (always real).
         vec = np.diag(np.real(cholesky_fac))
-        # Add real Off-diagonal elements
-        vec = np.append(vec, np.real(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
-        # Add imaginary Off-diagonal elements
-        vec = np.append(vec, np.imag(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
+        # Add the off-diagonal elements, real component is followed by the imaginary component.
+        off_diagonal = cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]
+        vec = np.append(vec, np.ravel(np.column_stack((np.real(off_diagonal),
+                                                       np.imag(off_diagonal)))))
         return vec
-- 
2.43.0


From 202074c72df012944382169c95a838b3fa231703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 16/42] fix: stabilizers given as Pauli strings are checked
 against the code parameters

---
 PyQCodes/codes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 7bf06f8..6037bf7 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -171,8 +171,8 @@ class StabilizerCode():
             stabilizer_group = StabilizerCode.pauli_str_to_binary_representation(stabilizer_group)
         elif isinstance(stabilizer_group[0], (list, np.ndarray)):
             stabilizer_group = np.array(stabilizer_group)
-            assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
-            assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
+        assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
+        assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
 
         self._stab_bin_rep = stabilizer_group
         self.numb_stab = self.stab_bin_rep.shape[0]
-- 
2.43.0


From 4ba37c58777ee4c20779b0e30eadecaca0d9e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 17/42] fix: rank of the X block of the stabilizers is computed
 modulo two

---
 PyQCodes/codes.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 6037bf7..de21f1c 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -697,6 +697,22 @@ class StabilizerCode():
         normalizer = self.normalizer()
         return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
 
+    @staticmethod
+    def _binary_matrix_rank(matrix):
+        r"""Rank of a binary matrix over the field of two elements."""
+        rows = [[int(x) % 2 for x in row] for row in matrix]
+        rank = 0
+        for j in range(0, np.shape(matrix)[1]):
+            pivot = next((i for i in range(rank, len(rows)) if rows[i][j] == 1), None)
+            if pivot is None:
+                continue
+            rows[rank], rows[pivot] = rows[pivot], rows[rank]
+            for i in range(rank + 1, len(rows)):
+                if rows[i][j] == 1:
+                    rows[i] = [(x + y) % 2 for x, y in zip(rows[i], rows[rank])]
+            rank += 1
+        return rank
+
     def _gaussian_elimination_first_block(self):
         r"""
         Perform Gaussian Elimination On the first block G1 from binary representation [G1 | G2].
@@ -721,7 +737,7 @@ class StabilizerCode():
         """
         output = self.stab_bin_rep.copy()
 
-        rank = np.linalg.matrix_rank(self.stab_bin_rep[:, :self.n])
+        rank = self._binary_matrix_rank(self.stab_bin_rep[:, :self.n])
         numb_stabs = self.numb_stab
         assert self.stab_bin_rep.shape[0] == numb_stabs
 
-- 
2.43.0


From deb66ea0b51c9041605a394cff9a3712fa6fdb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 18/42] fix: apply_stabilizer_circuit accepts Pauli strings

---
 PyQCodes/codes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index de21f1c..f60a32c 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -527,6 +527,7 @@ class StabilizerCode():
         >> apply_stabilizer_circuit(eng, register, "XXY")
 
         """
+        pauli_str = stabilizer
         if isinstance(stabilizer, (list, np.ndarray)):
             # Convert to Pauli String.
             pauli_str = StabilizerCode.binary_rep_to_pauli_str(stabilizer)
-- 
2.43.0


From 516d5e9be7937851426c64fa10a33892fbe7b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 19/42] fix: the ancilla of a syndrome measurement is reset, so
 that it can be reused

---
 PyQCodes/codes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index f60a32c..628c4a9 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -429,6 +429,10 @@ class StabilizerCode():
         result = int(measure_qubit)
         if numb_qubits == self.n:
             del measure_qubit
+        elif result == 1:
+            # Reset the ancilla, so that it can be used for the next measurement.
+            XGate() | measure_qubit
+            eng.flush()
         return result
 
     def encoding_circuit(self, eng, register, state):
-- 
2.43.0


From 5ce715136e5bc18edb33ab306909297e261a9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 20/42] fix: normalizer and undetectable_errors return N(S) - S
 instead of raising AttributeError

---
 PyQCodes/codes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 628c4a9..2828050 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -700,7 +700,7 @@ class StabilizerCode():
 
         """
         normalizer = self.normalizer()
-        return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
+        return [StabilizerCode.binary_rep_to_pauli_str(x) for x in normalizer]
 
     @staticmethod
     def _binary_matrix_rank(matrix):
@@ -976,21 +976,24 @@ class StabilizerCode():
 
         """
         normalizer = []
+        rank = self._binary_matrix_rank(self.stab_bin_rep)
         # Worse-case algorithm. Go through every permutation
         all_pauli_reps = itertools.product([0, 1], repeat=2 * self.n)
         # all_pauli_reps = self.generator_set_pauli_elements()
         for pauli in all_pauli_reps:
-            pauli = list(pauli)
+            pauli = np.array(pauli)
             does_commute = True
 
             # TODO: Vectorize this.
             for stab in self.stab_bin_rep:
-                if not self._commute(stab, pauli):
+                if StabilizerCode.inner_prod(stab, pauli) != 0:
                     does_commute = False
                     break
-            # If it commutes and satisfies couple of generator conditions.
+            # If it commutes and is not an element of the stabilizer group, up to a phase.
             if does_commute:
-                normalizer.append(pauli)
+                with_pauli = np.vstack((self.stab_bin_rep, pauli))
+                if self._binary_matrix_rank(with_pauli) > rank:
+                    normalizer.append(pauli)
         return np.array(normalizer)
 
     @staticmethod
-- 
2.43.0


From ec8dc8c2c1030c5fbdfba639da87a641660a70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 21/42] fix: concatenating codes raises ValueError when l does
 not divide n

---
 PyQCodes/codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 2828050..4ec16de 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1032,7 +1032,7 @@ class StabilizerCode():
         m, l = stab2.n, stab2.k
 
         if n % l != 0:
-            assert ValueError("Code concatenation only works when l divides n, ie n | l.")
+            raise ValueError("Code concatenation only works when l divides n, ie n | l.")
 
         generator = []
         # Suppose l = 1
-- 
2.43.0


From 87281038d65eef38245a6ceecc9f900c81bee967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 22/42] fix: concatenated code uses both the X and Z part of
 the logical operators

---
 PyQCodes/codes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 4ec16de..7ec76cf 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1063,13 +1063,14 @@ class StabilizerCode():
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer.
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Operator.
                         new_gen_x.extend(logical_x[:m])
-                        new_gen_z += [0] * m
+                        new_gen_z.extend(logical_x[m:])
                     elif pauli == 0 and stabilizer[n + j] == 1:  # Z Operator.
-                        new_gen_x += [0] * m
+                        new_gen_x.extend(logical_z[:m])
                         new_gen_z.extend(logical_z[m:])
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Operator.
-                        new_gen_x.extend(logical_x[:m])
-                        new_gen_z.extend(logical_z[m:])
+                        logical_y = (logical_x + logical_z) % 2
+                        new_gen_x.extend(logical_y[:m])
+                        new_gen_z.extend(logical_y[m:])
                     else:
                         new_gen_x += [0] * m
                         new_gen_z += [0] * m
-- 
2.43.0


From eff453276ef1a4b16aca0cf60d4ac43e2502c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 23/42] fix: concatenation with a code of more than one logical
 qubit maps each qubit to its own block

---
 PyQCodes/codes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 7ec76cf..123acc4 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1103,9 +1103,9 @@ class StabilizerCode():
                 new_gen_z = np.zeros((total_qubits), dtype=np.int)
 
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer element.
-                    which_logical_op = j % numb_blocks  # Modulo the number of blocks.
-
-                    which_block = int(np.floor(j / numb_blocks))
+                    # Each block holds l qubits of the first code.
+                    which_logical_op = j % l
+                    which_block = j // l
 
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Block Operator.
                         current_logical = logical_x[which_logical_op]
@@ -1114,10 +1114,11 @@ class StabilizerCode():
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Block Operator
                         current_logical = (logical_z[which_logical_op] +
                                            logical_x[which_logical_op]) % 2
+                    else:  # Identity
+                        continue
 
                     # Get the range of qubits that it acts on.
-                    # TODO: should this be n or m.
-                    range_qubits = (n * which_block, n * (which_block + 1))
+                    range_qubits = (m * which_block, m * (which_block + 1))
 
                     new_gen_x[range_qubits[0]: range_qubits[1]] = \
                         (new_gen_x[range_qubits[0]: range_qubits[1]] + current_logical[:m]) % 2
-- 
2.43.0


From db505ca0a768b0dba1e865127dcd67b394bb7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 24/42] fix: correcting kraus operators of sparse Pauli errors

---
 PyQCodes/codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 123acc4..8318d56 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -345,7 +345,7 @@ class StabilizerCode():
                 error_p = error.dot(p)
 
                 # Check if they are anti-commuting.
-                if np.all(abs(error_p + p_error) < 1e-5):
+                if abs(error_p + p_error).max() < 1e-5:
                     # Append stabilier multipled by error for entire error-correcting procedure.
                     kraus.append(p.dot(error))
                     found_decoder = True  # Error is correctable.
-- 
2.43.0


From 20c3f7fc9965e12c6cc5a89ec2fe6f7f8a13b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 25/42] fix: effective channel with sparse Pauli errors

---
 PyQCodes/find_codes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index c4ca605..c09af53 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -163,7 +163,10 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     encoder = stab.encode_krauss_operators()
 
     # Get the kraus operators for the stabilizers that anti-commute with each kraus operator.
-    kraus = stab.kraus_operators_correcting_errors(error_chan.krauss.nth_kraus_ops, sparse=sparse)
+    errors = error_chan.krauss.nth_kraus_ops
+    if sparse:
+        errors = [error.tocsr() for error in errors]
+    kraus = stab.kraus_operators_correcting_errors(errors, sparse=sparse)
     # Multiply by the encoder to get the full approximate error-correcting.
     kraus = [x.dot(encoder) for x in kraus]
 
-- 
2.43.0


From edf808e5b0dbbffae1d18c7099ab85fedc43f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 26/42] fix: effective channel of codes with more than one
 logical qubit

---
 PyQCodes/find_codes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index c09af53..b1700cb 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -155,8 +155,9 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     # Set up the objects, stabilizer code, pauli-channel error, respectively.
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
 
-    # Figure out the dimensions of channel later.
-    error_chan = AnalyticQChan(pauli_errors, [1, 1], 2, 2, sparse=sparse)
+    # The channel acts on k qubits.
+    numb_qubits = [code_param[1], code_param[1]]
+    error_chan = AnalyticQChan(pauli_errors, numb_qubits, 2, 2, sparse=sparse)
     error_chan.krauss.update_kraus_operators(code_param[0] // code_param[1])
 
     # Get Kraus Operator for encoder.
@@ -175,7 +176,7 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
 
     # Solve the objective function
     if optimize == "coherent":
-        result = total_chan.optimize_coherent(n=1, rank=2,
+        result = total_chan.optimize_coherent(n=1, rank=2**code_param[1],
                                               optimizer="slsqp", param="overparam",
                                               lipschitz=25, use_pool=3, maxiter=250)
     else:
-- 
2.43.0


From 28e7ef9747a6dee8fc80d4c8f877444c2417dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 27/42] fix: effective channel uses the options provided for
 the optimization

---
 PyQCodes/find_codes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index b1700cb..e057cbd 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -150,7 +150,9 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
         raise TypeError("Number of Columns of Pauli error does not match 2**k.")
 
     # Parameters for optimization
-    # TODO: add coherent information parameters.
+    params = {"param": "overparam", "lipschitz": 25, "use_pool": 3, "maxiter": 250}
+    if options is not None:
+        params.update(options)
 
     # Set up the objects, stabilizer code, pauli-channel error, respectively.
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
@@ -177,11 +179,9 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     # Solve the objective function
     if optimize == "coherent":
         result = total_chan.optimize_coherent(n=1, rank=2**code_param[1],
-                                              optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+                                              optimizer="slsqp", **params)
     else:
-        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", **params)
     return result
 
 
-- 
2.43.0


From 759ff8169b42a95abf06833d7edaed781b7ea332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 28/42] fix: optimizing encoder and decoder passes them their
 parameters and maximizes the fidelity

---
 PyQCodes/find_codes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index e057cbd..5eec7d0 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -334,15 +334,16 @@ class QDeviceChannel():
             self.channel(eng, register)
             decoder(eng, register, parameters[nparams_encoder:])
 
-        def objective_func(parameters, eng, register):
-            return self._device.estimate_average_fidelity(total_channel, ntimes, epsilon)
+        def objective_func(parameters):
+            # Minimizing the negative maximizes the average fidelity.
+            return -self._device.estimate_average_fidelity(
+                lambda eng, register: total_channel(eng, register, parameters), ntimes, epsilon)
 
         if optimizer == "diffev":
-            result = differential_evolution(objective_func, bounds=bounds, maxiter=maxiter,
-                                            args=(self.eng, self.register))
+            result = differential_evolution(objective_func, bounds=bounds, maxiter=maxiter)
         else:
             raise ValueError("Does not recognize optimizer: " + str(optimizer))
 
         output = {"success" : result["success"], "params_encoder": result["x"][:nparams_encoder],
-                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": result["fun"]}
+                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": -result["fun"]}
         return output
-- 
2.43.0


From 94737c60cecdba99af77342ea4025de72a2564a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 29/42] fix: the recovery found by the decoder optimization
 maps n qubits to k qubits

---
 PyQCodes/avgfid/avg_fidelity.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index e58f104..6d29464 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -96,7 +96,8 @@ def optimize_decoder_stabilizers(stabilizer, code_param, kraus_chan, sparse=Fals
     else:
         kraus_chan = [x.dot(encoder) for x in error_chan.nth_kraus_operators]
 
-    numb_qubits = [code_param[1], code_param[0]]
+    # The recovery maps n qubits to k qubits.
+    numb_qubits = [code_param[0], code_param[1]]
     dim_in, dim_out = 2, 2
     result = _optimize_average_entang_fid(kraus_chan, numb_qubits, dim_in, dim_out, options=options)
     return result
@@ -202,6 +203,9 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
     P.add_constraint(X >> 0)
     P.add_constraint(pic.partial_trace(X, *args) == 'I')
 
+    # Dimension of the maximally mixed state that the fidelity is evaluated on.
+    dim_state = input_dim if encoder else dim_out ** numb_qubits[1]
+
     # Get choi-matrix of the kraus operators on the identity matrix using column-vectorization.
     print(type(krauss), issparse(krauss[0]), type(krauss[0]), isspmatrix_coo(krauss[0]))
     if issparse(krauss[0]):  # If kraus operators are already sparse.
@@ -210,10 +214,10 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
         print(type(krauss[0]))
         C_e_sparse = sum([np.outer(k.conj().reshape((np.prod(k.shape), 1), order="F"),
                                    k.conj().reshape((np.prod(k.shape), 1), order="F"))
-                          for k in krauss]) / input_dim**2
+                          for k in krauss]) / dim_state**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
-                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / input_dim**2
+                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / dim_state**2
         C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
 
     # Set up objective function as average fidelity wrt to maximally mixed state ensemble.
-- 
2.43.0


From 02c2564dd7dc7c5748d65ed959cc5417d37fd5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 30/42] fix: objective of the decoder optimization for complex
 kraus operators

---
 PyQCodes/avgfid/avg_fidelity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index 6d29464..e69775c 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -217,7 +217,7 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
                           for k in krauss]) / dim_state**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
-                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / dim_state**2
+                            np.ravel(k.T, order="F")) for k in krauss]) / dim_state**2
         C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
 
     # Set up objective function as average fidelity wrt to maximally mixed state ensemble.
-- 
2.43.0


From 96b56e4ecb6189c379cdb14824532dd68964d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 31/42] fix: decoder optimization with sparse kraus operators

---
 PyQCodes/avgfid/avg_fidelity.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index e69775c..b15a687 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -212,9 +212,8 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
         print("The size is ", krauss[0].size)
         print(krauss[0].shape)
         print(type(krauss[0]))
-        C_e_sparse = sum([np.outer(k.conj().reshape((np.prod(k.shape), 1), order="F"),
-                                   k.conj().reshape((np.prod(k.shape), 1), order="F"))
-                          for k in krauss]) / dim_state**2
+        vectors = [k.conj().T.reshape((np.prod(k.shape), 1), order="F") for k in krauss]
+        C_e_sparse = sum([v.dot(v.conj().T) for v in vectors]) / dim_state**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
                             np.ravel(k.T, order="F")) for k in krauss]) / dim_state**2
-- 
2.43.0


From df36ab1c6bfb39cd0925db3950cd7997d697c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 32/42] fix: decoder optimization of codes with more than one
 logical qubit

---
 PyQCodes/avgfid/avg_fidelity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index b15a687..15a65c8 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -84,7 +84,7 @@ def optimize_decoder_stabilizers(stabilizer, code_param, kraus_chan, sparse=Fals
     """
     # Set up stabilizer code, pauli-channel error and update the channel to match encoder.
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
-    error_chan = AnalyticQChan(kraus_chan, [1, 1], 2, 2, sparse=sparse)
+    error_chan = AnalyticQChan(kraus_chan, [code_param[1], code_param[1]], 2, 2, sparse=sparse)
     error_chan.krauss.update_kraus_operators(code_param[0] // code_param[1])
 
     # Get Kraus Operator for encoder.
-- 
2.43.0


From 4485340d3c7662c7991dcc24914b36b8928ea681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 33/42] fix: kraus operators and choi matrices given as arrays
 are copied, as documented

---
 PyQCodes/chan/_choi.py  | 2 +-
 PyQCodes/chan/_kraus.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index bbb6a2a..82cb650 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -127,7 +127,7 @@ class ChoiQutip():
             of the choi matrix.
 
         """
-        self.choi = choi_matrix
+        self.choi = np.array(choi_matrix)
         self._num_in = numb_qubits[0]
         self._num_out = numb_qubits[1]
         # Dimension of input/output Hilbert space.
diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 5bfc1da..4c40e9e 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -704,7 +704,7 @@ class DenseKraus(Kraus):
         if not isinstance(kraus_ops, (list, np.ndarray)):
             raise TypeError("Kraus operators should be a list or numpy array.")
         # Store a copy of the single kraus operators.
-        self.kraus_ops = kraus_ops
+        self.kraus_ops = np.array(kraus_ops)
         if isinstance(kraus_ops, list):
             self.kraus_ops = np.array(kraus_ops, dtype=np.complex128)
         self._orthogonal_kraus = orthogonal_kraus
-- 
2.43.0


From 4383c395066b1dd5208482c09cb3740222fcfd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 34/42] fix: fidelity of singular states, such as pure states,
 is computed accurately

---
 PyQCodes/chan/channel.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 5614364..bc4d625 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -29,7 +29,6 @@ from PyQCodes.chan._choi import ChoiQutip
 from PyQCodes.chan._coherent import optimize_procedure
 
 import numpy as np
-from scipy.linalg import sqrtm
 from sparse import SparseArray
 
 r"""
@@ -39,6 +38,12 @@ Contains AnalyticQChan: Representing Quantum Channels Modeled as Kraus Operators
 __all__ = ["AnalyticQChan"]
 
 
+def _sqrt_psd(mat):
+    r"""Square root of a positive-semidefinite, hermitian matrix, which can be singular."""
+    eigs, evecs = np.linalg.eigh(np.asarray(mat))
+    return (evecs * np.sqrt(np.maximum(eigs, 0.))).dot(np.conj(evecs).T)
+
+
 class AnalyticQChan():
     r"""
     Class of Analytic Quantum Channel represented as either Kraus Operators or a Choi Matrix.
@@ -392,8 +397,8 @@ class AnalyticQChan():
 
         """
         chan = self.channel(rho, n)
-        sqrt_rho = sqrtm(rho)
-        fidel = np.trace(sqrtm(sqrt_rho.dot(chan).dot(sqrt_rho)))
+        sqrt_rho = _sqrt_psd(rho)
+        fidel = np.trace(_sqrt_psd(sqrt_rho.dot(chan).dot(sqrt_rho)))
         assert np.abs(np.imag(fidel)) < 1e-5
         return np.real(fidel)
 
-- 
2.43.0


From 5c814069dc2948664bcefbf7636f9638a5d8ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 35/42] fix: complementary channel of a Choi matrix at singular
 states

---
 PyQCodes/chan/_choi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index 82cb650..664d13f 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -25,7 +25,6 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 import numpy as np
-from scipy.linalg import sqrtm
 
 from qutip import Qobj, ptrace
 
@@ -225,7 +224,9 @@ class ChoiQutip():
             Quantum Channel." PhD diss., 2015.
         """
         # Follows from Tong's Thesis, Bei's Student.
-        square_root = sqrtm(rho)
+        eigenvalues, eigenvectors = np.linalg.eigh(rho)
+        scaled = eigenvectors * np.sqrt(np.maximum(eigenvalues, 0.))
+        square_root = scaled.dot(np.conj(eigenvectors).T)
         tensored = np.kron(square_root.T, np.eye(self.output_dim))
         return tensored.dot(self.choi).dot(tensored)
 
-- 
2.43.0


From 06b4d0bfa69147feff9c08476c0d25f674865880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:42 +0000
Subject: [PATCH 36/42] fix: Pauli strings of different lengths are not
 truncated to a stabilizer code

---
 PyQCodes/codes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 8318d56..2aa5168 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -168,6 +168,8 @@ class StabilizerCode():
         """
         if isinstance(stabilizer_group[0], str):
             # Convert from string to binary representations.
+            assert all(len(x) == n for x in stabilizer_group), "Stabilizer should match " \
+                                                               "parameter n."
             stabilizer_group = StabilizerCode.pauli_str_to_binary_representation(stabilizer_group)
         elif isinstance(stabilizer_group[0], (list, np.ndarray)):
             stabilizer_group = np.array(stabilizer_group)
-- 
2.43.0


From e913e44a10b216c6f94ad56245da29ea50a886c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 37/42] fix: decoding with ancilla bits of the register returns
 every qubit once

---
 PyQCodes/codes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 2aa5168..c55948f 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -633,6 +633,9 @@ class StabilizerCode():
                 register_ancilla = register[self.n:]
                 del register[:self.n]
             return register_ancilla
+        if not add_ancilla_bits:
+            # The ancilla bits are already in the register.
+            return register
         return register + register_ancilla
 
     def logical_circuit(self, eng, register, pauli_op):
-- 
2.43.0


From d08a76568b4ad4fc0f56829ead9eac77e80dcc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 38/42] fix: Pauli errors of small probability that commute
 with the stabilizers are kept

---
 PyQCodes/codes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index c55948f..1618660 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -346,8 +346,8 @@ class StabilizerCode():
                 p_error = p.dot(error)
                 error_p = error.dot(p)
 
-                # Check if they are anti-commuting.
-                if abs(error_p + p_error).max() < 1e-5:
+                # Check if they are anti-commuting, whatever the size of the error is.
+                if abs(error_p + p_error).max() < 1e-5 * abs(error).max():
                     # Append stabilier multipled by error for entire error-correcting procedure.
                     kraus.append(p.dot(error))
                     found_decoder = True  # Error is correctable.
-- 
2.43.0


From 42ccd8251ab23e4cb1780781f330c492dc5eb5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 39/42] fix: decoder optimization states the trace preserving
 constraint once per entry, so that the solver converges

---
 PyQCodes/avgfid/avg_fidelity.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index 15a65c8..b59fcdd 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -201,7 +201,14 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
 
     # Add constraints that choi matrix is positive-definite and trace-perserving, respecively.
     P.add_constraint(X >> 0)
-    P.add_constraint(pic.partial_trace(X, *args) == 'I')
+    # The partial trace is hermitian: each entry is constrained once, as the solver does not converge
+    # with redundant constraints.
+    trace = pic.partial_trace(X, *args)
+    for i in range(trace.size[0]):
+        P.add_constraint(trace[i, i].real == 1.)
+        for j in range(i):
+            P.add_constraint(trace[i, j].real == 0.)
+            P.add_constraint(trace[i, j].imag == 0.)
 
     # Dimension of the maximally mixed state that the fidelity is evaluated on.
     dim_state = input_dim if encoder else dim_out ** numb_qubits[1]
-- 
2.43.0


From 02109048bf70800e95200a4c53ef20e948c675d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:26 +0000
Subject: [PATCH 40/42] fix: channels from Choi matrices accept stacks of
 density matrices

---
 PyQCodes/chan/_choi.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index 664d13f..c682545 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -26,7 +26,7 @@ THE SOFTWARE.
 """
 import numpy as np
 
-from qutip import Qobj, ptrace
+from qutip import Qobj
 
 
 __all__ = ["ChoiQutip"]
@@ -195,13 +195,11 @@ class ChoiQutip():
         if adjoint:
             # Entry (j, i) of the adjoint is the trace of \Phi(\ketbra{i}{j}) times rho.
             shape = (self.input_dim, self.output_dim, self.input_dim, self.output_dim)
-            return np.einsum("iajb,ba->ji", np.reshape(self.choi, shape), rho)
+            return np.einsum("iajb,...ba->...ji", np.reshape(self.choi, shape), rho)
 
-        # Definition is taken from John Watrous.
-        choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
-
-        # Keep the output system when doing partial trace
-        return ptrace(Qobj(choi_rho, dims=self.dim), [1]).data.todense()
+        # Definition is taken from John Watrous, the partial trace is over the input system.
+        shape = (self.input_dim, self.output_dim, self.input_dim, self.output_dim)
+        return np.einsum("iajb,...ij->...ab", np.reshape(self.choi, shape), rho)
 
     def complementary_channel(self, rho):
         r"""
-- 
2.43.0


From 93ab83b60be62d3d5c43f9079aa53c64561622cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:02 +0000
Subject: [PATCH 41/42] fix: reject every non-binary vector when it is turned
 into a Pauli string

A vector such as [1, 2] was read as "X" although the function raises
RuntimeError for other vectors that are not binary.
---
 PyQCodes/codes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 1618660..01d84ae 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1166,9 +1166,9 @@ class StabilizerCode():
                 pauli += "Y"
             elif x == 0 and z == 0:
                 pauli += "I"
-            elif x == 1:
+            elif x == 1 and z == 0:
                 pauli += "X"
-            elif z == 1:
+            elif x == 0 and z == 1:
                 pauli += "Z"
             else:
                 raise RuntimeError("Binary Representation is not correct.")
-- 
2.43.0


From 1a2c4489673deb856f3465625bb01b232cce0194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:16 +0000
Subject: [PATCH 42/42] fix: parallel concatenation with a channel given by its
 Choi matrix

A * B read the dimensions of B from its Kraus object, which a channel made
from a Choi matrix does not have, although A + B accepts such a channel.
---
 PyQCodes/chan/channel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index bc4d625..865dfae 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -357,8 +357,9 @@ class AnalyticQChan():
         else:
             new_kraus_ops = DenseKraus.parallel_concatenate(self.kraus, other.kraus)
         numb_qubits = [1, 1]
-        dim_in = self.krauss.input_dim * other.krauss.input_dim
-        dim_out = self.krauss.output_dim * other.krauss.output_dim
+        single = other.krauss if other._type == "kraus" else other.choi  # Dimensions of one use.
+        dim_in = self.krauss.input_dim * single.input_dim
+        dim_out = self.krauss.output_dim * single.output_dim
         return AnalyticQChan(new_kraus_ops, numb_qubits, dim_in, dim_out, sparse=issparse)
 
     def _is_qubit_channel(self):
-- 
2.43.0

