From 526d7f692e050729775e400493646fe2472d2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 01/36] fix: minimize_vrtos works on a floating-point copy of
 x0

---
 copt/randomized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 21f7981..570fb73 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -494,6 +494,7 @@ def minimize_vrtos(
     else:
         blocks_2 = sparse.eye(n_features, n_features, format="csr")
 
+    x0 = np.array(x0, dtype=float)
     Y = np.zeros((2, x0.size))
     z = x0.copy()
 
-- 
2.43.0


From ceab4015b7ddee5a6638c1bbe3e44d4e57320786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 02/36] fix: solvers convert the starting point to floating
 point

---
 copt/proximal_gradient.py | 4 ++--
 copt/randomized.py        | 4 ++--
 copt/splitting.py         | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index b7acfc3..506eff7 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -109,7 +109,7 @@ def minimize_proximal_gradient(
   Examples:
     * :ref:`sphx_glr_auto_examples_plot_group_lasso.py`
   """
-    x = np.asarray(x0).flatten()
+    x = np.asarray(x0, dtype=float).flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
@@ -127,7 +127,7 @@ def minimize_proximal_gradient(
 
     # find initial step-size
     if step == "backtracking":
-        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x0)
+        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x)
     else:
         # to avoid step_size being undefined upon return
         step_size = None
diff --git a/copt/randomized.py b/copt/randomized.py
index 570fb73..4730035 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -130,7 +130,7 @@ def minimize_saga(
     # convert any input to CSR sparse matrix representation. In the future we
     # might want to implement also a version for dense data (numpy arrays) to
     # better exploit data locality
-    x = np.ascontiguousarray(x0).copy()
+    x = np.ascontiguousarray(x0, dtype=float).copy()
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -305,7 +305,7 @@ def minimize_svrg(
       for Composite Optimization." Advances in Neural Information
       Processing Systems (NIPS) 2017.
     """
-    x = np.ascontiguousarray(x0).copy()
+    x = np.ascontiguousarray(x0, dtype=float).copy()
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
diff --git a/copt/splitting.py b/copt/splitting.py
index c8ca10a..3e6705d 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -100,6 +100,7 @@ def minimize_three_split(
       International Conference on Machine Learning, 2018.
     """
     success = False
+    x0 = np.asarray(x0, dtype=float)
     if not max_iter_backtracking > 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
@@ -249,7 +250,7 @@ def minimize_primal_dual(
         involving Lipschitzian, proximable and linear composite terms." Journal of
         Optimization Theory and Applications (2013).
     """
-    x = np.array(x0, copy=True)
+    x = np.array(x0, dtype=float, copy=True)
     n_features = x.size
 
     if L is None:
-- 
2.43.0


From 2eaa78b72d487fd583ae8259c0f04e84a7f68551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 03/36] fix: operators do not truncate integer input

---
 copt/constraint.py | 4 ++--
 copt/penalty.py    | 2 +-
 copt/tv_prox.py    | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index c6990ac..bbe52ab 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -119,7 +119,7 @@ class L1Ball:
         largest_coordinate = np.argmax(abs_u)
         sign = np.sign(u[largest_coordinate])
 
-        update_direction = -x.copy()
+        update_direction = -np.asarray(x, dtype=float)
         update_direction[largest_coordinate] += self.alpha * sign
 
         # Only useful for active_set management in pairwise FW
@@ -182,7 +182,7 @@ class SimplexConstraint:
     """
         largest_coordinate = np.argmax(u)
 
-        update_direction = -x.copy()
+        update_direction = -np.asarray(x, dtype=float)
         update_direction[largest_coordinate] += self.s * np.sign(
             u[largest_coordinate]
         )
diff --git a/copt/penalty.py b/copt/penalty.py
index b9774f3..9b378ae 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -79,7 +79,7 @@ class GroupL1:
         return self.alpha * np.sum([np.linalg.norm(x[g]) for g in self.groups])
 
     def prox(self, x, step_size):
-        out = x.copy()
+        out = np.array(x, dtype=float)
         for g in self.groups:
 
             norm = np.linalg.norm(x[g])
diff --git a/copt/tv_prox.py b/copt/tv_prox.py
index 56fff90..ac9bef6 100644
--- a/copt/tv_prox.py
+++ b/copt/tv_prox.py
@@ -140,7 +140,7 @@ def _prox_tv1d(step_size, input, output):
 def prox_tv1d_cols(stepsize, a, n_rows, n_cols):
     """apply prox_tv1d along columns of the matri a
     """
-    A = a.reshape((n_rows, n_cols))
+    A = a.reshape((n_rows, n_cols)).astype(np.float64)
     out = np.empty_like(A)
     for i in range(n_cols):
         _prox_tv1d(stepsize, A[:, i], out[:, i])
@@ -151,7 +151,7 @@ def prox_tv1d_cols(stepsize, a, n_rows, n_cols):
 def prox_tv1d_rows(stepsize, a, n_rows, n_cols):
     """apply prox_tv1d along rows of the matri a
     """
-    A = a.reshape((n_rows, n_cols))
+    A = a.reshape((n_rows, n_cols)).astype(np.float64)
     out = np.empty_like(A)
     for i in range(n_rows):
         _prox_tv1d(stepsize, A[i, :], out[i, :])
-- 
2.43.0


From 26e32bebb40d491336b6d803f6707e1ca115770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 04/36] fix: euclidean_proj_simplex uses numpy.all

---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index bbe52ab..fa9e9a2 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -219,7 +219,7 @@ def euclidean_proj_simplex(v, s=1.0):
     assert s > 0, "Radius s must be strictly positive (%d <= 0)" % s
     (n,) = v.shape  # will raise ValueError if v is not 1-D
     # check if we are already on the simplex
-    if v.sum() == s and np.alltrue(v >= 0):
+    if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-- 
2.43.0


From 0f5ccf2250c0ff9e09ae2cadffd41fda8ec2184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 05/36] fix: dataset loaders use the builtin int and do not
 import scipy.misc

---
 copt/datasets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 806492a..3d8104c 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -6,7 +6,6 @@ import urllib.request
 import tarfile
 
 import numpy as np
-from scipy import misc
 from scipy import sparse
 
 try:
@@ -242,7 +241,7 @@ def load_url(md5_check=True):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
@@ -404,7 +403,7 @@ def load_kdd12(md5_check=True, verbose=0):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
-- 
2.43.0


From 35c42f277fc783e5c4bc8141cf08b58aa3b65d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 06/36] fix: finite-difference gradients use the public scipy
 routine

---
 copt/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index 7f6be72..594dc87 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -46,7 +46,8 @@ def build_func_grad(jac, fun, args, eps):
 
         def func_and_grad(x):
             f = fun(x, *args)
-            g = optimize._approx_fprime_helper(x, fun, eps, args=args, f0=f)
+            g = optimize.approx_fprime(x, fun, eps, *args)
+            return f, g
 
     else:
 
-- 
2.43.0


From 559dd9c5c6ba8c5cc83dbc2ed8531219ae217a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 07/36] fix: build_func_grad accepts jac=False and rejects
 unknown strings

---
 copt/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copt/utils.py b/copt/utils.py
index 594dc87..8a4f1bd 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -34,13 +34,13 @@ except ImportError:
 
 def build_func_grad(jac, fun, args, eps):
     if not callable(jac):
-        if bool(jac):
+        if isinstance(jac, str) and jac != "2-point":
+            raise ValueError("jac has unexpected value.")
+        elif bool(jac):
             fun = optimize._optimize.MemoizeJac(fun)
             jac = fun.derivative
-        elif jac == "2-point":
-            jac = None
         else:
-            raise NotImplementedError("jac has unexpected value.")
+            jac = None
 
     if jac is None:
 
-- 
2.43.0


From 1135d98a7fba98d455497beffbd0e5bcab1a774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 08/36] fix: solvers return normally with max_iter=0

---
 copt/frank_wolfe.py | 2 ++
 copt/randomized.py  | 5 +++++
 copt/splitting.py   | 3 +++
 copt/tv_prox.py     | 1 +
 4 files changed, 11 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 510df93..983e8da 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -248,6 +248,8 @@ def minimize_frank_wolfe(
     f_t, grad = func_and_grad(x)
     old_f_t = None
 
+    it = 0
+    certificate = np.inf
     for it in range(max_iter):
         update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad, x, active_set)
         norm_update_direction = linalg.norm(update_direction) ** 2
diff --git a/copt/randomized.py b/copt/randomized.py
index 4730035..c9ba7eb 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -210,6 +210,7 @@ def minimize_saga(
     success = False
     if callback is not None:
         callback(locals())
+    it = 0
     for it in range(max_iter):
         x_old = x.copy()
         np.random.shuffle(idx)
@@ -391,6 +392,7 @@ def minimize_svrg(
     success = False
     if callback is not None:
         callback(locals())
+    it = 0
     for it in range(max_iter):
         x_snapshot = x.copy()
         gradient_average = full_grad(x_snapshot)
@@ -542,6 +544,8 @@ def minimize_vrtos(
     # .. iterate on epochs ..
     if callback is not None:
         callback(locals())
+    it = 0
+    certificate = np.inf
     for it in range(max_iter):
         epoch_iteration(
             Y,
@@ -868,6 +872,7 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
         active_set[x0_rep] = 1.
 
     step = 0
+    it = 0
 
     # Perform an epoch
     for it in range(max_iter):
diff --git a/copt/splitting.py b/copt/splitting.py
index 3e6705d..72162ca 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -125,6 +125,8 @@ def minimize_three_split(
     x = prox_1(z - step_size * grad_fk, step_size, *args_prox)
     u = np.zeros_like(x)
 
+    it = 0
+    certificate = np.inf
     for it in range(max_iter):
 
         fk, grad_fk = f_grad(z)
@@ -292,6 +294,7 @@ def minimize_primal_dual(
     norm_incr = np.inf
     x_next = x.copy()
 
+    it = 0
     for it in range(max_iter):
         y_next = prox_2_conj(y + tau * L.matvec(x), tau)
         if line_search:
diff --git a/copt/tv_prox.py b/copt/tv_prox.py
index ac9bef6..b7fc197 100644
--- a/copt/tv_prox.py
+++ b/copt/tv_prox.py
@@ -168,6 +168,7 @@ def c_prox_tv2d(step_size, x, n_rows, n_cols, max_iter, tol):
     p = np.zeros(n_features)
     q = np.zeros(n_features)
 
+    accuracy = np.inf
     for it in range(max_iter):
         y = x + p
         y = prox_tv1d_cols(step_size, y, n_rows, n_cols)
-- 
2.43.0


From e7f210273a77f5d49e35b88b5a125c42e713ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 09/36] fix: minimize_sfw accepts a callable step_size and
 rejects unknown ones

---
 copt/randomized.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index c9ba7eb..636f0e0 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -861,8 +861,13 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
     elif step_size == 'DR':
         if lipschitz is None:
             raise ValueError('lipschitz needs to be specified with step_size="DR"')
+        if variant not in {'SAG', 'SAGA'}:
+            raise ValueError('step_size="DR" is not available for variant %s' % variant)
         step_size_fun = step_size_DR
-
+    elif callable(step_size):
+        step_size_fun = step_size
+    else:
+        raise ValueError("Invalid option step_size=%s" % step_size)
 
     if lmo_variant == 'vanilla':
         active_set = None
-- 
2.43.0


From 05b0e44450787ce16339f21cb4e98b874b17904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 10/36] fix: SimplexConstraint.lmo follows the oracle protocol
 and returns a vertex of the simplex

---
 copt/constraint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index fa9e9a2..9495b26 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -176,16 +176,14 @@ class SimplexConstraint:
     def prox(self, x, step_size):
         return euclidean_proj_simplex(x, self.s)
 
-    def lmo(self, u, x):
+    def lmo(self, u, x, active_set=None):
         """Return v - x, s solving the linear problem
     max_{||v||_1 <= s, v >= 0} <u, v>
     """
         largest_coordinate = np.argmax(u)
 
         update_direction = -np.asarray(x, dtype=float)
-        update_direction[largest_coordinate] += self.s * np.sign(
-            u[largest_coordinate]
-        )
+        update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
 
-- 
2.43.0


From 9acf24a21613f3ab9d50e066f90fb302cc38f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 11/36] fix: L1Ball.lmo returns a vertex for a zero direction

---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 9495b26..3eda4d9 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -117,7 +117,7 @@ class L1Ball:
         """
         abs_u = np.abs(u)
         largest_coordinate = np.argmax(abs_u)
-        sign = np.sign(u[largest_coordinate])
+        sign = np.copysign(1., u[largest_coordinate])
 
         update_direction = -np.asarray(x, dtype=float)
         update_direction[largest_coordinate] += self.alpha * sign
-- 
2.43.0


From c8917d0aab861e47e940bdba939eb3f4aa5f729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 12/36] fix: minimize_primal_dual line search is bounded by
 max_iter_ls and measures the step in x

---
 copt/splitting.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 72162ca..f9cdfb6 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -299,23 +299,27 @@ def minimize_primal_dual(
         y_next = prox_2_conj(y + tau * L.matvec(x), tau)
         if line_search:
             tau_next = tau * (1 + np.sqrt(1 + theta)) / 2
-            while True:
+            for _ in range(max_iter_ls):
                 theta = tau_next / tau
                 sigma = ss_ratio * tau_next
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-                incr_x = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
+                incr_x = np.linalg.norm(x_next - x)
+                incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
                 if incr_x <= 1e-10:
                     break
 
-                tmp = (sigma * tau_next) * (incr_x ** 2)
+                tmp = (sigma * tau_next) * (incr_Lx ** 2)
                 tmp += 2 * sigma * (f_next - fk - grad_fk.dot(x_next - x))
                 if tmp / delta <= (incr_x ** 2):
                     tau = tau_next
                     break
                 else:
                     tau_next *= 0.9
+            else:
+                tau = theta * tau
+                warnings.warn("Maximum number of line-search iterations reached")
         else:
             y_bar = 2 * y_next - y
             x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-- 
2.43.0


From f15834e3e50b80f4dd8cdbdf1ad132ef7967d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 13/36] fix: minimize_primal_dual warns when the iteration
 budget is exhausted

---
 copt/splitting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index f9cdfb6..a1278ce 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -339,10 +339,9 @@ def minimize_primal_dual(
         if callback is not None:
             if callback(locals()) is False:
                 break
-
-    if it >= max_iter:
+    else:
         warnings.warn(
-            "proximal_gradient did not reach the desired tolerance level",
+            "minimize_primal_dual did not reach the desired tolerance level",
             RuntimeWarning,
         )
 
-- 
2.43.0


From 0155fbaa870168309362957df4a42bf795ac5482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 14/36] fix: minimize_proximal_gradient warns exactly when its
 budget is exhausted

---
 copt/proximal_gradient.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 506eff7..0dbb884 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -187,14 +187,13 @@ def minimize_proximal_gradient(
                 break
 
             if n_iterations >= max_iter:
+                warnings.warn(
+                    "minimize_proximal_gradient did not reach the desired tolerance level",
+                    RuntimeWarning,
+                )
                 break
             else:
                 n_iterations += 1
-        else:
-            warnings.warn(
-                "minimize_proximal_gradient did not reach the desired tolerance level",
-                RuntimeWarning,
-            )
     else:
         tk = 1
         # .. a while loop instead of a for loop ..
@@ -262,16 +261,14 @@ def minimize_proximal_gradient(
                 break
 
             if n_iterations >= max_iter:
+                warnings.warn(
+                    "minimize_proximal_gradient did not reach the desired tolerance level",
+                    RuntimeWarning,
+                )
                 break
             else:
                 n_iterations += 1
 
-        if n_iterations >= max_iter:
-            warnings.warn(
-                "minimize_proximal_gradient did not reach the desired tolerance level",
-                RuntimeWarning,
-            )
-
     return optimize.OptimizeResult(
         x=x,
         success=success,
-- 
2.43.0


From 11ed79d015f04edde06a433a6b92dfc3cd9bfe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 15/36] fix: proximal gradient evaluates the point it keeps
 after an exhausted line search

---
 copt/proximal_gradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 0dbb884..ba844d2 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -168,6 +168,7 @@ def minimize_proximal_gradient(
                         x_next = prox(x - step_size * grad_fk, step_size)
                         update_direction = x_next - x
                 else:
+                    f_next, grad_next = func_and_grad(x_next)
                     warnings.warn("Maxium number of line-search iterations reached")
             elif step == "fixed":
                 x_next = prox(x - step_size * grad_fk, step_size)
-- 
2.43.0


From f8f0f50f9a508178b7fa06132d1dc334407c94fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 16/36] fix: accelerated proximal gradient rejects unknown
 steps and records certificates for callable steps

---
 copt/proximal_gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index ba844d2..7b9ff3d 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -221,6 +221,8 @@ def minimize_proximal_gradient(
                     current_step_size,
                 )
                 certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                if trace_certificate:
+                    certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
 
@@ -257,6 +259,9 @@ def minimize_proximal_gradient(
                 tk = t_next
                 x = x_next.copy()
 
+            else:
+                raise ValueError("Step-size strategy not understood")
+
             if certificate < tol:
                 success = True
                 break
-- 
2.43.0


From 17868118ce05c5b931e46a59b6b11e42c57294c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 17/36] fix: minimize_frank_wolfe reports success

---
 copt/frank_wolfe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 983e8da..d84b448 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -240,6 +240,7 @@ def minimize_frank_wolfe(
 
     lipschitz_t = None
     step_size = None
+    success = False
     if lipschitz is not None:
         lipschitz_t = lipschitz
 
@@ -266,6 +267,7 @@ def minimize_frank_wolfe(
             print("Estimated L_t = %s" % lipschitz_t)
 
         if certificate <= tol:
+            success = True
             break
         if hasattr(step, "__call__"):
             step_size = step(locals())
@@ -307,5 +309,5 @@ def minimize_frank_wolfe(
         f_t, grad = f_next, grad_next
     if callback is not None:
         callback(locals())
-    return optimize.OptimizeResult(x=x, nit=it, certificate=certificate,
+    return optimize.OptimizeResult(x=x, success=success, nit=it, certificate=certificate,
                                    active_set=active_set)
-- 
2.43.0


From bf46a311af0aabfb96f5a51dda71d42d8e6c1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 18/36] fix: minimize_vrtos exposes its iterate to the callback

---
 copt/randomized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 636f0e0..d30fb18 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -526,6 +526,7 @@ def minimize_vrtos(
     memory_gradient = np.zeros(n_samples)
     gradient_average = np.zeros(n_features)
     x1 = x0.copy()
+    x = z  # name under which callbacks see the iterate
     grad_tmp = np.zeros(n_features)
 
     # warm up for the JIT
-- 
2.43.0


From 3bb53be2495171d461811367cc14f2c16787daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 19/36] fix: minimize_sfw stops once its tolerance is reached

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index d30fb18..7f78cac 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -947,5 +947,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             i += batch_size
             step += 1
 
+        if success:
+            break
+
     message = ""
     return optimize.OptimizeResult(x=x, success=success, nit=it, message=message)
-- 
2.43.0


From d5b778e26da609216cb44301c5b432e66337ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 20/36] fix: update_active_set does not bring a dropped vertex
 back

---
 copt/frank_wolfe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index d84b448..f146cc6 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -105,7 +105,7 @@ def update_active_set(active_set,
     if active_set[away_vertex_rep] == 0.:
         # drop step: remove vertex from active set
         del active_set[away_vertex_rep]
-    if active_set[away_vertex_rep] < 0.:
+    elif active_set[away_vertex_rep] < 0.:
         raise ValueError(f"The step size used is too large. "
                          f"{step_size: .3f} vs. {max_step_size:.3f}")
 
-- 
2.43.0


From 3f6e8071cb37c44331d4e9a322a26652b19997ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 21/36] fix: Demyanov-Rubinov step of the stochastic solver is
 never negative

---
 copt/randomized.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 7f78cac..75cb371 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -728,8 +728,9 @@ def step_size_sfw(variant):
 def step_size_DR(kwargs):
     norm_update_direction = (kwargs['update_direction'] ** 2).sum()
     lipschitz = kwargs['lipschitz']
-    return min(kwargs['certificate'] / (norm_update_direction * lipschitz),
-               kwargs['max_step_size']), None
+    step_size = kwargs['certificate'] / (norm_update_direction * lipschitz)
+    # the direction may come from another gradient estimate than the certificate
+    return max(0., min(step_size, kwargs['max_step_size'])), None
 
 
 
-- 
2.43.0


From 7cb2dbd3adadd325b297b7e0b7588cebdf03f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 22/36] fix: minimize_svrg cleans its scratch gradient after
 each sample

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 75cb371..52d5b26 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -387,6 +387,9 @@ def minimize_svrg(
                     x[b_j] -= step_size * (grad_tmp[b_j] + bias_term)
             prox(x, i, bs_indices, bs_indptr, d, step_size)
 
+            for j in range(A_indptr[i], A_indptr[i + 1]):
+                grad_tmp[A_indices[j]] = 0
+
     idx = np.arange(n_samples)
     grad_tmp = np.zeros(n_features)
     success = False
-- 
2.43.0


From 791afde39bf97f7fca13217ac65af7eabb8f4451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 23/36] fix: block supports and group blocks keep their
 trailing empty columns

---
 copt/penalty.py    |  4 +++-
 copt/randomized.py | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/copt/penalty.py b/copt/penalty.py
index 9b378ae..8c1d248 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -116,7 +116,9 @@ class GroupL1:
             block_pointer += 1
 
         B_indptr = B_indptr[: block_pointer + 1]
-        B = sparse.csr_matrix((B_data, B_indices, B_indptr))
+        B = sparse.csr_matrix(
+            (B_data, B_indices, B_indptr), shape=(block_pointer, n_features)
+        )
         alpha = self.alpha
 
         @njit
diff --git a/copt/randomized.py b/copt/randomized.py
index 52d5b26..28d64db 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -160,7 +160,9 @@ def minimize_saga(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -336,7 +338,9 @@ def minimize_svrg(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -588,13 +592,17 @@ def _factory_sparse_vrtos(
     bs_1_data, bs_1_indices, bs_1_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_1_indices, blocks_1.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_1_data, bs_1_indices, bs_1_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_1_data, bs_1_indices, bs_1_indptr), shape=(n_samples, blocks_1.shape[0])
+    )
 
     rblocks_2_indices = blocks_2.T.tocsr().indices
     bs_2_data, bs_2_indices, bs_2_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_2_indices, blocks_2.shape[0]
     )
-    csr_blocks_2 = sparse.csr_matrix((bs_2_data, bs_2_indices, bs_2_indptr))
+    csr_blocks_2 = sparse.csr_matrix(
+        (bs_2_data, bs_2_indices, bs_2_indptr), shape=(n_samples, blocks_2.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d1 = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From 530112a4d9e9b289088b3931fccd97ebbcc36e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 24/36] fix: Hessian of the logistic loss counts the
 regularisation once

---
 copt/loss.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index aa37694..558ffe3 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -125,14 +125,15 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
                 ret[:n_features] += s[-1] * dd_intercept
                 ret[-1] = dd_intercept.dot(s[:n_features])
                 ret[-1] += d.sum() * s[-1]
-            return ret / n_samples
+            ret /= n_samples
+            ret[:n_features] += self.alpha * s[:n_features]
+            return ret
 
         return _Hs
 
@@ -165,14 +166,15 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
                 ret[:n_features] += s[-1] * dd_intercept
                 ret[-1] = dd_intercept.dot(s[:n_features])
                 ret[-1] += d.sum() * s[-1]
-            return ret / n_samples
+            ret /= n_samples
+            ret[:n_features] += self.alpha * s[:n_features]
+            return ret
 
         return _Hs
 
-- 
2.43.0


From 53042e1e554ec1f385b416cd4539d2da59e825ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 25/36] fix: LogLoss.f_grad returns the pair with an intercept
 too

---
 copt/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/loss.py b/copt/loss.py
index 558ffe3..0de7ad3 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -92,7 +92,7 @@ class LogLoss:
         grad = np.asarray(grad).ravel()
         grad_c = z0_b.mean()
         if self.intercept:
-            return np.concatenate((grad, [grad_c]))
+            return loss, np.concatenate((grad, [grad_c]))
 
         return loss, grad
 
-- 
2.43.0


From 3ae682c2665a7584a3d1f81ba0d21dc709565f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 26/36] fix: HuberLoss accepts A=None and any sparse format

---
 copt/loss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/loss.py b/copt/loss.py
index 0de7ad3..0a9d69c 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -269,6 +269,10 @@ class HuberLoss:
     """Huber loss"""
 
     def __init__(self, A, b, alpha=0, delta=1):
+        if A is None:
+            A = sparse.eye(b.size, b.size, format="csr")
+        elif sparse.issparse(A):
+            A = A.tocsr()
         self.delta = delta
         self.A = A
         self.b = b
-- 
2.43.0


From ab15d9cfacaee964e368a1716e34f4c13f8da492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 27/36] fix: safe_sparse_add flattens a sparse row added to a
 vector

---
 copt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index 8a4f1bd..c65b5ce 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -68,7 +68,7 @@ def safe_sparse_add(a, b):
         if sparse.issparse(a):
             a = a.toarray()
             if a.ndim == 2 and b.ndim == 1:
-                b.ravel()
+                a = a.ravel()
         elif sparse.issparse(b):
             b = b.toarray()
             if b.ndim == 2 and a.ndim == 1:
-- 
2.43.0


From aaafa10e66f5ac38720b9d63808d6fa910108335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 28/36] fix: load_img1 passes width and height to PIL in its
 order

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 3d8104c..43b3aa0 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -28,7 +28,7 @@ def load_img1(n_rows=20, n_cols=20):
     grid = np.loadtxt(os.path.join(dir_path, "data", "img1.csv"), delimiter=",")
     dim1 = int(np.sqrt(grid.shape[0]))
     grid = grid.reshape((dim1, dim1))
-    img = Image.fromarray(grid).resize((n_rows, n_cols))
+    img = Image.fromarray(grid).resize((n_cols, n_rows))
     return np.array(img)
 
 
-- 
2.43.0


From a3777227cbef68ad87f2c0642200935de160cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 29/36] fix: batches are drawn from NumPy's global generator
 with and without numba

---
 copt/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/copt/utils.py b/copt/utils.py
index c65b5ce..47117a5 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -76,10 +76,9 @@ def safe_sparse_add(a, b):
         return a + b
 
 
-@njit(parallel=True)
 def sample_batches(n_samples, n_batches, batch_size):
     idx = np.zeros(n_batches * batch_size, dtype=np.int32)
-    for k in prange(n_batches):
+    for k in range(n_batches):
         idx[k * batch_size:(k + 1) * batch_size] = np.random.choice(n_samples, size=batch_size, replace=False)
     return idx
 
-- 
2.43.0


From 48c7d7171111b67f9be84083234cb41f4214d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 30/36] fix: copt exports the penalty module

---
 copt/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/__init__.py b/copt/__init__.py
index 791924f..7236b4c 100644
--- a/copt/__init__.py
+++ b/copt/__init__.py
@@ -6,6 +6,7 @@ from . import tv_prox
 from . import utils
 from . import loss
 from . import constraint
+from . import penalty
 from .frank_wolfe import minimize_frank_wolfe
 from .proximal_gradient import minimize_proximal_gradient
 from .randomized import minimize_saga
-- 
2.43.0


From a9ddd8af8f67dab5e01a5cfff0a3222d4e1f331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:14 +0000
Subject: [PATCH 31/36] fix: load_kdd12 retries its own dataset on a checksum
 mismatch

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 43b3aa0..c3e8145 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -388,7 +388,7 @@ def load_kdd12(md5_check=True, verbose=0):
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
                 os.remove(file_path)
-                return load_url()
+                return load_kdd12()
         zipfile = bz2.BZ2File(file_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
-- 
2.43.0


From c10b66320b0f2673298615af5b51a1c28d2da5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:14 +0000
Subject: [PATCH 32/36] fix: load_criteo verifies its archive before unpacking
 it

---
 copt/datasets.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index c3e8145..2dfa753 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -437,10 +437,6 @@ def load_criteo(md5_check=True):
         print("criteo dataset is not present in data folder. Downloading it ...")
         url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
         urllib.request.urlretrieve(url, file_path)
-        import tarfile
-
-        tar = tarfile.open(file_path)
-        tar.extractall(DATA_DIR)
         print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -449,6 +445,8 @@ def load_criteo(md5_check=True):
                 print("Removing file and re-downloading")
                 os.remove(file_path)
                 return load_criteo()
+        tar = tarfile.open(file_path)
+        tar.extractall(DATA_DIR, filter="data")
         X, y = datasets.load_svmlight_file(
             os.path.join(DATA_DIR, "criteo.kaggle2014.train.svm")
         )
-- 
2.43.0


From 37165c9bdc278e160f676a2c1274e2d3ee2d257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:14 +0000
Subject: [PATCH 33/36] fix: dataset archives cannot write outside the data
 directory

---
 copt/datasets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/datasets.py b/copt/datasets.py
index 2dfa753..ce75189 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -68,6 +68,8 @@ def _load_dataset(name, subset, data_dir):
             if f_orig is None:
                 continue
 
+            if os.path.isabs(member.name) or ".." in member.name.split("/"):
+                raise ValueError("unsafe path in archive: %s" % member.name)
             print("Extracting data to %s" % os.path.join(data_dir, member.name))
             f_dest = file_loader(os.path.join(data_dir, member.name), "wb")
             chunk = 5000
-- 
2.43.0


From f00e8d6ee157a51b1b3f89e5074f547bd79a7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:14 +0000
Subject: [PATCH 34/36] fix: an interrupted dataset download is completed by
 the next call

---
 copt/datasets.py | 114 ++++++++++++++++++++++++++++-------------------
 1 file changed, 69 insertions(+), 45 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index ce75189..4ec6717 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -20,6 +20,18 @@ DATA_DIR = os.environ.get(
 )
 
 
+def _retrieve(url, path):
+    """Download url; path only comes into existence once it is complete."""
+    urllib.request.urlretrieve(url, path + ".part")
+    os.replace(path + ".part", path)
+
+
+def _save(path, data):
+    """Save an array; path only comes into existence once it is complete."""
+    np.save(path + ".part.npy", data)
+    os.replace(path + ".part.npy", path)
+
+
 def load_img1(n_rows=20, n_cols=20):
     """Load sample image."""
     from PIL import Image
@@ -39,10 +51,14 @@ def _load_dataset(name, subset, data_dir):
         file_exists = gfile.exists
         makedirs = gfile.makedirs
         file_loader = gfile.GFile
+
+        def rename(src, dst):
+            gfile.rename(src, dst, overwrite=True)
     else:
         file_exists = os.path.exists
         makedirs = os.makedirs
         file_loader = open
+        rename = os.replace
     dataset_dir = os.path.join(data_dir, name)
     files_train = (
         "X_train.data.npy",
@@ -50,10 +66,18 @@ def _load_dataset(name, subset, data_dir):
         "X_train.indptr.npy",
         "y_train.npy",
     )
+    files_test = (
+        "X_test.data.npy",
+        "X_test.indices.npy",
+        "X_test.indptr.npy",
+        "y_test.npy",
+    )
+    needed = files_train if subset == "train" else files_train + files_test
     if not np.all(
-        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_train]
+        [file_exists(os.path.join(dataset_dir, fname)) for fname in needed]
     ):
-        makedirs(dataset_dir)
+        if not file_exists(dataset_dir):
+            makedirs(dataset_dir)
         print(
             "%s dataset is not present in the folder %s. Downloading it ..."
             % (name, dataset_dir)
@@ -71,7 +95,8 @@ def _load_dataset(name, subset, data_dir):
             if os.path.isabs(member.name) or ".." in member.name.split("/"):
                 raise ValueError("unsafe path in archive: %s" % member.name)
             print("Extracting data to %s" % os.path.join(data_dir, member.name))
-            f_dest = file_loader(os.path.join(data_dir, member.name), "wb")
+            path = os.path.join(data_dir, member.name)
+            f_dest = file_loader(path + ".part", "wb")
             chunk = 5000
             while True:
                 data = f_orig.read(chunk)
@@ -80,6 +105,8 @@ def _load_dataset(name, subset, data_dir):
                 f_dest.write(data)
             f_dest.close()
             f_orig.close()
+            # a file only gets its name once it is complete
+            rename(path + ".part", path)
 
     tmp_train = []
     for fname in files_train:
@@ -93,12 +120,7 @@ def _load_dataset(name, subset, data_dir):
         retval = (data_train, target_train)
     else:
         tmp_test = []
-        for fname in (
-            "X_test.data.npy",
-            "X_test.indices.npy",
-            "X_test.indptr.npy",
-            "y_test.npy",
-        ):
+        for fname in files_test:
             with file_loader(os.path.join(dataset_dir, fname), "rb") as f:
                 tmp_test.append(np.load(f))
 
@@ -215,13 +237,14 @@ def load_url(md5_check=True):
     data_indptr = os.path.join(DATA_DIR, "url_combined.indptr.npy")
     data_target = os.path.join(DATA_DIR, "url_combined.target.npy")
 
-    if not os.path.exists(DATA_DIR):
-        os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
-        print("URL dataset is not present in data folder. Downloading it ...")
-        url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
+    os.makedirs(DATA_DIR, exist_ok=True)
+    # the target is the last file of the cache to be written
+    if not os.path.exists(data_target):
+        if not os.path.exists(file_path):
+            print("URL dataset is not present in data folder. Downloading it ...")
+            url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
+            _retrieve(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if not h == "83673b8f4224c81968af2fb6022ee487":
@@ -234,10 +257,10 @@ def load_url(md5_check=True):
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
         X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -333,13 +356,12 @@ def load_kdd10(md5_check=True):
   """
     from sklearn import datasets  # lazy import
 
-    if not os.path.exists(DATA_DIR):
-        os.makedirs(DATA_DIR)
+    os.makedirs(DATA_DIR, exist_ok=True)
     file_path = os.path.join(DATA_DIR, "kddb.bz2")
     if not os.path.exists(file_path):
         print("KDD10 dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kddb.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        _retrieve(url, file_path)
         print("Finished downloading")
     if md5_check:
         h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -377,13 +399,14 @@ def load_kdd12(md5_check=True, verbose=0):
     data_indptr = os.path.join(DATA_DIR, "kdd12.indptr.npy")
     data_target = os.path.join(DATA_DIR, "kdd12.target.npy")
 
-    if not os.path.exists(DATA_DIR):
-        os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
-        print("KDD12 dataset is not present in data folder. Downloading it ...")
-        url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
+    os.makedirs(DATA_DIR, exist_ok=True)
+    # the target is the last file of the cache to be written
+    if not os.path.exists(data_target):
+        if not os.path.exists(file_path):
+            print("KDD12 dataset is not present in data folder. Downloading it ...")
+            url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
+            _retrieve(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if not h == "c6fc57735c3cf687dd182d60a7b51cda":
@@ -396,10 +419,10 @@ def load_kdd12(md5_check=True, verbose=0):
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
         X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -428,18 +451,19 @@ def load_criteo(md5_check=True):
   """
     from sklearn import datasets  # lazy import
 
-    if not os.path.exists(DATA_DIR):
-        os.makedirs(DATA_DIR)
+    os.makedirs(DATA_DIR, exist_ok=True)
     file_path = os.path.join(DATA_DIR, "criteo.kaggle2014.svm.tar.gz")
     data_path = os.path.join(DATA_DIR, "criteo.kaggle2014.data.npz.npy")
     data_indices = os.path.join(DATA_DIR, "criteo.kaggle2014.indices.npy")
     data_indptr = os.path.join(DATA_DIR, "criteo.kaggle2014.indptr.npy")
     data_target = os.path.join(DATA_DIR, "criteo.kaggle2014.target.npy")
-    if not os.path.exists(file_path):
-        print("criteo dataset is not present in data folder. Downloading it ...")
-        url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
+    # the target is the last file of the cache to be written
+    if not os.path.exists(data_target):
+        if not os.path.exists(file_path):
+            print("criteo dataset is not present in data folder. Downloading it ...")
+            url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
+            _retrieve(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if h != "d852b491d1b3afa26c1e7b49594ffc3e":
@@ -452,10 +476,10 @@ def load_criteo(md5_check=True):
         X, y = datasets.load_svmlight_file(
             os.path.join(DATA_DIR, "criteo.kaggle2014.train.svm")
         )
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
         # optionally delete files
     else:
         X_data = np.load(data_path)
-- 
2.43.0


From 57588de7ef7a3f527bf21ffe545fb060f131f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 35/36] fix: minimize_frank_wolfe validates step and its
 Lipschitz constant before iterating

---
 copt/frank_wolfe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index f146cc6..6457002 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -238,6 +238,12 @@ def minimize_frank_wolfe(
     else:
         raise ValueError("Variant must be one of {'vanilla', 'pairwise'}.")
 
+    if not hasattr(step, "__call__"):
+        if step not in ("backtracking", "DR", "sublinear"):
+            raise ValueError("Invalid option step=%s" % step)
+        if step == "DR" and lipschitz is None:
+            raise ValueError('lipschitz needs to be specified with step="DR"')
+
     lipschitz_t = None
     step_size = None
     success = False
-- 
2.43.0


From ee8551786f3256597745f167c9fdf648d6f3faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 36/36] fix: minimize_proximal_gradient validates step before
 iterating

---
 copt/proximal_gradient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 7b9ff3d..d35e21b 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -112,6 +112,10 @@ def minimize_proximal_gradient(
     x = np.asarray(x0, dtype=float).flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
+    if not hasattr(step, "__call__"):
+        steps = ("backtracking",) if accelerated else ("backtracking", "fixed")
+        if step not in steps:
+            raise ValueError("Step-size strategy not understood")
 
     if prox is None:
 
-- 
2.43.0

