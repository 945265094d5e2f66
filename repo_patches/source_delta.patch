From babbc4ec8de93cf9ac1fcd0da45321b8b0fabce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:23 +0000
Subject: [PATCH 01/29] fix: pairwise Frank-Wolfe kept dropped vertices in the
 active set

Deleting a vertex and then reading the defaultdict re-inserted it with
weight zero, so it was chosen again as away vertex with a maximum step
of zero and the algorithm stopped making progress.
---
 copt/frank_wolfe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 510df93..68dba7f 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -105,7 +105,7 @@ def update_active_set(active_set,
     if active_set[away_vertex_rep] == 0.:
         # drop step: remove vertex from active set
         del active_set[away_vertex_rep]
-    if active_set[away_vertex_rep] < 0.:
+    elif active_set[away_vertex_rep] < 0.:
         raise ValueError(f"The step size used is too large. "
                          f"{step_size: .3f} vs. {max_step_size:.3f}")
 
-- 
2.43.0


From ad9746de71a997f09b88b8ba1adf1a2934408f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:23 +0000
Subject: [PATCH 02/29] fix: size of the support matrix when trailing blocks
 are not used by any sample

Without an explicit shape the matrix is cut after the last used block, and
VRTOS read past the end of the reweighting vector (SAGA and SVRG failed on
an empty support).
---
 copt/randomized.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 21f7981..6270feb 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -160,7 +160,9 @@ def minimize_saga(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -335,7 +337,9 @@ def minimize_svrg(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -579,13 +583,19 @@ def _factory_sparse_vrtos(
     bs_1_data, bs_1_indices, bs_1_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_1_indices, blocks_1.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_1_data, bs_1_indices, bs_1_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_1_data, bs_1_indices, bs_1_indptr),
+        shape=(n_samples, blocks_1.shape[0]),
+    )
 
     rblocks_2_indices = blocks_2.T.tocsr().indices
     bs_2_data, bs_2_indices, bs_2_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_2_indices, blocks_2.shape[0]
     )
-    csr_blocks_2 = sparse.csr_matrix((bs_2_data, bs_2_indices, bs_2_indptr))
+    csr_blocks_2 = sparse.csr_matrix(
+        (bs_2_data, bs_2_indices, bs_2_indptr),
+        shape=(n_samples, blocks_2.shape[0]),
+    )
 
     # .. diagonal reweighting ..
     d1 = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From 71763e3bf190e678e46385ff2cc1fa30e8a2177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:23 +0000
Subject: [PATCH 03/29] fix: SVRG used stale gradients of other samples with
 multi-feature blocks

grad_tmp was never reset, so features of a block outside the support of the
current sample were updated with the gradient of an earlier sample.
---
 copt/randomized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 6270feb..00a8363 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -390,6 +390,10 @@ def minimize_svrg(
                     x[b_j] -= step_size * (grad_tmp[b_j] + bias_term)
             prox(x, i, bs_indices, bs_indptr, d, step_size)
 
+            # .. cleanup ..
+            for j in range(A_indptr[i], A_indptr[i + 1]):
+                grad_tmp[A_indices[j]] = 0
+
     idx = np.arange(n_samples)
     grad_tmp = np.zeros(n_features)
     success = False
-- 
2.43.0


From a318595bbf43f689e48363946b6b13a03d3b0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:41 +0000
Subject: [PATCH 04/29] fix: integer starting points were truncated and VRTOS
 overwrote x0

The iterates are updated in place in an array with the type of x0, so
integer starting points silently truncated every update; VRTOS even
updated the array of the caller.
---
 copt/proximal_gradient.py | 2 +-
 copt/randomized.py        | 6 ++++--
 copt/splitting.py         | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index b7acfc3..90db2b6 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -109,7 +109,7 @@ def minimize_proximal_gradient(
   Examples:
     * :ref:`sphx_glr_auto_examples_plot_group_lasso.py`
   """
-    x = np.asarray(x0).flatten()
+    x = np.asarray(x0, dtype=float).flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
diff --git a/copt/randomized.py b/copt/randomized.py
index 00a8363..9a64a78 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -130,7 +130,7 @@ def minimize_saga(
     # convert any input to CSR sparse matrix representation. In the future we
     # might want to implement also a version for dense data (numpy arrays) to
     # better exploit data locality
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -307,7 +307,7 @@ def minimize_svrg(
       for Composite Optimization." Advances in Neural Information
       Processing Systems (NIPS) 2017.
     """
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -488,6 +488,8 @@ def minimize_vrtos(
 
     n_samples, n_features = A.shape
     success = False
+    # copy, as the iterates are updated in place
+    x0 = np.array(x0, dtype=float)
 
     # FIXME: just a workaround for now
     # FIXME: check if prox_1 is a tuple
diff --git a/copt/splitting.py b/copt/splitting.py
index c8ca10a..5b4aaa9 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -117,7 +117,7 @@ def minimize_three_split(
         line_search = True
         step_size = 1.0 / utils.init_lipschitz(f_grad, x0)
 
-    z = prox_2(x0, step_size, *args_prox)
+    z = prox_2(np.asarray(x0, dtype=float), step_size, *args_prox)
     LS_EPS = np.finfo(float).eps
 
     fk, grad_fk = f_grad(z)
@@ -249,7 +249,7 @@ def minimize_primal_dual(
         involving Lipschitzian, proximable and linear composite terms." Journal of
         Optimization Theory and Applications (2013).
     """
-    x = np.array(x0, copy=True)
+    x = np.array(x0, dtype=float)
     n_features = x.size
 
     if L is None:
-- 
2.43.0


From 7918df37d09d091fb1ebb3c69031d15c37c415e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:41 +0000
Subject: [PATCH 05/29] fix: endless line search of minimize_primal_dual on
 non-finite values

A gradient that is nan, or values that stay non-finite until the step size
underflows, never satisfied any of the exit conditions.
---
 copt/splitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 5b4aaa9..e6f10ed 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -302,7 +302,8 @@ def minimize_primal_dual(
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
                 incr_x = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
-                if incr_x <= 1e-10:
+                if not incr_x > 1e-10 or sigma < np.finfo(float).tiny:
+                    # no progress is possible (also true if incr_x is nan)
                     break
 
                 tmp = (sigma * tau_next) * (incr_x ** 2)
-- 
2.43.0


From 014aff245e63edc64f93390cb76f25fff3305917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:41 +0000
Subject: [PATCH 06/29] fix: np.alltrue does not exist in NumPy 2

Projecting a vector whose sum equals the radius raised AttributeError.
---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index c6990ac..531ebcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -219,7 +219,7 @@ def euclidean_proj_simplex(v, s=1.0):
     assert s > 0, "Radius s must be strictly positive (%d <= 0)" % s
     (n,) = v.shape  # will raise ValueError if v is not 1-D
     # check if we are already on the simplex
-    if v.sum() == s and np.alltrue(v >= 0):
+    if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-- 
2.43.0


From ddf68ae57bda7e1eec03d2e68f09369b33f92ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:41 +0000
Subject: [PATCH 07/29] fix: linear oracle of the simplex

It did not accept the active set argument that the solvers pass, and returned
a vertex outside of the simplex when all entries of u are non-positive.
---
 copt/constraint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 531ebcc..9904590 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -176,16 +176,14 @@ class SimplexConstraint:
     def prox(self, x, step_size):
         return euclidean_proj_simplex(x, self.s)
 
-    def lmo(self, u, x):
+    def lmo(self, u, x, active_set=None):
         """Return v - x, s solving the linear problem
     max_{||v||_1 <= s, v >= 0} <u, v>
     """
         largest_coordinate = np.argmax(u)
 
         update_direction = -x.copy()
-        update_direction[largest_coordinate] += self.s * np.sign(
-            u[largest_coordinate]
-        )
+        update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
 
-- 
2.43.0


From e46188f77d7646fbec097f7d2c20ed8ed93e79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:41 +0000
Subject: [PATCH 08/29] fix: Trace recorded negative or decreasing times when
 the system clock is changed

---
 copt/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index 7f6be72..b0bd0f2 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy import sparse
 from scipy import optimize
+import time
 from datetime import datetime
 from sklearn.utils.extmath import safe_sparse_dot
 
@@ -148,6 +149,8 @@ class Trace:
         self.trace_fx = []
         self.trace_step_size = []
         self.start = datetime.now()
+        # not affected by changes of the system clock
+        self._start_monotonic = time.monotonic()
         self._counter = 0
         self.freq = int(freq)
         self.f = f
@@ -158,7 +161,7 @@ class Trace:
                 self.trace_fx.append(self.f(dl["x"]))
             else:
                 self.trace_x.append(dl["x"].copy())
-            delta = (datetime.now() - self.start).total_seconds()
+            delta = time.monotonic() - self._start_monotonic
             self.trace_time.append(delta)
             self.trace_step_size.append(dl["step_size"])
         self._counter += 1
-- 
2.43.0


From 1055f89c8ef0b24daaa5f5522684e7ab56909ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 09/29] fix: DR step of minimize_sfw for directions that are
 not descent directions

A zero direction gave nan iterates and a negative certificate (the oracle
is called with a different gradient estimate for SAGA and LF) gave a negative
step, which leaves the constraint set.
---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 9a64a78..135051a 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -738,6 +738,9 @@ def step_size_sfw(variant):
 def step_size_DR(kwargs):
     norm_update_direction = (kwargs['update_direction'] ** 2).sum()
     lipschitz = kwargs['lipschitz']
+    if kwargs['certificate'] <= 0:
+        # not a descent direction for the aggregate gradient (or no direction)
+        return 0., None
     return min(kwargs['certificate'] / (norm_update_direction * lipschitz),
                kwargs['max_step_size']), None
 
-- 
2.43.0


From d230bab74d1e991908c09da0ab4d1016715172dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 10/29] fix: minimize_sfw failed with the documented callable
 step size

---
 copt/randomized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 135051a..063cb37 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -876,7 +876,10 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
         if lipschitz is None:
             raise ValueError('lipschitz needs to be specified with step_size="DR"')
         step_size_fun = step_size_DR
-
+    elif callable(step_size):
+        step_size_fun = step_size
+    else:
+        raise ValueError("Invalid option step_size=%s" % step_size)
 
     if lmo_variant == 'vanilla':
         active_set = None
-- 
2.43.0


From 240fa2865d7fb34acb522a57ce84e19e212dd3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 11/29] fix: minimize_sfw with the DR step failed for variants
 MHK and LF

The step size of the aggregate was undefined; and the gradient estimate of
MHK was n_samples times the gradient, which the DR step relies on.
---
 copt/randomized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 063cb37..bcfc4b6 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -906,6 +906,9 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             x_prev = x.copy()
             if step_size != 'DR':
                 step_size_x, step_size_agg = step_size_fun(locals())
+            else:
+                # DR only sets the step size for x
+                _, step_size_agg = step_size_sfw(variant)(locals())
             dual_var_prev = dual_var[batch_idx].copy()
 
             if variant in {'SAG', 'SAGA'}:
@@ -914,7 +917,7 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
 
             elif variant == 'MHK':
                 p = utils.fast_csr_mv(A_data, A_indptr, A_indices, x, batch_idx)
-                dual_var[batch_idx] += step_size_agg * (f_deriv(p, b[batch_idx]) - dual_var[batch_idx])
+                dual_var[batch_idx] += step_size_agg * ((1 / n_samples) * f_deriv(p, b[batch_idx]) - dual_var[batch_idx])
 
             elif variant == 'LF':
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_agg, x, active_set)
-- 
2.43.0


From 30b094f5f599cd563dd07e766b3f5f2eec5a9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:33 +0000
Subject: [PATCH 12/29] fix: interrupted downloads left a dataset cache that
 could not be loaded

A directory without files made every later call fail in makedirs, a partly
written file was taken for the complete one, and missing test files were never
downloaded again. Files now appear under their final name once complete, and
the files that the requested subset needs are looked for.
---
 copt/datasets.py | 67 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 806492a..564b17a 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -1,6 +1,7 @@
 # python3
 import hashlib
 import os
+import uuid
 import urllib
 import urllib.request
 import tarfile
@@ -33,6 +34,11 @@ def load_img1(n_rows=20, n_cols=20):
     return np.array(img)
 
 
+def _tmp_name(path):
+    """Name next to path that no other process (or earlier attempt) uses"""
+    return "%s.%s.tmp" % (path, uuid.uuid4().hex)
+
+
 def _load_dataset(name, subset, data_dir):
     """Low level driver to download and return dataset"""
 
@@ -40,10 +46,26 @@ def _load_dataset(name, subset, data_dir):
         file_exists = gfile.exists
         makedirs = gfile.makedirs
         file_loader = gfile.GFile
+        remove = gfile.remove
+
+        def publish(f_tmp, tmp_path, path):
+            f_tmp.close()
+            gfile.rename(tmp_path, path, overwrite=True)
+
     else:
         file_exists = os.path.exists
-        makedirs = os.makedirs
         file_loader = open
+        remove = os.remove
+
+        def makedirs(path):
+            os.makedirs(path, exist_ok=True)
+
+        def publish(f_tmp, tmp_path, path):
+            f_tmp.flush()
+            os.fsync(f_tmp.fileno())
+            f_tmp.close()
+            os.replace(tmp_path, path)
+
     dataset_dir = os.path.join(data_dir, name)
     files_train = (
         "X_train.data.npy",
@@ -51,8 +73,15 @@ def _load_dataset(name, subset, data_dir):
         "X_train.indptr.npy",
         "y_train.npy",
     )
+    files_test = (
+        "X_test.data.npy",
+        "X_test.indices.npy",
+        "X_test.indptr.npy",
+        "y_test.npy",
+    )
+    files_needed = files_train if subset == "train" else files_train + files_test
     if not np.all(
-        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_train]
+        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_needed]
     ):
         makedirs(dataset_dir)
         print(
@@ -70,14 +99,25 @@ def _load_dataset(name, subset, data_dir):
                 continue
 
             print("Extracting data to %s" % os.path.join(data_dir, member.name))
-            f_dest = file_loader(os.path.join(data_dir, member.name), "wb")
-            chunk = 5000
-            while True:
-                data = f_orig.read(chunk)
-                if not data:
-                    break
-                f_dest.write(data)
-            f_dest.close()
+            # .. files only get their final name once they are complete, ..
+            # .. as their presence means that they can be used ..
+            dest_path = os.path.join(data_dir, member.name)
+            tmp_path = _tmp_name(dest_path)
+            f_dest = file_loader(tmp_path, "wb")
+            try:
+                chunk = 5000
+                while True:
+                    data = f_orig.read(chunk)
+                    if not data:
+                        break
+                    f_dest.write(data)
+                publish(f_dest, tmp_path, dest_path)
+            except BaseException:
+                try:
+                    f_dest.close()
+                finally:
+                    remove(tmp_path)
+                raise
             f_orig.close()
 
     tmp_train = []
@@ -92,12 +132,7 @@ def _load_dataset(name, subset, data_dir):
         retval = (data_train, target_train)
     else:
         tmp_test = []
-        for fname in (
-            "X_test.data.npy",
-            "X_test.indices.npy",
-            "X_test.indptr.npy",
-            "y_test.npy",
-        ):
+        for fname in files_test:
             with file_loader(os.path.join(dataset_dir, fname), "rb") as f:
                 tmp_test.append(np.load(f))
 
-- 
2.43.0


From d1259c5a1b706e1bab48da09fdccf25ea009a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 13/29] fix: checksum-guarded loaders were poisoned by
 interrupted or corrupted downloads

A partial download stayed under the final name and was never verified or
converted again, load_kdd12 returned the URL dataset after a corrupted
download, a corrupted mirror led to endless recursion, load_url and
load_kdd12 always failed at np.int, and arrays and the uncompressed file were
written in place. Downloads are now verified before they get their final name
and whenever they are about to be converted, and arrays appear atomically.
---
 copt/datasets.py | 164 +++++++++++++++++++++++------------------------
 1 file changed, 82 insertions(+), 82 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 564b17a..e819388 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -39,6 +39,53 @@ def _tmp_name(path):
     return "%s.%s.tmp" % (path, uuid.uuid4().hex)
 
 
+def _publish(tmp_path, path):
+    """Move a complete file to its final name, so that its presence implies its content"""
+    with open(tmp_path, "rb+") as f:
+        os.fsync(f.fileno())
+    os.replace(tmp_path, path)
+
+
+def _fetch(url, file_path, md5=None, n_tries=5):
+    """Download url into file_path, unless it is there already (with the right md5 hash)"""
+
+    def check(path):
+        if md5 is None:
+            return True
+        with open(path, "rb") as f:
+            return hashlib.md5(f.read()).hexdigest() == md5
+
+    if os.path.exists(file_path) and check(file_path):
+        return
+    tmp_path = _tmp_name(file_path)
+    try:
+        for _ in range(n_tries):
+            urllib.request.urlretrieve(url, tmp_path)
+            print("Finished downloading")
+            if check(tmp_path):
+                _publish(tmp_path, file_path)
+                return
+            print("MD5 hash do not coincide")
+            print("Removing file and re-downloading")
+            os.remove(tmp_path)
+    finally:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+    raise OSError("MD5 hash of %s does not coincide after %d downloads" % (url, n_tries))
+
+
+def _save_array(path, arr):
+    """np.save that only creates path once the array is completely written"""
+    tmp_path = _tmp_name(path)
+    try:
+        with open(tmp_path, "wb") as f:
+            np.save(f, arr)
+        _publish(tmp_path, path)
+    finally:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+
+
 def _load_dataset(name, subset, data_dir):
     """Low level driver to download and return dataset"""
 
@@ -241,7 +288,6 @@ def load_url(md5_check=True):
             Labels, only takes values 0 or 1.
     """
     from sklearn import datasets  # lazy import
-    import bz2
 
     file_path = os.path.join(DATA_DIR, "url_combined.bz2")
     data_path = os.path.join(DATA_DIR, "url_combined.data.npy")
@@ -249,35 +295,22 @@ def load_url(md5_check=True):
     data_indptr = os.path.join(DATA_DIR, "url_combined.indptr.npy")
     data_target = os.path.join(DATA_DIR, "url_combined.target.npy")
 
-    if not os.path.exists(DATA_DIR):
-        os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
+    os.makedirs(DATA_DIR, exist_ok=True)
+    if not all(map(os.path.exists, (data_path, data_indices, data_indptr, data_target))):
         print("URL dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
-        if md5_check:
-            h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
-            if not h == "83673b8f4224c81968af2fb6022ee487":
-                print("MD5 hash do not coincide")
-                print("Removing file and re-downloading")
-                os.remove(file_path)
-                return load_url()
-        zipfile = bz2.BZ2File(file_path)
-        data = zipfile.read()
-        newfilepath = file_path[:-4]
-        open(newfilepath, "wb").write(data)
-        X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _fetch(url, file_path, "83673b8f4224c81968af2fb6022ee487" if md5_check else None)
+        X, y = datasets.load_svmlight_file(file_path)
+        _save_array(data_path, X.data)
+        _save_array(data_indices, X.indices)
+        _save_array(data_indptr, X.indptr)
+        _save_array(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
@@ -367,21 +400,12 @@ def load_kdd10(md5_check=True):
   """
     from sklearn import datasets  # lazy import
 
-    if not os.path.exists(DATA_DIR):
-        os.makedirs(DATA_DIR)
+    os.makedirs(DATA_DIR, exist_ok=True)
     file_path = os.path.join(DATA_DIR, "kddb.bz2")
     if not os.path.exists(file_path):
         print("KDD10 dataset is not present in data folder. Downloading it ...")
-        url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kddb.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
-    if md5_check:
-        h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
-        if not h == "bc5b630fef6989c2f201039fef497e14":
-            print("MD5 hash do not coincide")
-            print("Removing file and re-downloading")
-            os.remove(file_path)
-            return load_kdd10()
+    url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kddb.bz2"
+    _fetch(url, file_path, "bc5b630fef6989c2f201039fef497e14" if md5_check else None)
     return datasets.load_svmlight_file(file_path)
 
 
@@ -403,7 +427,6 @@ def load_kdd12(md5_check=True, verbose=0):
         Labels, only takes values 0 or 1.
   """
     from sklearn import datasets  # lazy import
-    import bz2
 
     file_path = os.path.join(DATA_DIR, "kdd12.bz2")
     data_path = os.path.join(DATA_DIR, "kdd12.data.npy")
@@ -411,35 +434,22 @@ def load_kdd12(md5_check=True, verbose=0):
     data_indptr = os.path.join(DATA_DIR, "kdd12.indptr.npy")
     data_target = os.path.join(DATA_DIR, "kdd12.target.npy")
 
-    if not os.path.exists(DATA_DIR):
-        os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
+    os.makedirs(DATA_DIR, exist_ok=True)
+    if not all(map(os.path.exists, (data_path, data_indices, data_indptr, data_target))):
         print("KDD12 dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
-        if md5_check:
-            h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
-            if not h == "c6fc57735c3cf687dd182d60a7b51cda":
-                print("MD5 hash do not coincide")
-                print("Removing file and re-downloading")
-                os.remove(file_path)
-                return load_url()
-        zipfile = bz2.BZ2File(file_path)
-        data = zipfile.read()
-        newfilepath = file_path[:-4]
-        open(newfilepath, "wb").write(data)
-        X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _fetch(url, file_path, "c6fc57735c3cf687dd182d60a7b51cda" if md5_check else None)
+        X, y = datasets.load_svmlight_file(file_path)
+        _save_array(data_path, X.data)
+        _save_array(data_indices, X.indices)
+        _save_array(data_indptr, X.indptr)
+        _save_array(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
@@ -462,37 +472,27 @@ def load_criteo(md5_check=True):
   """
     from sklearn import datasets  # lazy import
 
-    if not os.path.exists(DATA_DIR):
-        os.makedirs(DATA_DIR)
+    os.makedirs(DATA_DIR, exist_ok=True)
     file_path = os.path.join(DATA_DIR, "criteo.kaggle2014.svm.tar.gz")
     data_path = os.path.join(DATA_DIR, "criteo.kaggle2014.data.npz.npy")
     data_indices = os.path.join(DATA_DIR, "criteo.kaggle2014.indices.npy")
     data_indptr = os.path.join(DATA_DIR, "criteo.kaggle2014.indptr.npy")
     data_target = os.path.join(DATA_DIR, "criteo.kaggle2014.target.npy")
-    if not os.path.exists(file_path):
+    if not all(map(os.path.exists, (data_path, data_indices, data_indptr, data_target))):
         print("criteo dataset is not present in data folder. Downloading it ...")
         url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
-        urllib.request.urlretrieve(url, file_path)
-        import tarfile
-
-        tar = tarfile.open(file_path)
-        tar.extractall(DATA_DIR)
-        print("Finished downloading")
-        if md5_check:
-            h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
-            if h != "d852b491d1b3afa26c1e7b49594ffc3e":
-                print("MD5 hash do not coincide")
-                print("Removing file and re-downloading")
-                os.remove(file_path)
-                return load_criteo()
-        X, y = datasets.load_svmlight_file(
-            os.path.join(DATA_DIR, "criteo.kaggle2014.train.svm")
-        )
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
-        # optionally delete files
+        _fetch(url, file_path, "d852b491d1b3afa26c1e7b49594ffc3e" if md5_check else None)
+        with tarfile.open(file_path) as tar:
+            member = next(
+                m
+                for m in tar.getmembers()
+                if os.path.basename(m.name) == "criteo.kaggle2014.train.svm"
+            )
+            X, y = datasets.load_svmlight_file(tar.extractfile(member))
+        _save_array(data_path, X.data)
+        _save_array(data_indices, X.indices)
+        _save_array(data_indptr, X.indptr)
+        _save_array(data_target, y)
     else:
         X_data = np.load(data_path)
         X_indices = np.load(data_indices)
-- 
2.43.0


From 6eb72f625dbe77837e1f98cb9943f67034117ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 14/29] fix: utils.Trace could not be used as callback of
 minimize_vrtos

It raised KeyError, as the iterate was only known as z.
---
 copt/randomized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index bcfc4b6..703aec3 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -506,6 +506,8 @@ def minimize_vrtos(
 
     Y = np.zeros((2, x0.size))
     z = x0.copy()
+    # name under which callbacks such as utils.Trace expect the iterate
+    x = z
 
     assert A.shape[0] == b.size
 
-- 
2.43.0


From ae8226d065c5a1bfcb17e808bbd454d5605927b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:24 +0000
Subject: [PATCH 15/29] fix: linear oracle of the trace ball failed for a zero
 gradient

ARPACK raises an error on a zero matrix, which is what the LF variant of
minimize_sfw starts with.
---
 copt/constraint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/constraint.py b/copt/constraint.py
index 9904590..e507864 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -318,6 +318,9 @@ class TraceBall:
           None: not used here
           max_step_size: 1. for a Frank-Wolfe step.
         """
+        if not np.any(u):
+            # all points are optimal, and svds fails on a zero matrix
+            return np.zeros_like(x), None, None, 1.
         u_mat = u.reshape(self.shape)
         ut, _, vt = splinalg.svds(u_mat, k=1)
         vertex = self.alpha * np.outer(ut, vt).ravel()
-- 
2.43.0


From 869fef7052c0af9c6f75c4d9eadd37762e56b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:24 +0000
Subject: [PATCH 16/29] fix: SAGA gradient estimate of minimize_sfw was biased
 for mini-batches

The correction of a batch of m samples has to be scaled by n/m, not by n.
---
 copt/randomized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 703aec3..64f623c 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -938,7 +938,7 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_agg, x, active_set)
 
             elif variant == 'SAGA':
-                grad_est = utils.safe_sparse_add(grad_agg, (n_samples - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
+                grad_est = utils.safe_sparse_add(grad_agg, (n_samples / len(batch_idx) - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
                                                                                                A_data, A_indptr, A_indices,
                                                                                                n_features, batch_idx))
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_est, x, active_set)
-- 
2.43.0


From fdbd1eb8742af390b71ccd24100604a3b2cf9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:24 +0000
Subject: [PATCH 17/29] fix: steps of size zero added vertices of weight zero
 to the active set

Such a vertex can be chosen as away vertex, with a maximum step of zero.
---
 copt/frank_wolfe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 68dba7f..fb2d93f 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -98,6 +98,10 @@ def update_active_set(active_set,
                       fw_vertex_rep, away_vertex_rep,
                       step_size):
 
+    if step_size == 0.:
+        # nothing moves, do not add vertices of weight zero
+        return active_set
+
     max_step_size = active_set[away_vertex_rep]
     active_set[fw_vertex_rep] += step_size
     active_set[away_vertex_rep] -= step_size
-- 
2.43.0


From 2907deee38be4ae7c2c74e0cd03a56ef89ecc074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:51 +0000
Subject: [PATCH 18/29] fix: backtracking of Frank-Wolfe used a NaN Lipschitz
 estimate

When the objective stops changing and the squared certificate underflows,
the estimate is 0/0. The NaN made every trial fail the sufficient decrease
condition and a step of maximal size was taken.
---
 copt/frank_wolfe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index fb2d93f..a6162bc 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -70,7 +70,9 @@ def backtracking_step_size(
     max_ls_iter = 100
     if old_f_t is not None:
         tmp = (certificate ** 2) / (2 * (old_f_t - f_t) * norm_update_direction)
-        lipschitz_t = max(min(tmp, lipschitz_t), lipschitz_t * ratio_decrease)
+        if not np.isnan(tmp):
+            # tmp is 0/0 if the objective did not change and certificate**2 underflows
+            lipschitz_t = max(min(tmp, lipschitz_t), lipschitz_t * ratio_decrease)
     for _ in range(max_ls_iter):
         step_size_t = certificate / (norm_update_direction * lipschitz_t)
         if step_size_t < max_step_size:
-- 
2.43.0


From 6bd03b57d15c60c78f713d1995df5c6f64c203ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 19/29] fix: linear oracle of the trace ball failed for tiny
 gradients

ARPACK fails when the entries underflow (below 1e-154, e.g. after many
steps towards the minimizer); normalise the matrix first.
---
 copt/constraint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index e507864..835f836 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -322,6 +322,7 @@ class TraceBall:
             # all points are optimal, and svds fails on a zero matrix
             return np.zeros_like(x), None, None, 1.
         u_mat = u.reshape(self.shape)
-        ut, _, vt = splinalg.svds(u_mat, k=1)
+        # singular vectors don't depend on the scale, tiny entries underflow in svds
+        ut, _, vt = splinalg.svds(u_mat / np.max(np.abs(u)), k=1)
         vertex = self.alpha * np.outer(ut, vt).ravel()
         return vertex - x, None, None, 1.
-- 
2.43.0


From 36fe35e28f1f97c56aa5c64f32b5ebc772c8a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:17 +0000
Subject: [PATCH 20/29] fix: backtracking of Frank-Wolfe could not raise a
 Lipschitz estimate of zero

---
 copt/frank_wolfe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index a6162bc..a919630 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -88,7 +88,8 @@ def backtracking_step_size(
             # .. sufficient decrease condition verified ..
             break
         else:
-            lipschitz_t *= ratio_increase
+            # (the estimate is zero if the gradient was constant so far)
+            lipschitz_t = max(ratio_increase * lipschitz_t, EPS)
     else:
         warnings.warn(
             "Exhausted line search iterations in minimize_frank_wolfe", RuntimeWarning
-- 
2.43.0


From b847e66f853a506ff99860c25b837ca2b94a6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 21/29] fix: certificate of accelerated proximal gradient
 compared the wrong points

It measured prox(x_next - step * grad) against the previous iterate instead of
x_next, so that success was reported whenever the two happened to coincide.
---
 copt/proximal_gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 90db2b6..12ace50 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -220,7 +220,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 tk = t_next
                 x = x_next.copy()
 
@@ -251,7 +251,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 if trace_certificate:
                     certificate_list.append(certificate)
                 tk = t_next
-- 
2.43.0


From db45b6a7eabd850f1fd2b64714a6a0f9ad130dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 22/29] fix: line search of minimize_primal_dual measured the
 step through L

The acceptance test of Malitsky and Pock compares with the size of the step
itself. With |L| > 1 too large step sizes were accepted and the iterates
never settled; a step in the null space of L counted as no step at all.
---
 copt/splitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index e6f10ed..f30b3f8 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -300,13 +300,14 @@ def minimize_primal_dual(
                 sigma = ss_ratio * tau_next
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-                incr_x = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
+                incr_x = np.linalg.norm(x_next - x)
+                incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
                 if not incr_x > 1e-10 or sigma < np.finfo(float).tiny:
                     # no progress is possible (also true if incr_x is nan)
                     break
 
-                tmp = (sigma * tau_next) * (incr_x ** 2)
+                tmp = (sigma * tau_next) * (incr_Lx ** 2)
                 tmp += 2 * sigma * (f_next - fk - grad_fk.dot(x_next - x))
                 if tmp / delta <= (incr_x ** 2):
                     tau = tau_next
-- 
2.43.0


From b6c258c0d71b112c7555fc2a765fd9d5d85cf836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 23/29] fix: proximal operators of L1, group and trace norm
 turned NaN into zero

A run whose derivatives were not a number ended with success at zero.
---
 copt/penalty.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/copt/penalty.py b/copt/penalty.py
index b9774f3..d2973f3 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -29,7 +29,7 @@ class L1Norm:
         minimize_proximal_gradient, minimize_three_split and
         minimize_primal_dual.
         """
-        return np.fmax(x - self.alpha * step_size, 0) - np.fmax(
+        return np.maximum(x - self.alpha * step_size, 0) - np.maximum(
             -x - self.alpha * step_size, 0
         )
 
@@ -48,7 +48,7 @@ class L1Norm:
                 j_idx = indices[j]  # for L1 this is the same
                 a = x[j_idx] - alpha * d[j_idx] * step_size
                 b = -x[j_idx] - alpha * d[j_idx] * step_size
-                x[j_idx] = np.fmax(a, 0) - np.fmax(b, 0)
+                x[j_idx] = np.maximum(a, 0) - np.maximum(b, 0)
 
         return _prox_L1, sparse.eye(n_features, format="csr")
 
@@ -83,10 +83,11 @@ class GroupL1:
         for g in self.groups:
 
             norm = np.linalg.norm(x[g])
-            if norm > self.alpha * step_size:
-                out[g] -= step_size * self.alpha * out[g] / norm
-            else:
+            if norm <= self.alpha * step_size:
                 out[g] = 0
+            else:
+                # also if norm is nan: do not turn it into a valid-looking zero
+                out[g] -= step_size * self.alpha * out[g] / norm
         return out
 
     def prox_factory(self, n_features):
@@ -131,14 +132,15 @@ class GroupL1:
                     j_idx = B_indices[j]
                     norm += x[j_idx] ** 2
                 norm = np.sqrt(norm)
-                if norm > alpha * ss:
+                if norm <= alpha * ss:
                     for j in range(B_indptr[h], B_indptr[h + 1]):
                         j_idx = B_indices[j]
-                        x[j_idx] *= 1 - alpha * ss / norm
+                        x[j_idx] = 0.0
                 else:
+                    # also if norm is nan: do not turn it into a valid-looking zero
                     for j in range(B_indptr[h], B_indptr[h + 1]):
                         j_idx = B_indices[j]
-                        x[j_idx] = 0.0
+                        x[j_idx] *= 1 - alpha * ss / norm
 
         return _prox_gl, B
 
@@ -260,7 +262,7 @@ class TraceNorm:
     def prox(self, x, step_size):
         X = x.reshape(self.shape)
         U, s, Vt = linalg.svd(X, full_matrices=False)
-        s_threshold = np.fmax(s - self.alpha * step_size, 0) - np.fmax(
+        s_threshold = np.maximum(s - self.alpha * step_size, 0) - np.maximum(
             -s - self.alpha * step_size, 0
         )
         return (U * s_threshold).dot(Vt).ravel()
-- 
2.43.0


From 6056a0c3c54b3b36fd537f1fe29ac4fdc362a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 24/29] fix: proximal gradient claimed success when its line
 search had failed

A step too small to change x made the gradient mapping vanish. A projection
could also hide a gradient that is not finite.
---
 copt/proximal_gradient.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 12ace50..03c1a92 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -6,6 +6,19 @@ from scipy import optimize
 from copt import utils
 
 
+def _gradient_mapping(x, x_next, grad, prox, step_size, tol):
+    """Norm of the gradient mapping at x, where x_next = prox(x - step_size * grad)."""
+    if not np.all(np.isfinite(grad)):
+        # .. a projection may still have returned something finite ..
+        return np.nan
+    norm = np.linalg.norm((x - x_next) / step_size)
+    if norm < tol and not tol * step_size > np.finfo(float).eps * np.linalg.norm(x):
+        # .. such a small step is lost in rounding, whatever the gradient is. The norm ..
+        # .. of the gradient mapping is decreasing in the step: use a larger one ..
+        norm = np.linalg.norm(x - prox(x - grad, 1.0))
+    return norm
+
+
 def minimize_proximal_gradient(
         fun,
         x0,
@@ -175,7 +188,7 @@ def minimize_proximal_gradient(
                 f_next, grad_next = func_and_grad(x_next)
             else:
                 raise ValueError("Step-size strategy not understood")
-            certificate = np.linalg.norm((x - x_next) / step_size)
+            certificate = _gradient_mapping(x, x_next, grad_fk, prox, step_size, tol)
             if trace_certificate:
                 certificate_list.append(certificate)
             x[:] = x_next
@@ -216,11 +229,11 @@ def minimize_proximal_gradient(
                 t_next = (1 + np.sqrt(1 + 4 * tk * tk)) / 2
                 yk = x_next + ((tk - 1.0) / t_next) * (x_next - x)
 
-                x_prox = prox(
-                    x_next - current_step_size * func_and_grad(x_next)[1],
-                    current_step_size,
+                grad_next = func_and_grad(x_next)[1]
+                x_prox = prox(x_next - current_step_size * grad_next, current_step_size)
+                certificate = _gradient_mapping(
+                    x_next, x_prox, grad_next, prox, current_step_size, tol
                 )
-                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 tk = t_next
                 x = x_next.copy()
 
@@ -247,11 +260,11 @@ def minimize_proximal_gradient(
                 t_next = (1 + np.sqrt(1 + 4 * tk * tk)) / 2
                 yk = x_next + ((tk - 1.0) / t_next) * (x_next - x)
 
-                x_prox = prox(
-                    x_next - current_step_size * func_and_grad(x_next)[1],
-                    current_step_size,
+                grad_next = func_and_grad(x_next)[1]
+                x_prox = prox(x_next - current_step_size * grad_next, current_step_size)
+                certificate = _gradient_mapping(
+                    x_next, x_prox, grad_next, prox, current_step_size, tol
                 )
-                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 if trace_certificate:
                     certificate_list.append(certificate)
                 tk = t_next
-- 
2.43.0


From 1339d49843694323264b877de343cb9749da4d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 25/29] fix: splitting methods claimed success when their line
 search had failed

A step too small to change the iterate made the residuals vanish. A projection
could also hide a gradient that is not finite.
---
 copt/splitting.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index f30b3f8..feee55c 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -146,9 +146,21 @@ def minimize_three_split(
                 else:
                     step_size *= backtracking_factor
 
+        certificate = norm_incr / step_size
+        if not np.all(np.isfinite(grad_fk)):
+            # .. a projection may still have returned something finite ..
+            certificate = np.nan
+        elif certificate < tol and not (
+            tol * step_size > np.finfo(float).eps * np.linalg.norm(z)
+        ):
+            # .. such a small step is lost in rounding, whatever u and the gradient are ..
+            certificate = max(
+                np.linalg.norm(z - prox_1(z - (u + grad_fk), 1.0, *args_prox)),
+                np.linalg.norm(z - prox_2(z + u, 1.0, *args_prox)),
+            )
+
         z = prox_2(x + step_size * u, step_size, *args_prox)
         u += (x - z) / step_size
-        certificate = norm_incr / step_size
 
         if ls and h_Lipschitz is not None:
             if h_Lipschitz == 0:
@@ -293,6 +305,7 @@ def minimize_primal_dual(
 
     for it in range(max_iter):
         y_next = prox_2_conj(y + tau * L.matvec(x), tau)
+        incr_trial = None
         if line_search:
             tau_next = tau * (1 + np.sqrt(1 + theta)) / 2
             while True:
@@ -301,6 +314,8 @@ def minimize_primal_dual(
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
                 incr_x = np.linalg.norm(x_next - x)
+                if incr_trial is None:
+                    incr_trial = incr_x
                 incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
                 if not incr_x > 1e-10 or sigma < np.finfo(float).tiny:
@@ -318,9 +333,14 @@ def minimize_primal_dual(
             y_bar = 2 * y_next - y
             x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
             f_next, f_grad_next = f_grad(x_next)
+            incr_trial = np.linalg.norm(x_next - x)
 
         if it % 100 == 0:
-            norm_incr = linalg.norm(x_next - x) + linalg.norm(y_next - y)
+            # .. also the first trial, since a failed line search does not move x ..
+            norm_incr = np.maximum(incr_trial, np.linalg.norm(x_next - x))
+            norm_incr += linalg.norm(y_next - y)
+            if not np.all(np.isfinite(grad_fk)):
+                norm_incr = np.nan
 
         x[:] = x_next[:]
         y[:] = y_next[:]
-- 
2.43.0


From 5758571d49dd30f84ef788dfeeac2dc9afc18950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 26/29] fix: minimize_sfw goes on with the next epoch after the
 tolerance is met, and reports success for a later point

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 64f623c..1843d48 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -962,5 +962,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             i += batch_size
             step += 1
 
+        if success:
+            break
+
     message = ""
     return optimize.OptimizeResult(x=x, success=success, nit=it, message=message)
-- 
2.43.0


From 087c5a1d437fd158eecb656b759b103e0d931aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:49 +0000
Subject: [PATCH 27/29] fix: proximal gradient leaves tiny steps again when the
 decrease is lost in rounding

---
 copt/proximal_gradient.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 03c1a92..3ca87a6 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -172,7 +172,12 @@ def minimize_proximal_gradient(
                         + grad_fk.dot(update_direction)
                         + update_direction.dot(update_direction) / (2.0 * step_size)
                     )
-                    if f_next <= rhs:
+                    if f_next <= rhs or (
+                        # .. lost in rounding: for a convex function, this implies the above ..
+                        f_next - rhs <= 10 * np.finfo(float).eps * abs(fk)
+                        and (grad_next - grad_fk).dot(update_direction)
+                        <= update_direction.dot(update_direction) / (2.0 * step_size)
+                    ):
                         # .. step size found ..
                         break
                     else:
-- 
2.43.0


From f88a0cfa0c3b910b148320af52cc79115b8a81c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:28 +0000
Subject: [PATCH 28/29] fix: finite-difference gradients (jac=False or
 "2-point") in proximal gradient and Frank-Wolfe

The SciPy helper they called no longer exists and the result was not returned; "2-point" was taken
for True. True becomes the default, which is what the default amounted to.
---
 copt/frank_wolfe.py       |  2 +-
 copt/proximal_gradient.py |  2 +-
 copt/utils.py             | 13 +++++++------
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index a919630..5dd25f4 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -125,7 +125,7 @@ def minimize_frank_wolfe(
         lmo,
         x0_rep=None,
         variant='vanilla',
-        jac="2-point",
+        jac=True,
         step="backtracking",
         lipschitz=None,
         args=(),
diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 3ca87a6..a067eeb 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -23,7 +23,7 @@ def minimize_proximal_gradient(
         fun,
         x0,
         prox=None,
-        jac="2-point",
+        jac=True,
         tol=1e-6,
         max_iter=500,
         args=(),
diff --git a/copt/utils.py b/copt/utils.py
index b0bd0f2..afd7012 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -35,19 +35,20 @@ except ImportError:
 
 def build_func_grad(jac, fun, args, eps):
     if not callable(jac):
-        if bool(jac):
-            fun = optimize._optimize.MemoizeJac(fun)
-            jac = fun.derivative
-        elif jac == "2-point":
+        if not jac or jac == "2-point":
             jac = None
-        else:
+        elif isinstance(jac, str):
             raise NotImplementedError("jac has unexpected value.")
+        else:
+            fun = optimize._optimize.MemoizeJac(fun)
+            jac = fun.derivative
 
     if jac is None:
 
         def func_and_grad(x):
             f = fun(x, *args)
-            g = optimize._approx_fprime_helper(x, fun, eps, args=args, f0=f)
+            g = optimize.approx_fprime(x, fun, eps, *args)
+            return f, g
 
     else:
 
-- 
2.43.0


From 96f95040d83997fa97c361d554f51e11c95de298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:59 +0000
Subject: [PATCH 29/29] fix: trace-ball oracle broke ties of singular values by
 entropy of the system, start vector advanced the global generator

---
 copt/constraint.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 835f836..6cf74fe 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -1,3 +1,5 @@
+import inspect
+
 import numpy as np
 from numpy import ma as ma
 from scipy import linalg
@@ -269,6 +271,30 @@ def euclidean_proj_l1ball(v, s=1):
     return w
 
 
+def leading_singular_vectors(mat):
+    """Left and right singular vectors of the largest singular value.
+
+    Depends on nothing but the matrix. (svds starts from a random vector and, if
+    the largest singular value is multiple, goes on from more of them, drawn from
+    the entropy of the operating system.)
+    """
+    if mat.shape[0] > mat.shape[1]:
+        v, u = leading_singular_vectors(mat.T)
+        return u, v
+    n = mat.shape[0]
+    gram = splinalg.LinearOperator(
+        (n, n), matvec=lambda w: mat.dot(mat.T.dot(w)), dtype=mat.dtype
+    )
+    kwargs = {"v0": np.random.RandomState(0).standard_normal(n)}
+    if "rng" in inspect.signature(splinalg.eigsh).parameters:
+        # recent versions of SciPy
+        kwargs["rng"] = np.random.default_rng(0)
+    _, eigvec = splinalg.eigsh(gram, k=1, **kwargs)
+    u = eigvec[:, 0]
+    v = mat.T.dot(u)
+    return u, v / np.sqrt(v.dot(v))
+
+
 class TraceBall:
     """Projection onto the trace (aka nuclear) norm, sum of singular values
 
@@ -322,7 +348,7 @@ class TraceBall:
             # all points are optimal, and svds fails on a zero matrix
             return np.zeros_like(x), None, None, 1.
         u_mat = u.reshape(self.shape)
-        # singular vectors don't depend on the scale, tiny entries underflow in svds
-        ut, _, vt = splinalg.svds(u_mat / np.max(np.abs(u)), k=1)
+        # singular vectors don't depend on the scale, tiny entries underflow
+        ut, vt = leading_singular_vectors(u_mat / np.max(np.abs(u)))
         vertex = self.alpha * np.outer(ut, vt).ravel()
         return vertex - x, None, None, 1.
-- 
2.43.0

