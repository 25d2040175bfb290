From 89a2c7365c261a9095281d367fd919b843b347d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:39 +0000
Subject: [PATCH 01/16] fix: find_all_paths must not consume the edge list of
 the source node

A cycle through the source was walked once and then reported as a path
instead of raising the documented ValueError.
---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 6be6c0c..79fd1c6 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -825,7 +825,7 @@ def find_all_paths(dag, from_index, to_index, min_causal_effect=0.0):
     # DFS
     paths = []
     stack = [from_index]
-    stack_to_indice = [to_indices[from_index]]
+    stack_to_indice = [to_indices[from_index].copy()]
     while stack:
         if len(stack) > dag.shape[0]:
             raise ValueError(
-- 
2.43.0


From f289f44679a5c8927ef70131a844f4787c020d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:39 +0000
Subject: [PATCH 02/16] fix: parents with cancelling coefficients do not make a
 root node

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 79fd1c6..ce119ae 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -1047,7 +1047,7 @@ def calculate_distance_from_root_nodes(adjacency_matrix, max_distance=None):
 
     # find root nodes
     root_indices = np.argwhere(
-        np.isclose(np.sum(adjacency_matrix, axis=1), 0) == True
+        np.isclose(np.sum(np.abs(adjacency_matrix), axis=1), 0) == True
     ).flatten()
     if len(root_indices) == 0:
         raise ValueError("adjacency_matrix has no root nodes.")
-- 
2.43.0


From 56cfbb60c8317dc17cfa2507c1223a5820c27cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:39 +0000
Subject: [PATCH 03/16] fix: optimal intervention must not skip variables with
 cancelling coefficients

---
 lingam/causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 70b08e2..0c9c710 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -223,7 +223,7 @@ class CausalEffect(object):
         En = Ex - np.dot(self._B, Ex)
 
         s = [i for i in range(X.shape[1]) if i != intervention_index]
-        root_vars = np.where(np.sum(self._B, axis=1) == 0)[0].tolist()
+        root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
         s = [i for i in s if i not in root_vars]
         alpha = np.zeros(self._B.shape[1])
 
-- 
2.43.0


From 589a7bdb976ef592314af9cdf7efeeb9bc9ae815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:39 +0000
Subject: [PATCH 04/16] fix: MultiGroupRCD with fcorr must use the largest
 F-correlation of all groups

---
 lingam/multi_group_rcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 3e1537a..5662f1b 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -411,7 +411,7 @@ class MultiGroupRCD:
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
 
-            is_independent = f_corr < self._ind_corr
+            is_independent = max_f_corr < self._ind_corr
 
         return is_independent
 
-- 
2.43.0


From b0ca6d0e91d11ec940e2244ac4fb3bf2701a7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:54 +0000
Subject: [PATCH 05/16] fix: VARMALiNGAM total effects use the block of the
 requested lag

from_lag >= 2 read the lag-1 block, and lagged parents were taken from the
error columns.
---
 lingam/varma_lingam.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 687700c..d16ca30 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -262,14 +262,14 @@ class VARMALiNGAM:
             (X.shape[0], X.shape[1] * (1 + from_lag + self._order[0] + self._order[1]))
         )
 
-        for p in range(1 + self._order[0]):
+        for p in range(1 + from_lag + self._order[0]):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
         for q in range(self._order[1]):
-            pos = n_features * (1 + self._order[0]) + n_features * q
+            pos = n_features * (1 + from_lag + self._order[0]) + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
-                E[:, 0:n_features], q + 1, axis=0
+                E[:, 0:n_features], q + 1 + from_lag, axis=0
             )
 
         # concat psi and omega
@@ -279,8 +279,8 @@ class VARMALiNGAM:
 
         # from_index + parents indices
         parents = np.where(np.abs(am[from_index]) > 0)[0]
-        from_index = from_index if from_lag == 0 else from_index + n_features
-        parents = parents if from_lag == 0 else parents + n_features
+        from_index = from_index + n_features * from_lag
+        parents = parents + n_features * from_lag
         predictors = [from_index]
         predictors.extend(parents)
 
@@ -324,7 +324,7 @@ class VARMALiNGAM:
         am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
 
         # from_index + parents indices
-        from_index = from_index if from_lag == 0 else from_index + n_features
+        from_index = from_index + n_features * from_lag
 
         # Estimate total effect
         effect = calculate_total_effect(am, from_index, to_index)
-- 
2.43.0


From b823ec9644a9ed0f43d1a26e283eddf9fd42d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:54 +0000
Subject: [PATCH 06/16] fix: LongitudinalLiNGAM orders lagged matrices as
 documented, B(t,t-1) first

With n_lags >= 2 the lags were stored in reverse order, which the total
effect estimation then misread.
---
 lingam/longitudinal_lingam.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a697c9..41f8927 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -168,7 +168,6 @@ class LongitudinalLiNGAM:
                 for lag in range(n_taus):
                     adjs[t, lag] = adj[t, t - lag]
             adjs[:self._n_lags] = np.nan
-            adjs[:, 1:] = adjs[:, 1:][:, ::-1]
 
             # make causal_orders
             causal_orders = []
@@ -410,7 +409,7 @@ class LongitudinalLiNGAM:
         X_t = np.array(X_t)
 
         for t in range(self._n_lags, self._T):
-            X = np.vstack(X_t[t - self._n_lags:t])
+            X = np.vstack(X_t[t - self._n_lags:t][::-1])
             y = X_t[t]
 
             reg = LinearRegression()
-- 
2.43.0


From 3fa313a698496f8b9d9b4ef527ef17a33a318d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:25 +0000
Subject: [PATCH 07/16] fix: VARMALiNGAM omega is (I-psi0) theta (I-psi0)^-1

The inverse was passed as np.dot's output buffer and never multiplied.
---
 lingam/varma_lingam.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index d16ca30..7bb85f3 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -420,8 +420,7 @@ class VARMALiNGAM:
         omegas = []
         for j in range(order[1]):
             omega = np.dot(
-                np.eye(psi0.shape[0]) - psi0,
-                thetas[j],
+                np.dot(np.eye(psi0.shape[0]) - psi0, thetas[j]),
                 np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
             )
             omegas.append(omega)
-- 
2.43.0


From 3facf71e2d116a932bdfe7fad31e86aa7059daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:16 +0000
Subject: [PATCH 08/16] fix: VARMALiNGAM prunes with given coefficients

---
 lingam/varma_lingam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 7bb85f3..82f320e 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -124,7 +124,9 @@ class VARMALiNGAM:
                 np.eye(model.adjacency_matrix_.shape[0]) - model.adjacency_matrix_,
                 residuals.T,
             ).T
-            psis, omegas = self._pruning(X, ee, order, model.causal_order_)
+            # residuals of given coefficients start after the first max(p, q) samples
+            X_ = X[X.shape[0] - ee.shape[0] :]
+            psis, omegas = self._pruning(X_, ee, order, model.causal_order_)
 
         self._ar_coefs = phis
         self._ma_coefs = thetas
-- 
2.43.0


From 5fc4b8c8f7202368c28201f50fea09747c74e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:16 +0000
Subject: [PATCH 09/16] fix: LongitudinalLiNGAM with prior knowledge provides
 residuals

---
 lingam/longitudinal_lingam.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 41f8927..2025556 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -185,6 +185,16 @@ class LongitudinalLiNGAM:
                 causal_order = causal_order - min(causal_order)
                 causal_orders.append(causal_order.tolist())
 
+            # residuals N(t) of the reduced form, (I - B(t,t)) N(t) = e(t)
+            residuals = np.full((self._T, self._n, self._p), np.nan)
+            X_t = X_t.reshape(self._T, self._p, self._n)
+            for t in range(self._n_lags, self._T):
+                E = X_t[t] - adjs[t, 0] @ X_t[t]
+                for lag in range(1, n_taus):
+                    E = E - adjs[t, lag] @ X_t[t - lag]
+                residuals[t] = np.linalg.solve(np.eye(self._p) - adjs[t, 0], E).T
+
+            self._residuals = residuals
             self._adjacency_matrices = adjs
             self._causal_orders = causal_orders
 
-- 
2.43.0


From a0c5d95a78e74251a7c1c1e4f59d456cdc3b2108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:19 +0000
Subject: [PATCH 10/16] fix: BottomUpParceLiNGAM tests one variable when every
 HSIC p-value is zero

---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index 8fdfa57..f776a65 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -258,7 +258,7 @@ class BottomUpParceLiNGAM:
                     )
 
                     # Update output
-                    if fisher_stat < max_p_stat:
+                    if fisher_stat < max_p_stat or len(exo_vec) == 0:
                         exo_vec = xi_index
                         eval = fisher_p
                         max_p_stat = fisher_stat
-- 
2.43.0


From bb420778d2fba88449438e49e7ed7f1b2209b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:11 +0000
Subject: [PATCH 11/16] fix: LongitudinalLiNGAM.bootstrap skips time points
 without a causal order

---
 lingam/longitudinal_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 2025556..a59936f 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -249,7 +249,7 @@ class LongitudinalLiNGAM:
             adjacency_matrices[i] = self._adjacency_matrices
 
             # Calculate total effects
-            for from_t in range(start_from_t, self._T):
+            for from_t in range(max(start_from_t, self._n_lags), self._T):
                 for c, from_ in enumerate(self._causal_orders[from_t]):
                     to_t = from_t
                     for to in self._causal_orders[from_t][c + 1 :]:
-- 
2.43.0


From c0b6104b9291c604814cc60aed5aff2b0fe266aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:18 +0000
Subject: [PATCH 12/16] fix: CausalBasedSimulator accepts any array-like
 exogenous data

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index eb0bb68..c58f43f 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -221,7 +221,7 @@ class CausalBasedSimulator:
             if s.shape[0] != n_samples:
                 raise RuntimeError(f"Wrong length. ({s.shape[0]} != {n_samples})")
 
-            changing_exog_[var_name] = values
+            changing_exog_[var_name] = s
 
         return changing_exog_
 
-- 
2.43.0


From a89558d8c1568890876c501cb22a464ab207c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:36 +0000
Subject: [PATCH 13/16] fix: remove_effect on integer data must not truncate
 the residuals

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index ce119ae..f3826fb 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -206,7 +206,7 @@ def remove_effect(X, remove_features, return_coefs=False):
         The order of the coefficients in the list is the same
         as in remove_features. Only provided if return_coefs is True.
     """
-    X = np.copy(check_array(X))
+    X = check_array(X).astype(np.float64)
     coefs = {}
     features_ = [i for i in np.arange(X.shape[1]) if i not in remove_features]
     for feature in features_:
-- 
2.43.0


From ea6bc280ea32c86df36e67b8bb36781be03f8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:36 +0000
Subject: [PATCH 14/16] fix: estimators on integer data must not truncate
 residuals to integers

---
 lingam/camuv.py                     | 2 +-
 lingam/direct_lingam.py             | 2 +-
 lingam/multi_group_camuv.py         | 2 +-
 lingam/multi_group_direct_lingam.py | 2 +-
 lingam/multi_group_rcd.py           | 2 +-
 lingam/rcd.py                       | 2 +-
 lingam/utils/_rcd.py                | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index 89a683f..e63d08d 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -172,7 +172,7 @@ class CAMUV:
         d = X.shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y = copy.deepcopy(X)
+        Y = X.astype(np.float64)
 
         while True:
             changed = False
diff --git a/lingam/direct_lingam.py b/lingam/direct_lingam.py
index 7987bcb..fda1024 100644
--- a/lingam/direct_lingam.py
+++ b/lingam/direct_lingam.py
@@ -90,7 +90,7 @@ class DirectLiNGAM(_BaseLiNGAM):
         # Causal discovery
         U = np.arange(n_features)
         K = []
-        X_ = np.copy(X)
+        X_ = X.astype(np.float64)
         if self._measure == "kernel":
             X_ = scale(X_)
 
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index 5ae2d23..391f35b 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -215,7 +215,7 @@ class MultiGroupCAMUV:
         d = X_list[0].shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y_list = [copy.deepcopy(X) for X in X_list]
+        Y_list = [X.astype(np.float64) for X in X_list]
 
         while True:
             changed = False
diff --git a/lingam/multi_group_direct_lingam.py b/lingam/multi_group_direct_lingam.py
index 89c1032..a1a6469 100644
--- a/lingam/multi_group_direct_lingam.py
+++ b/lingam/multi_group_direct_lingam.py
@@ -80,7 +80,7 @@ class MultiGroupDirectLiNGAM(DirectLiNGAM):
         # Causal discovery
         U = np.arange(self._n_features)
         K = []
-        X_list_ = [np.copy(X) for X in X_list]
+        X_list_ = [X.astype(np.float64) for X in X_list]
         for _ in range(self._n_features):
             m = self._search_causal_order(X_list_, U)
             for i in U:
diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 5662f1b..a0479bb 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -346,7 +346,7 @@ class MultiGroupRCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros_like(X, dtype=np.float64)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/rcd.py b/lingam/rcd.py
index c772d38..ad9dbef 100644
--- a/lingam/rcd.py
+++ b/lingam/rcd.py
@@ -146,7 +146,7 @@ class RCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros_like(X, dtype=np.float64)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/utils/_rcd.py b/lingam/utils/_rcd.py
index 0f221a7..c6797eb 100644
--- a/lingam/utils/_rcd.py
+++ b/lingam/utils/_rcd.py
@@ -127,7 +127,7 @@ def get_residual_matrix(X, U, H_U):
     if len(H_U) == 0:
         return X
 
-    Y = np.zeros_like(X)
+    Y = np.zeros_like(X, dtype=np.float64)
     for xj in U:
         Y[:, xj], _ = get_resid_and_coef(X, xj, list(H_U))
     return Y
-- 
2.43.0


From d38f117d94c42dee2fae6465f6fe7577f0e411c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:50 +0000
Subject: [PATCH 15/16] fix: HighDimDirectLiNGAM on integer data must not
 overflow in its moments

---
 lingam/high_dim_direct_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index 2251888..c1aa9a5 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -61,7 +61,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
             Fitted model.
         """
 
-        self._Y = check_array(X)
+        self._Y = check_array(X, dtype=np.float64)
 
         self._yty = self._Y.T @ self._Y
 
-- 
2.43.0


From 2275b340e8837d5d72a49a0b2cfc3e74a0b9187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:50 +0000
Subject: [PATCH 16/16] fix: extract_ancestors accepts any array-like data

---
 lingam/utils/_rcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_rcd.py b/lingam/utils/_rcd.py
index c6797eb..bafb414 100644
--- a/lingam/utils/_rcd.py
+++ b/lingam/utils/_rcd.py
@@ -50,13 +50,13 @@ def extract_ancestors(
         * ``scott`` : Scott's Rule of Thumb.
         * ``silverman`` : Silverman's Rule of Thumb.
     """
+    X = check_array(X)
+
     n_features = X.shape[1]
     M = [set() for i in range(n_features)]
     l = 1
     hu_history = {}
 
-    X = check_array(X)
-
     while True:
         changed = False
         U_list = itertools.combinations(range(n_features), l + 1)
-- 
2.43.0

