From ff769bc930a1effe06936e790b3d23b4a6bf4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:24 +0000
Subject: [PATCH 01/36] fix: make_prior_knowledge accepts array declarations

A numpy array was tested for truth, so it raised, or was silently ignored
when it held only variable 0.
---
 lingam/utils/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 6be6c0c..ddc122a 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -126,16 +126,16 @@ def make_prior_knowledge(
         Return matrix of prior knowledge used for causal discovery.
     """
     prior_knowledge = np.full((n_variables, n_variables), -1)
-    if no_paths:
+    if no_paths is not None:
         for no_path in no_paths:
             prior_knowledge[no_path[1], no_path[0]] = 0
-    if paths:
+    if paths is not None:
         for path in paths:
             prior_knowledge[path[1], path[0]] = 1
-    if sink_variables:
+    if sink_variables is not None:
         for var in sink_variables:
             prior_knowledge[:, var] = 0
-    if exogenous_variables:
+    if exogenous_variables is not None:
         for var in exogenous_variables:
             prior_knowledge[var, :] = 0
     np.fill_diagonal(prior_knowledge, -1)
-- 
2.43.0


From c02d719327f71e9611577875aec258431ad42f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:41 +0000
Subject: [PATCH 02/36] fix: make_dot accepts labels given as an array

The documented array-like labels were tested for truth, which raises for an
array or an index of more than one label.
---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index ddc122a..ea6e600 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -340,7 +340,7 @@ def make_dot(
     d = graphviz.Digraph(engine="dot")
 
     # nodes
-    names = labels if labels else [f"x{i}" for i in range(len(B))]
+    names = labels if labels is not None else [f"x{i}" for i in range(len(B))]
     for name in names:
         kwargs = {}
         if path is not None:
-- 
2.43.0


From c0b9cf55fc7da5f5dbbc03778909c6e300898a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:41 +0000
Subject: [PATCH 03/36] fix: make_dot_highlight highlights the nodes of the
 requested path

Node indices were looked up in a list of node names, so no node was ever
highlighted.
---
 lingam/utils/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index ea6e600..23a73d9 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -666,9 +666,9 @@ def make_dot_highlight(
             for i, node in enumerate(nodes):
                 node_id = get_node_id(cls_name, node)
                 pos_x = hmargin * i + offset_x
-                kwargs = {}
+                kwargs = {"color": color}
                 if path is not None:
-                    if node in path_nodes:
+                    if node_names[node] in path_nodes:
                         kwargs["fontcolor"] = path_color
                         kwargs["color"] = path_color
                     if node == path_start or node == path_end:
@@ -677,7 +677,6 @@ def make_dot_highlight(
                     node_id,
                     node_names[node],
                     pos=f"{pos_x},{pos_y}!",
-                    color=color,
                     **kwargs,
                 )
                 node_ids[node].append((node_id, dist))
-- 
2.43.0


From f8c04f0c50ba7f448090757babb73fff08bfd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:25 +0000
Subject: [PATCH 04/36] fix: calculate_distance_from_root_nodes does not take
 cancelling coefficients for a root

A variable whose incoming coefficients sum to zero was treated as a root.
---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 23a73d9..86e1cc1 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -1046,7 +1046,7 @@ def calculate_distance_from_root_nodes(adjacency_matrix, max_distance=None):
 
     # find root nodes
     root_indices = np.argwhere(
-        np.isclose(np.sum(adjacency_matrix, axis=1), 0) == True
+        np.isclose(np.sum(np.abs(adjacency_matrix), axis=1), 0) == True
     ).flatten()
     if len(root_indices) == 0:
         raise ValueError("adjacency_matrix has no root nodes.")
-- 
2.43.0


From 63b413c02ebd865a535dae86403dbb51d6b2ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:45 +0000
Subject: [PATCH 05/36] fix: estimate_optimal_intervention does not take
 cancelling coefficients for a root

A variable whose incoming coefficients sum to zero kept its observed mean and
was not propagated.
---
 lingam/causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 70b08e2..0c9c710 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -223,7 +223,7 @@ class CausalEffect(object):
         En = Ex - np.dot(self._B, Ex)
 
         s = [i for i in range(X.shape[1]) if i != intervention_index]
-        root_vars = np.where(np.sum(self._B, axis=1) == 0)[0].tolist()
+        root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
         s = [i for i in s if i not in root_vars]
         alpha = np.zeros(self._B.shape[1])
 
-- 
2.43.0


From 56f8d2401e510b93da2243f27b5d66e4d44fc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 06/36] fix: BottomUpParceLiNGAM rejects when every
 independence test has p-value 0

With all p-values exactly 0 no candidate was selected, so every remaining
variable was appended in index order as if its test had been accepted.
---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index 8fdfa57..b387b68 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -258,7 +258,7 @@ class BottomUpParceLiNGAM:
                     )
 
                     # Update output
-                    if fisher_stat < max_p_stat:
+                    if len(exo_vec) == 0 or fisher_stat < max_p_stat:
                         exo_vec = xi_index
                         eval = fisher_p
                         max_p_stat = fisher_stat
-- 
2.43.0


From 5d618c897f6abb7b3a0085b2aac989138b24f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:14 +0000
Subject: [PATCH 07/36] fix: VARLiNGAM.fit leaves the given lags and AR
 coefficients alone

fit() overwrote them with the estimates, so a second fit or a later bootstrap
reused the AR coefficients of the first data set, pruning used the maximum
instead of the selected number of lags, and each bootstrap sample was drawn
from the residuals of the previous one.
---
 lingam/var_lingam.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 6883b9b..110d982 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -105,8 +105,8 @@ class VARLiNGAM:
         if self._prune:
             B_taus = self._pruning(X, B_taus, model.causal_order_)
 
-        self._ar_coefs = M_taus
-        self._lags = lags
+        self._fitted_ar_coefs = M_taus
+        self._fitted_lags = lags
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -135,24 +135,20 @@ class VARLiNGAM:
         n_samples = X.shape[0]
         n_features = X.shape[1]
 
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        lags = self._lags
-
         criterion = self._criterion
         self._criterion = None
 
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
+        fitted_ar_coefs = self._fitted_ar_coefs
+        residuals = self._residuals
+        lags = self._fitted_lags
 
-        total_effects = np.zeros(
-            [n_sampling, n_features, n_features * (1 + self._lags)]
-        )
+        total_effects = np.zeros([n_sampling, n_features, n_features * (1 + lags)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
@@ -166,10 +162,6 @@ class VARLiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j]
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._lags = lags
-
             self.fit(resampled_X)
             am = np.concatenate([*self._adjacency_matrices], axis=1)
             adjacency_matrices.append(am)
@@ -183,7 +175,7 @@ class VARLiNGAM:
                     )
 
                 # time t-tau
-                for lag in range(self._lags):
+                for lag in range(lags):
                     for from_ in range(n_features):
                         total_effects[
                             i, to, from_ + n_features * (lag + 1)
@@ -226,8 +218,8 @@ class VARLiNGAM:
                 )
 
         # X + lagged X
-        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + self._lags + from_lag)))
-        for p in range(1 + self._lags + from_lag):
+        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + self._fitted_lags + from_lag)))
+        for p in range(1 + self._fitted_lags + from_lag):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
@@ -367,18 +359,19 @@ class VARLiNGAM:
     def _pruning(self, X, B_taus, causal_order):
         """Prune edges"""
         n_features = X.shape[1]
+        lags = len(B_taus) - 1
 
         stacked = [np.flip(X, axis=0)]
-        for i in range(self._lags):
+        for i in range(lags):
             stacked.append(np.roll(stacked[-1], -1, axis=0))
-        blocks = np.array(list(zip(*stacked)))[: -self._lags]
+        blocks = np.array(list(zip(*stacked)))[:-lags]
 
         for i in range(n_features):
             causal_order_no = causal_order.index(i)
             ancestor_indexes = causal_order[:causal_order_no]
 
             obj = np.zeros((len(blocks)))
-            exp = np.zeros((len(blocks), causal_order_no + n_features * self._lags))
+            exp = np.zeros((len(blocks), causal_order_no + n_features * lags))
             for j, block in enumerate(blocks):
                 obj[j] = block[0][i]
                 exp[j:] = np.concatenate(
-- 
2.43.0


From 4a38c132600f15b1248f1cfdfedb334a15a4ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:14 +0000
Subject: [PATCH 08/36] fix: total effects of lagged variables include paths
 through earlier time points

estimate_total_effect2 of VARLiNGAM and VARMALiNGAM dropped every path with an
edge between lagged variables, and VARMALiNGAM took any from_lag for lag 1.
---
 lingam/var_lingam.py   | 14 ++++++++------
 lingam/varma_lingam.py | 15 ++++++++-------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 110d982..971960d 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -267,12 +267,14 @@ class VARLiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # from_index + parents indices
-        am = np.concatenate([*self._adjacency_matrices], axis=1)
-        am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
-        from_index = (
-            from_index if from_lag == 0 else from_index + (n_features * from_lag)
-        )
+        # unroll the model over the time points t, t-1, ..., t-from_lag
+        am = np.zeros((n_features * (1 + from_lag), n_features * (1 + from_lag)))
+        for i in range(1 + from_lag):
+            for lag, B in enumerate(self._adjacency_matrices[: 1 + from_lag - i]):
+                row = n_features * i
+                col = n_features * (i + lag)
+                am[row : row + n_features, col : col + n_features] = B
+        from_index = from_index + n_features * from_lag
 
         effect = calculate_total_effect(am, from_index, to_index)
 
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 687700c..1698ee3 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -318,13 +318,14 @@ class VARMALiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # concat psi and omega
-        psi = self._adjacency_matrices[0]
-        am = np.concatenate([*psi], axis=1)
-        am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
-
-        # from_index + parents indices
-        from_index = from_index if from_lag == 0 else from_index + n_features
+        # unroll the model over the time points t, t-1, ..., t-from_lag
+        am = np.zeros((n_features * (1 + from_lag), n_features * (1 + from_lag)))
+        for i in range(1 + from_lag):
+            for lag, psi in enumerate(self._adjacency_matrices[0][: 1 + from_lag - i]):
+                row = n_features * i
+                col = n_features * (i + lag)
+                am[row : row + n_features, col : col + n_features] = psi
+        from_index = from_index + n_features * from_lag
 
         # Estimate total effect
         effect = calculate_total_effect(am, from_index, to_index)
-- 
2.43.0


From ed537ce836f7f15dddd1399d569c2eb38fcb33f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:14 +0000
Subject: [PATCH 09/36] fix: VARMALiNGAM.estimate_total_effect adjusts for the
 parents of a lagged source

With from_lag > 0 the parents were looked up in the wrong columns: lagged
variables were taken from the error block or from columns left at zero, and
any from_lag was taken for lag 1.
---
 lingam/varma_lingam.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 1698ee3..b82f948 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -257,17 +257,17 @@ class VARMALiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # X + lagged X
-        X_joined = np.zeros(
-            (X.shape[0], X.shape[1] * (1 + from_lag + self._order[0] + self._order[1]))
-        )
+        # X + lagged X + lagged E
+        n_lagged_X = 1 + self._order[0] + from_lag
+        n_lagged_E = self._order[1] + from_lag
+        X_joined = np.zeros((X.shape[0], n_features * (n_lagged_X + n_lagged_E)))
 
-        for p in range(1 + self._order[0]):
+        for p in range(n_lagged_X):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-        for q in range(self._order[1]):
-            pos = n_features * (1 + self._order[0]) + n_features * q
+        for q in range(n_lagged_E):
+            pos = n_features * (n_lagged_X + q)
             X_joined[:, pos : pos + n_features] = np.roll(
                 E[:, 0:n_features], q + 1, axis=0
             )
@@ -279,8 +279,9 @@ class VARMALiNGAM:
 
         # from_index + parents indices
         parents = np.where(np.abs(am[from_index]) > 0)[0]
-        from_index = from_index if from_lag == 0 else from_index + n_features
-        parents = parents if from_lag == 0 else parents + n_features
+        from_index = from_index + n_features * from_lag
+        is_error = parents >= n_features * (1 + self._order[0])
+        parents = parents + n_features * from_lag * (1 + is_error)
         predictors = [from_index]
         predictors.extend(parents)
 
-- 
2.43.0


From 7290fcb0a17a4eac2dccc66a02382270ab0640a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:46 +0000
Subject: [PATCH 10/36] fix: VARMALiNGAM multiplies the MA coefficients by the
 inverse of I - psi0

The inverse was passed to np.dot as the output array, so omega was
(I - psi0) theta instead of (I - psi0) theta (I - psi0)^-1.
---
 lingam/varma_lingam.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index b82f948..3fc071a 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -422,8 +422,7 @@ class VARMALiNGAM:
         omegas = []
         for j in range(order[1]):
             omega = np.dot(
-                np.eye(psi0.shape[0]) - psi0,
-                thetas[j],
+                np.dot(np.eye(psi0.shape[0]) - psi0, thetas[j]),
                 np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
             )
             omegas.append(omega)
-- 
2.43.0


From e6a8f81077e0621f5505800302cf248053a7fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 11/36] fix: VARMALiNGAM prunes with given AR and MA
 coefficients

The residuals are then shorter than the data and fit() raised ValueError.
---
 lingam/varma_lingam.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 3fc071a..4cbd074 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -124,7 +124,10 @@ class VARMALiNGAM:
                 np.eye(model.adjacency_matrix_.shape[0]) - model.adjacency_matrix_,
                 residuals.T,
             ).T
-            psis, omegas = self._pruning(X, ee, order, model.causal_order_)
+            # the errors of the first time points are not available
+            psis, omegas = self._pruning(
+                X[len(X) - len(ee) :], ee, order, model.causal_order_
+            )
 
         self._ar_coefs = phis
         self._ma_coefs = thetas
-- 
2.43.0


From 35036df3c781c021cc373316fdcca09846ead417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 12/36] fix: VARMALiNGAM.fit leaves the given order and
 coefficients alone

fit() overwrote them with the estimates, so a second fit or a later bootstrap
reused the coefficients of the first data set, and each bootstrap sample was
drawn from the residuals of the previous one.
---
 lingam/varma_lingam.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 4cbd074..5ebee99 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -129,9 +129,9 @@ class VARMALiNGAM:
                 X[len(X) - len(ee) :], ee, order, model.causal_order_
             )
 
-        self._ar_coefs = phis
-        self._ma_coefs = thetas
-        self._order = order
+        self._fitted_ar_coefs = phis
+        self._fitted_ma_coefs = thetas
+        self._fitted_order = order
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -159,25 +159,22 @@ class VARMALiNGAM:
 
         n_samples = X.shape[0]
         n_features = X.shape[1]
-        (p, q) = self._order
-
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        ma_coefs = self._ma_coefs
 
         criterion = self._criterion
         self._criterion = None
 
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
-        fitted_ma_coefs = self._ma_coefs
+        fitted_ar_coefs = self._fitted_ar_coefs
+        fitted_ma_coefs = self._fitted_ma_coefs
+        residuals = self._residuals
+        (p, q) = self._fitted_order
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
@@ -195,10 +192,6 @@ class VARMALiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j] + ma
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._ma_coefs = ma_coefs
-
             self.fit(resampled_X)
 
             psi = self._adjacency_matrices[0]
@@ -223,7 +216,7 @@ class VARMALiNGAM:
 
         self._criterion = criterion
 
-        return VARMABootstrapResult(adjacency_matrices, total_effects, self._order)
+        return VARMABootstrapResult(adjacency_matrices, total_effects, (p, q))
 
     def estimate_total_effect(self, X, E, from_index, to_index, from_lag=0):
         """Estimate total effect using causal model.
@@ -261,8 +254,8 @@ class VARMALiNGAM:
                 )
 
         # X + lagged X + lagged E
-        n_lagged_X = 1 + self._order[0] + from_lag
-        n_lagged_E = self._order[1] + from_lag
+        n_lagged_X = 1 + self._fitted_order[0] + from_lag
+        n_lagged_E = self._fitted_order[1] + from_lag
         X_joined = np.zeros((X.shape[0], n_features * (n_lagged_X + n_lagged_E)))
 
         for p in range(n_lagged_X):
@@ -283,7 +276,7 @@ class VARMALiNGAM:
         # from_index + parents indices
         parents = np.where(np.abs(am[from_index]) > 0)[0]
         from_index = from_index + n_features * from_lag
-        is_error = parents >= n_features * (1 + self._order[0])
+        is_error = parents >= n_features * (1 + self._fitted_order[0])
         parents = parents + n_features * from_lag * (1 + is_error)
         predictors = [from_index]
         predictors.extend(parents)
-- 
2.43.0


From f59d27681f36452908bd14831e2784a91e31d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 13/36] fix: LongitudinalLiNGAM stores B(t,t-1) before B(t,t-2)

With n_lags > 1 the lagged matrices were stored oldest first, against the
documentation and against estimate_total_effect and the bootstrap summaries.
---
 lingam/longitudinal_lingam.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a697c9..41f8927 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -168,7 +168,6 @@ class LongitudinalLiNGAM:
                 for lag in range(n_taus):
                     adjs[t, lag] = adj[t, t - lag]
             adjs[:self._n_lags] = np.nan
-            adjs[:, 1:] = adjs[:, 1:][:, ::-1]
 
             # make causal_orders
             causal_orders = []
@@ -410,7 +409,7 @@ class LongitudinalLiNGAM:
         X_t = np.array(X_t)
 
         for t in range(self._n_lags, self._T):
-            X = np.vstack(X_t[t - self._n_lags:t])
+            X = np.vstack(X_t[t - self._n_lags:t][::-1])
             y = X_t[t]
 
             reg = LinearRegression()
-- 
2.43.0


From 08b4b0589ac22edb595c201f661f918f4a26ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 14/36] fix: LongitudinalLiNGAM skips the time points without
 estimates when n_lags > 1

bootstrap() and get_error_independence_p_values() started at t=1 and failed on
the time points for which no model is estimated.
---
 lingam/longitudinal_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 41f8927..8a7a667 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -239,7 +239,7 @@ class LongitudinalLiNGAM:
             adjacency_matrices[i] = self._adjacency_matrices
 
             # Calculate total effects
-            for from_t in range(start_from_t, self._T):
+            for from_t in range(max(start_from_t, self._n_lags), self._T):
                 for c, from_ in enumerate(self._causal_orders[from_t]):
                     to_t = from_t
                     for to in self._causal_orders[from_t][c + 1 :]:
@@ -386,7 +386,7 @@ class LongitudinalLiNGAM:
 
         p_values_list = np.zeros([self._T, self._p, self._p])
         p_values_list[:, :, :] = np.nan
-        for t in range(1, self._T):
+        for t in range(self._n_lags, self._T):
             p_values = np.zeros([self._p, self._p])
             for i, j in itertools.combinations(range(self._p), 2):
                 _, p_value = hsic_test_gamma(
-- 
2.43.0


From 9c0c2220ba987b8c7d44309b7ff3029904cf107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 15/36] fix: LongitudinalLiNGAM provides residuals with prior
 knowledge

---
 lingam/longitudinal_lingam.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a7a667..9a0f691 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -185,6 +185,13 @@ class LongitudinalLiNGAM:
                 causal_order = causal_order - min(causal_order)
                 causal_orders.append(causal_order.tolist())
 
+            # residuals N(t)
+            X_t = np.split(X_t, self._T)
+            self._residuals = np.full((self._T, self._n, self._p), np.nan)
+            for t in range(self._n_lags, self._T):
+                E = X_t[t] - sum(adjs[t, lag] @ X_t[t - lag] for lag in range(n_taus))
+                self._residuals[t] = np.linalg.solve(np.eye(self._p) - adjs[t, 0], E).T
+
             self._adjacency_matrices = adjs
             self._causal_orders = causal_orders
 
-- 
2.43.0


From 218db5ccfe044bce8784ec0a7a11b8b1894305fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 16/36] fix: residuals of integer-valued data are not truncated

---
 lingam/direct_lingam.py             | 2 +-
 lingam/multi_group_direct_lingam.py | 2 +-
 lingam/multi_group_rcd.py           | 2 +-
 lingam/rcd.py                       | 2 +-
 lingam/utils/_rcd.py                | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lingam/direct_lingam.py b/lingam/direct_lingam.py
index 7987bcb..fda1024 100644
--- a/lingam/direct_lingam.py
+++ b/lingam/direct_lingam.py
@@ -90,7 +90,7 @@ class DirectLiNGAM(_BaseLiNGAM):
         # Causal discovery
         U = np.arange(n_features)
         K = []
-        X_ = np.copy(X)
+        X_ = X.astype(np.float64)
         if self._measure == "kernel":
             X_ = scale(X_)
 
diff --git a/lingam/multi_group_direct_lingam.py b/lingam/multi_group_direct_lingam.py
index 89c1032..a1a6469 100644
--- a/lingam/multi_group_direct_lingam.py
+++ b/lingam/multi_group_direct_lingam.py
@@ -80,7 +80,7 @@ class MultiGroupDirectLiNGAM(DirectLiNGAM):
         # Causal discovery
         U = np.arange(self._n_features)
         K = []
-        X_list_ = [np.copy(X) for X in X_list]
+        X_list_ = [X.astype(np.float64) for X in X_list]
         for _ in range(self._n_features):
             m = self._search_causal_order(X_list_, U)
             for i in U:
diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 3e1537a..36ea2b2 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -346,7 +346,7 @@ class MultiGroupRCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros_like(X, dtype=np.float64)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/rcd.py b/lingam/rcd.py
index c772d38..ad9dbef 100644
--- a/lingam/rcd.py
+++ b/lingam/rcd.py
@@ -146,7 +146,7 @@ class RCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros_like(X, dtype=np.float64)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/utils/_rcd.py b/lingam/utils/_rcd.py
index 0f221a7..c6797eb 100644
--- a/lingam/utils/_rcd.py
+++ b/lingam/utils/_rcd.py
@@ -127,7 +127,7 @@ def get_residual_matrix(X, U, H_U):
     if len(H_U) == 0:
         return X
 
-    Y = np.zeros_like(X)
+    Y = np.zeros_like(X, dtype=np.float64)
     for xj in U:
         Y[:, xj], _ = get_resid_and_coef(X, xj, list(H_U))
     return Y
-- 
2.43.0


From eb61df797d14e173b6fccd3ac0561a05a92acd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 17/36] fix: MultiGroupRCD takes the largest F-correlation over
 the groups

---
 lingam/multi_group_rcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 36ea2b2..a0479bb 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -411,7 +411,7 @@ class MultiGroupRCD:
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
 
-            is_independent = f_corr < self._ind_corr
+            is_independent = max_f_corr < self._ind_corr
 
         return is_independent
 
-- 
2.43.0


From 41f373966d47671c6e19c044f58e39c8cebb7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:01 +0000
Subject: [PATCH 18/36] fix: printed summaries accept labels given as an array

The documented array-like labels were tested for truth, which raises for an
array or an index of more than one label.
---
 lingam/utils/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 86e1cc1..a47ac79 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -62,7 +62,7 @@ def print_causal_directions(cdc, n_sampling, labels=None):
     """
     for i, (fr, to, co) in enumerate(zip(cdc["from"], cdc["to"], cdc["count"])):
         sign = "" if "sign" not in cdc else "(b>0)" if cdc["sign"][i] > 0 else "(b<0)"
-        if labels:
+        if labels is not None:
             print(f"{labels[to]} <--- {labels[fr]} {sign} ({100*co/n_sampling:.1f}%)")
         else:
             print(f"x{to} <--- x{fr} {sign} ({100*co/n_sampling:.1f}%)")
@@ -88,7 +88,7 @@ def print_dagc(dagc, n_sampling, labels=None):
             sign = (
                 "" if "sign" not in dag else "(b>0)" if dag["sign"][j] > 0 else "(b<0)"
             )
-            if labels:
+            if labels is not None:
                 print("\t" + f"{labels[to]} <--- {labels[fr]} {sign}")
             else:
                 print("\t" + f"x{to} <--- x{fr} {sign}")
-- 
2.43.0


From 677d1fb5b772c121edd1333718be77274ed71103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:47 +0000
Subject: [PATCH 19/36] fix: CAM-UV with F-correlation handles sets of more
 than two variables

---
 lingam/camuv.py             | 2 +-
 lingam/multi_group_camuv.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index 89a683f..b276e32 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -150,7 +150,7 @@ class CAMUV:
             _, value = hsic_test_gamma(X, Y)
             is_independent = value > threshold
         elif self._independence == "fcorr":
-            value = f_correlation(X, Y)
+            value = max(f_correlation(X, Y[:, [i]]) for i in range(Y.shape[1]))
             is_independent = value < threshold
         return is_independent, value
 
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index 5ae2d23..99c2e1c 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -186,9 +186,10 @@ class MultiGroupCAMUV:
         elif self._independence == "fcorr":
             max_f_corr = 0.0
             for X, Y in zip(X_list, Y_list):
-                f_corr = f_correlation(X, Y)
-                if f_corr > max_f_corr:
-                    max_f_corr = f_corr
+                for i in range(Y.shape[1]):
+                    f_corr = f_correlation(X, Y[:, [i]])
+                    if f_corr > max_f_corr:
+                        max_f_corr = f_corr
             is_independent = max_f_corr < threshold
             value = max_f_corr
         return is_independent, value
-- 
2.43.0


From f3079d9f4f7cb8a288456e9b4f1e6d22901e569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 20/36] fix: CAM-UV and remove_effect do not truncate residuals
 of integer-valued data

---
 lingam/camuv.py             | 2 +-
 lingam/multi_group_camuv.py | 2 +-
 lingam/utils/__init__.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index b276e32..f4a8c8a 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -172,7 +172,7 @@ class CAMUV:
         d = X.shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y = copy.deepcopy(X)
+        Y = X.astype(np.float64)
 
         while True:
             changed = False
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index 99c2e1c..042a224 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -216,7 +216,7 @@ class MultiGroupCAMUV:
         d = X_list[0].shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y_list = [copy.deepcopy(X) for X in X_list]
+        Y_list = [X.astype(np.float64) for X in X_list]
 
         while True:
             changed = False
diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index a47ac79..7cc60a8 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -206,7 +206,7 @@ def remove_effect(X, remove_features, return_coefs=False):
         The order of the coefficients in the list is the same
         as in remove_features. Only provided if return_coefs is True.
     """
-    X = np.copy(check_array(X))
+    X = check_array(X).astype(np.float64)
     coefs = {}
     features_ = [i for i in np.arange(X.shape[1]) if i not in remove_features]
     for feature in features_:
-- 
2.43.0


From f22227cc923d05bb65432eb63697797bb5bc1e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:23 +0000
Subject: [PATCH 21/36] fix: CausalBasedSimulator.run() before train() raises
 the documented RuntimeError

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index eb0bb68..95875fa 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -119,7 +119,7 @@ class CausalBasedSimulator:
             simulated data.
         """
 
-        if self._train_result is None:
+        if getattr(self, "_train_result", None) is None:
             raise RuntimeError("run() must be executed after train() is executed")
 
         random_state = check_random_state(random_state)
-- 
2.43.0


From 066841dfbd9ec98c3dc0c5e9150ffdceca797084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:23 +0000
Subject: [PATCH 22/36] fix: CausalBasedSimulator accepts every array-like as
 changing_exog values

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 95875fa..c67c078 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -221,7 +221,7 @@ class CausalBasedSimulator:
             if s.shape[0] != n_samples:
                 raise RuntimeError(f"Wrong length. ({s.shape[0]} != {n_samples})")
 
-            changing_exog_[var_name] = values
+            changing_exog_[var_name] = s
 
         return changing_exog_
 
-- 
2.43.0


From 64d95449af1323a7ff709e7278dc00bcf297afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:23 +0000
Subject: [PATCH 23/36] fix: time series simulation accepts non-string column
 names and is_discrete arrays

---
 lingam/causal_based_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index c67c078..1f66924 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -744,13 +744,13 @@ class CBSITimeSeriesLiNGAM(CBSILiNGAM):
                 index_format = "[t]"
             else:
                 index_format = f"[t-{i}]"
-            endog_names += [name + index_format for name in endog_names_]
+            endog_names += [f"{name}{index_format}" for name in endog_names_]
 
         if is_discrete is None:
             is_discrete = [False for _ in range(n_features)]
             is_discrete *= self._n_lags + 1
         else:
-            is_discrete = is_discrete * (self._n_lags + 1)
+            is_discrete = list(is_discrete) * (self._n_lags + 1)
 
         discrete_endog_names = np.array(endog_names)[is_discrete].tolist()
 
-- 
2.43.0


From a28b8fba5ea47b137c70b57393bfe6c410e05da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:23 +0000
Subject: [PATCH 24/36] fix: simulated discrete variables stay numeric when
 their model is replaced

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 1f66924..36109f6 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -782,7 +782,7 @@ class _LogisticRegression():
     def predict(self, X):
         if len(self._coef) == 0:
             return np.zeros((len(X), 1))
-        return expit((self._coef @ X.T).T) >= 0.5
+        return (expit((self._coef @ X.T).T) >= 0.5).astype(float)
 
     @property
     def coef_(self):
-- 
2.43.0


From 2fce00eeae180c09b383c4b633e9da65eb97dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:22 +0000
Subject: [PATCH 25/36] fix: CausalDataGenerator.generate without adjustments
 raised AttributeError

---
 lingam/experimental/cdg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index db4efbe..627ed17 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -213,7 +213,7 @@ class CausalDataGenerator:
                 generated[self._cause] = predicted
                 if self._X[self._cause].dtype == "category":
                     generated[self._cause] = pd.Categorical(generated[self._cause])
-            else:
+            elif self.model_cause_ is not None:
                 if self._X[self._cause].dtype != "category":
                     predicted = self.model_cause_.predict(generated[self._adjustments])
                     generated[self._cause] += np.array(predicted)
-- 
2.43.0


From 83eed219c774b8b9389bbc7ef7d77e838f73dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:22 +0000
Subject: [PATCH 26/36] fix: CausalDataGenerator.generate ignored interv_endog
 of adjustments

---
 lingam/experimental/cdg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 627ed17..5aeb01e 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -196,6 +196,11 @@ class CausalDataGenerator:
         for name, interv_exog_ in interv_exog.items():
             generated[name] = interv_exog_
 
+        # adjustments have no causes in the model
+        for name in self._adjustments:
+            if name in interv_endog.keys():
+                generated[name] = interv_endog[name]
+
         # cause
         if self._cause in interv_endog.keys():
             generated[self._cause] = interv_endog[self._cause]
-- 
2.43.0


From 853325ece7b339c3b496d815eac3a070ae4de535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:22 +0000
Subject: [PATCH 27/36] fix: CausalDataGenerator.generate raised KeyError when
 X had unused columns

---
 lingam/experimental/cdg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 5aeb01e..6678cbd 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -275,7 +275,8 @@ class CausalDataGenerator:
                     generated[self._effect] = np.array(predicted)
                     generated[self._effect] = pd.Categorical(generated[self._effect])
 
-        generated_values = generated.loc[self._X.index, self._X.columns]
+        columns = [name for name in self._X.columns if name in generated.columns]
+        generated_values = generated.loc[self._X.index, columns]
 
         return generated_values
 
-- 
2.43.0


From a38a057cb41aef8102fdf52ff702025f16af5f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:19 +0000
Subject: [PATCH 28/36] fix: OutOfSampleCausalTuning did not reject
 configurations without a model

---
 lingam/experimental/oct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/oct.py b/lingam/experimental/oct.py
index c26621e..b61ac0d 100644
--- a/lingam/experimental/oct.py
+++ b/lingam/experimental/oct.py
@@ -208,7 +208,7 @@ class OutOfSampleCausalTuning():
                 config_[key] = value
 
             # check
-            if config_["all_others"] is False and "model" not in config_.keys():
+            if config_["all_others"] is False and config_["model"] is None:
                 raise ValueError(f"model is not specified (config[{config_idx}])")
             elif config_["all_others"] is True:
                 config_["model"] = None
-- 
2.43.0


From 4e93e4516315ebb8debad401b98d3c9dbafcd34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:25 +0000
Subject: [PATCH 29/36] fix: LiM.fit replaced the constructor's loss type, so a
 second fit optimised another loss

---
 lingam/lim.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index e25e9db..e05dccc 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -96,21 +96,21 @@ class LiM:
         def _loss(W):
             """Evaluate value and gradient of loss."""
             M = X @ W
-            if self._loss_type == "logistic":
+            if loss_type == "logistic":
                 loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
                 G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
-            elif self._loss_type == "poisson":
+            elif loss_type == "poisson":
                 loss = -np.sum(X.T @ M) + np.exp(M).sum()
                 for j in range(X.shape[0]):
                     for k in range(X.shape[1]):
                         loss += np.log(_factorial(X[j][k]))
                 loss = 1.0 / X.shape[0] * loss
                 G_loss = 1.0 / X.shape[0] * (-X.T @ X + X.T @ np.exp(M))
-            elif self._loss_type == "laplace":
+            elif loss_type == "laplace":
                 R = X - M
                 loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
                 G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
-            elif self._loss_type == "mixed":
+            elif loss_type == "mixed":
                 R = X - M
                 a1, a2 = 1, 1
                 loss_dis = (
@@ -129,7 +129,7 @@ class LiM:
                 G_dis = X.T @ (sigmoid(M) - X) * W_dis
                 G_con = -X.T @ np.tanh(R) * W_con
                 G_loss = 1.0 / X.shape[0] * (G_dis + G_con)
-            elif self._loss_type == "mixed_dag":
+            elif loss_type == "mixed_dag":
                 dag = nx.DiGraph(W)
                 lingam_data = np.transpose(X)
                 df = pd.DataFrame(X)
@@ -277,6 +277,7 @@ class LiM:
                 return y * _factorial(y - 1)
 
         n, d = X.shape
+        loss_type = self._loss_type
         w_est, rho, alpha, h = (
             np.random.random(2 * d * d),
             1.0,
@@ -322,7 +323,7 @@ class LiM:
         print("W_est (without the 2nd phase) is: \n", W_est)
 
         if not only_global:
-            self._loss_type = "mixed_dag"
+            loss_type = "mixed_dag"
             aa, aaa = _loss(W_est)  # loss
             I = np.where(W_est != 0)
             # check directions
-- 
2.43.0


From c2ba70ae43676295c0c70cadeb77d0544cf31eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:59 +0000
Subject: [PATCH 30/36] fix: BottomUpParceLiNGAM with prior knowledge regresses
 candidates on all remaining variables

With prior knowledge the residual of a candidate sink was computed on, and
tested against, the other candidates only. A common cause known not to be a
sink was left out, so correct prior knowledge made the search stop early or
pick the wrong variable.
---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index b387b68..5c4a361 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -245,7 +245,7 @@ class BottomUpParceLiNGAM:
         else:
             max_p_stat = np.inf
             for j in range(len(Uc)):
-                xi_index = np.setdiff1d(Uc, Uc[j])
+                xi_index = np.setdiff1d(U, Uc[j])
                 xj_index = np.array([Uc[j]])
 
                 # Compute residuals
-- 
2.43.0


From 921c52ce490ee851c90083762711d9a56500b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:07 +0000
Subject: [PATCH 31/36] fix: visualize_nonlinear_causal_effect uses all rows
 and all bootstrap matrices

The row labels of X were used as positions, which fails or picks the wrong
rows for any other index than 0..n-1, and of a bootstrap result without
resampled indices only the first matrix was drawn.
---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 3fb1266..6aa076a 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -117,11 +117,11 @@ def visualize_nonlinear_causal_effect(
         adj_matrices = cd_result.adjacency_matrices_
         index_list = cd_result.resampled_indices_
         if index_list is None:
-            index_list = [X.index]
+            index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
         adj_matrices = [cd_result]
-        index_list = [X.index]
+        index_list = [np.arange(len(X))]
         disable_percentile = True
 
     effect_info = _calculate(
-- 
2.43.0


From 63aac76e228cceb6ff3afcdefabae32fd8b3eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:07 +0000
Subject: [PATCH 32/36] fix: visualize_nonlinear_causal_effect adjusts for all
 parents of the cause

Only parents with a coefficient of exactly 1 were taken as covariates.
---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 6aa076a..71dd64f 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -201,7 +201,7 @@ def _calculate(
 
     for m, sub_index in zip(adj_matrices, index_list):
         # parents of cause except effect
-        covariate = np.where(m[cause_index, :] == 1)[0].tolist()
+        covariate = np.where(np.abs(m[cause_index, :]) > 0)[0].tolist()
         covariate = np.delete(covariate, np.argwhere(covariate == effect_index))
 
         # train
-- 
2.43.0


From ef15163b58920f8298f0cd1575b586947772f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:07 +0000
Subject: [PATCH 33/36] fix: visualize_nonlinear_causal_effect accepts
 array-like matrices as documented

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 71dd64f..5e94464 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -120,7 +120,7 @@ def visualize_nonlinear_causal_effect(
             index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
-        adj_matrices = [cd_result]
+        adj_matrices = [check_array(cd_result)]
         index_list = [np.arange(len(X))]
         disable_percentile = True
 
@@ -159,7 +159,7 @@ def _is_bootstrap_result(cd_result):
 
 
 def _is_adjacency_matrix(cd_result, col_num):
-    check_array(cd_result)
+    cd_result = check_array(cd_result)
 
     if cd_result.shape[0] != col_num or cd_result.shape[1] != col_num:
         return False
-- 
2.43.0


From cb205dcc0ac834cb5756005c4985fec554114cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:22 +0000
Subject: [PATCH 34/36] fix: LiM's mixed loss had the wrong sign for discrete
 variables and a gradient of another function

---
 lingam/lim.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index e05dccc..2d102e3 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -117,17 +117,9 @@ class LiM:
                     (np.logaddexp(0, M) - X * M) * np.absolute(dis_con - 1)
                 ).sum()
                 loss_con = np.sum(-np.log(np.cosh(R)) * dis_con)
-                loss = -1.0 / X.shape[0] * (a1 * loss_dis + a2 * loss_con)
-                W_dis = np.zeros([d, d])
-                W_con = np.zeros([d, d])
-                for ii in np.where(dis_con[0, :] == 0):
-                    W_dis[[ii], :] = 1
-                    W_dis[:, [ii]] = 1
-                for jj in np.where(dis_con[0, :] == 1):
-                    W_con[[jj], :] = 1
-                    W_con[:, [jj]] = 1
-                G_dis = X.T @ (sigmoid(M) - X) * W_dis
-                G_con = -X.T @ np.tanh(R) * W_con
+                loss = 1.0 / X.shape[0] * (a1 * loss_dis - a2 * loss_con)
+                G_dis = X.T @ (sigmoid(M) - X) * np.absolute(dis_con - 1)
+                G_con = -X.T @ np.tanh(R) * dis_con
                 G_loss = 1.0 / X.shape[0] * (G_dis + G_con)
             elif loss_type == "mixed_dag":
                 dag = nx.DiGraph(W)
-- 
2.43.0


From cdd6a78deb5ae55c15ba40244eba0a1da3fcf7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:22 +0000
Subject: [PATCH 35/36] fix: the gradient of LiM's laplace loss had the wrong
 sign

---
 lingam/lim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index 2d102e3..b6bd343 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -109,7 +109,7 @@ class LiM:
             elif loss_type == "laplace":
                 R = X - M
                 loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
-                G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
+                G_loss = -1.0 / X.shape[0] * X.T @ np.tanh(R)
             elif loss_type == "mixed":
                 R = X - M
                 a1, a2 = 1, 1
-- 
2.43.0


From d2bab148c9c3b516a10110e857ef57a7e72ed06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:22 +0000
Subject: [PATCH 36/36] fix: LiM's poisson loss summed the products of all
 pairs of variables

---
 lingam/lim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index b6bd343..adc5671 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -100,7 +100,7 @@ class LiM:
                 loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
                 G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
             elif loss_type == "poisson":
-                loss = -np.sum(X.T @ M) + np.exp(M).sum()
+                loss = -np.sum(X * M) + np.exp(M).sum()
                 for j in range(X.shape[0]):
                     for k in range(X.shape[1]):
                         loss += np.log(_factorial(X[j][k]))
-- 
2.43.0

