From 8817d77de53eac9539d1923dd42209a4c8f6d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 01/15] fix: one constant variable does not make the
 interaction information of the others vanish

---
 .../utils/discrete_interaction_information.py    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index e3c1cc8..a6a47ad 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -108,8 +108,8 @@ def _mutual_information_global_nd_int(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if fewer than two of the variables vary: nothing can be shared
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -306,8 +306,8 @@ def mutual_information_local(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if fewer than two of the variables vary: nothing can be shared
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return zeros(len(data[0]))
 
     # To get local values we iterate over *data
@@ -430,8 +430,8 @@ def _conditional_mutual_information_global_nd_int(
     )
     # all axes, except cond
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if fewer than two of the variables vary: nothing can be shared
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -541,8 +541,8 @@ def conditional_mutual_information_local(
         contingency_coo.sum(axis=tuple(range(contingency_coo.ndim - 1)))
     )
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if fewer than two of the variables vary: nothing can be shared
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return zeros(len(data[0])).astype(float)
 
     # To get local values we iterate over *data
-- 
2.43.0


From 4d99fcdb7eddea988b744a67b278c6117712be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 02/15] fix: products of marginal counts no longer overflow for
 many variables

---
 .../utils/discrete_interaction_information.py     | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index a6a47ad..f159f3c 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -114,11 +114,8 @@ def _mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
-        [
-            count.take(idx).astype(uint64, copy=False)
-            for count, idx in zip(count_marginals, idxs)
-        ],
+    log_outer = np_sum(
+        [log_func(count.take(idx)) for count, idx in zip(count_marginals, idxs)],
         axis=0,
     )
 
@@ -129,7 +126,7 @@ def _mutual_information_global_nd_int(
     # Logarithm of the non-zero elements
     log_p_joint = log_func(vals)
 
-    log_outer = -log_func(outer) + len(count_marginals) * log_func(contingency_sum)
+    log_outer = -log_outer + len(count_marginals) * log_func(contingency_sum)
     # Combine the terms to calculate the mutual information
     mi = p_joint * (log_p_joint - log_func(contingency_sum)) + p_joint * log_outer
 
@@ -436,9 +433,9 @@ def _conditional_mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
+    log_outer = np_sum(
         [
-            count[idx, idxs[-1]].astype(uint64, copy=False)
+            log_func(count[idx, idxs[-1]])
             for count, idx in zip(count_marginals_cond, idxs[:-1])
         ],
         axis=0,
@@ -452,7 +449,7 @@ def _conditional_mutual_information_global_nd_int(
     p_cond = count_cond.take(idxs[-1]).astype(uint64, copy=False)
     log_p_joint = log_func(vals * p_cond) - log_func(contingency_sum)
 
-    log_outer = -log_func(outer) + sum(
+    log_outer = -log_outer + sum(
         log_func(count_m.sum()) for count_m in count_marginals_cond[:-1]
     )
     # Combine the terms to calculate the mutual information
-- 
2.43.0


From aa8aaaf059ddf59d9f3ad9f27163aebeb59980d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 03/15] fix: nearest-neighbour cross-entropies accept k=1

---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 3 ++-
 infomeasure/estimators/utils/exponential_family.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index ae3ca0b..141281f 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -243,7 +243,8 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         tree = KDTree(data_noisy_q)
 
         # Find the k-th nearest neighbors for each point
-        distances, _ = tree.query(data_noisy_p, self.k, p=self.minkowski_p)
+        # (passing a list keeps the result two-dimensional for k=1)
+        distances, _ = tree.query(data_noisy_p, [self.k], p=self.minkowski_p)
         # Only keep the k-th nearest neighbor distance
         distances = distances[:, -1]
 
diff --git a/infomeasure/estimators/utils/exponential_family.py b/infomeasure/estimators/utils/exponential_family.py
index 72875f5..adcda29 100644
--- a/infomeasure/estimators/utils/exponential_family.py
+++ b/infomeasure/estimators/utils/exponential_family.py
@@ -60,7 +60,8 @@ def calculate_common_entropy_components(data, k, at=None):
     tree = KDTree(data)
 
     # Get the k-th nearest neighbor distances
-    rho_k = tree.query(at, k=k)[0][:, k - 1]  # k+1 because the point itself is included
+    # (passing a list keeps the result two-dimensional for k=1)
+    rho_k = tree.query(at, k=[k])[0][:, 0]  # k+1 because the point itself is included
 
     return V_m, rho_k, N, m
 
-- 
2.43.0


From 8228b2ef1b0f36b454ed7fd2bb94bd85d3c63654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 04/15] fix: Kozachenko-Leonenko cross-entropy averages over
 the samples of P

---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 141281f..836dc76 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -263,7 +263,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             -psi_k
             + digamma(M)
             + log(c_d)
-            + d * np_sum(log(2 * distances[distances > 0])) / M
+            + d * np_sum(log(2 * distances[distances > 0])) / len(distances)
         )
         # return in desired base
         return hx / log(self.base) if self.base != "e" else hx
-- 
2.43.0


From 60c04a4cf4f23e00d3721831635ea8c3082b42ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 05/15] fix: local values of the ordinal entropy for joint
 variables and embedding_dim=1

---
 infomeasure/estimators/entropy/ordinal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index b936cfc..79dd199 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -11,6 +11,7 @@ from numpy import (
     issubdtype,
     ndarray,
     asarray,
+    ndim,
 )
 
 from ..base import EntropyEstimator
@@ -249,7 +250,11 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             The calculated local values of entropy.
         """
         # Patterns is length n - (embedding_dim - 1) * step_size
-        p_local = [self.dist_dict[tuple(pattern)] for pattern in self.patterns]
+        # (integer symbols for joint entropy or embedding_dim 1, tuples otherwise)
+        p_local = [
+            self.dist_dict[pattern if ndim(pattern) == 0 else tuple(pattern)]
+            for pattern in self.patterns
+        ]
         return -self._log_base(p_local)
 
     def _cross_entropy(self) -> float:
-- 
2.43.0


From 184e8ca22b7a059b177c7b84d4ff4d1f11ebab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 06/15] fix: kernel CMI uses all columns of multi-dimensional
 variables

---
 infomeasure/estimators/mutual_information/kernel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index f7dea33..0574974 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -3,7 +3,6 @@
 from abc import ABC
 
 from numpy import column_stack, ndarray, prod
-from numpy import newaxis
 
 from ..base import (
     MutualInformationEstimator,
@@ -231,15 +230,15 @@ class KernelCMIEstimator(BaseKernelMIEstimator, ConditionalMutualInformationEsti
                 ),
                 *(
                     kde_probability_density_function(
-                        joint_all[:, [i, -1]],
+                        column_stack([var, self.cond]),
                         self.bandwidth,
                         kernel=self.kernel,
                         workers=self.n_workers,
                     )
-                    for i in range(len(self.data))
+                    for var in self.data
                 ),
                 kde_probability_density_function(
-                    joint_all[:, -1, newaxis],
+                    self.cond,
                     self.bandwidth,
                     kernel=self.kernel,
                     workers=self.n_workers,
-- 
2.43.0


From e2dd46a6951f77a272d042ad8267faca84a69da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 07/15] fix: KSG CMI adds the noise to the condition once, not
 once per sample

---
 .../mutual_information/kraskov_stoegbauer_grassberger.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index f3b9720..81627a5 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -283,7 +283,7 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
             for j in range(len(data[0])):
                 for i in range(len(data)):
                     data[i][j] += self.rng.normal(0, self.noise_level, data[i][j].shape)
-                cond += self.rng.normal(0, self.noise_level, cond.shape)
+            cond += self.rng.normal(0, self.noise_level, cond.shape)
 
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
-- 
2.43.0


From e8eacc0d3fc843e8dbb0b35b31e6d72f0c37a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 08/15] fix: ordinal MI and CMI statistical tests symbolize the
 resampled source

---
 .../estimators/mutual_information/ordinal.py  | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 0072c05..0cb79ff 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -116,30 +116,33 @@ class BaseOrdinalMIEstimator(ABC):
         self.step_size = step_size
         self.stable = stable
 
-        self.symbols = [
-            reduce_joint_space(
+        if cond is not None:
+            self.symbols_cond = reduce_joint_space(
                 symbolize_series(
-                    var,
+                    self.cond,
                     self.embedding_dim,
                     self.step_size,
                     stable=self.stable,
                     to_int=False,
                 )
             )
-            for var in self.data
-        ]  # Convert permutation tuples to integers for efficiency (reduce_joint_space),
-        # so mutual_information_global can use crosstab method internally
 
-        if cond is not None:
-            self.symbols_cond = reduce_joint_space(
+    @property
+    def symbols(self):
+        """Ordinal symbols of the (possibly resampled) data."""
+        return [
+            reduce_joint_space(
                 symbolize_series(
-                    self.cond,
+                    var,
                     self.embedding_dim,
                     self.step_size,
                     stable=self.stable,
                     to_int=False,
                 )
             )
+            for var in self.data
+        ]  # Convert permutation tuples to integers for efficiency (reduce_joint_space),
+        # so mutual_information_global can use crosstab method internally
 
 
 class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
-- 
2.43.0


From 20c9e34baa1024b804e4868ba0b8a55c0da9eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 09/15] fix: discrete MI accepts a mix of one- and
 two-dimensional variables

---
 .../estimators/utils/discrete_interaction_information.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index f159f3c..e894932 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -201,6 +201,8 @@ def _mutual_information_global_nd_other(
 
     Same as :func:`_mutual_information_global_nd_int`, but for non-integer data.
     """
+    # one-dimensional variables are treated as having one column
+    data = tuple(var[:, None] if var.ndim == 1 else var for var in data)
     # data is a tuple of ndarrays, for joint data, concatenate these rows
     # joint_data = [tuple(row) for row in column_stack(data)]
     joint_data = [tuple(tuple(val) for val in row) for row in zip(*data)]
-- 
2.43.0


From 4bf296bfd07c6464853307389a1b39cf4282d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 10/15] fix: offset=None means no offset for mutual information

---
 infomeasure/estimators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 15b14a3..3cdb380 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -496,7 +496,7 @@ class MutualInformationEstimator(
                 f"not {[var.shape[0] for var in self.data]}."
             )
         # Apply the offset
-        self.offset = offset
+        self.offset = 0 if offset is None else offset
         if self.offset > 0:
             self.data = (
                 self.data[0][: -self.offset or None],
-- 
2.43.0


From bce6362f37f300ec65fdba1216463d1be40fca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 11/15] fix: estimator() forwards step_size to the ordinal
 entropy and information estimators

---
 infomeasure/estimators/functional.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index d48dc44..84fa7b7 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -695,6 +695,14 @@ def estimator(
     if measure is None:
         raise ValueError("``measure`` is required.")
     measure_comp = measure.lower().replace(" ", "_").replace("-", "_")
+    if step_size != 1 and measure_comp not in [
+        "transfer_entropy",
+        "te",
+        "conditional_transfer_entropy",
+        "cte",
+    ]:
+        # the ordinal estimators have a step size for every measure
+        kwargs["step_size"] = step_size
     if measure_comp in ["entropy", "h", "cross_entropy", "hx"]:
         if len(data) == 0 and measure_comp in ["entropy", "h"]:
             raise ValueError("``data`` is required for entropy estimation.")
-- 
2.43.0


From 185c74746127c6246217cb335d681e162ed08df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:32 +0000
Subject: [PATCH 12/15] fix: nearest-neighbour estimators reject k that is not
 below the number of points

---
 .../estimators/entropy/kozachenko_leonenko.py   | 10 ++++++++++
 .../kraskov_stoegbauer_grassberger.py           | 17 ++++++++++++++++-
 .../kraskov_stoegbauer_grassberger.py           | 17 ++++++++++++++++-
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 836dc76..f0eaae4 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -183,6 +183,11 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         if self.noise_level and self.noise_level != 0:
             data_noisy += self.rng.normal(0, self.noise_level, self.data[0].shape)
 
+        if self.k >= len(data_noisy):
+            raise ValueError(
+                "The number of nearest neighbors (k) must be smaller than the number "
+                f"of data points, but got {self.k} for {len(data_noisy)} points."
+            )
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy)
 
@@ -239,6 +244,11 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             data_noisy_p += self.rng.normal(0, self.noise_level, self.data[0].shape)
             data_noisy_q += self.rng.normal(0, self.noise_level, self.data[1].shape)
 
+        if self.k > len(data_noisy_q):
+            raise ValueError(
+                "The number of nearest neighbors (k) must not exceed the number "
+                f"of data points, but got {self.k} for {len(data_noisy_q)} points."
+            )
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy_q)
 
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 81627a5..69782c5 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 
-from numpy import column_stack, inf, array, ndarray, log, nextafter
+from numpy import column_stack, inf, array, integer, issubdtype, ndarray, log, nextafter
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -108,6 +108,11 @@ class BaseKSGMIEstimator(ABC):
             )
             # Ensure self.cond is a 2D array
             self.cond = assure_2d_data(self.cond)
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive integer, "
+                f"but got {k}."
+            )
         self.k = k
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
@@ -174,6 +179,11 @@ class KSGMIEstimator(BaseKSGMIEstimator, MutualInformationEstimator):
         # Stack the X and Y data to form joint observations
         data_joint = column_stack(data)
 
+        if self.k >= len(data_joint):
+            raise ValueError(
+                "The number of nearest neighbors (k) must be smaller than the number "
+                f"of observations, but got {self.k} for {len(data_joint)} observations."
+            )
         # Create a KDTree for joint data to find nearest neighbors using the maximum
         # norm
         tree_joint = KDTree(data_joint)  # default leafsize is 10
@@ -288,6 +298,11 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
 
+        if self.k >= len(data_joint):
+            raise ValueError(
+                "The number of nearest neighbors (k) must be smaller than the number "
+                f"of observations, but got {self.k} for {len(data_joint)} observations."
+            )
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(data_joint)
 
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 65911e6..0cd3ed9 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 
-from numpy import array, inf, ndarray, log, nextafter
+from numpy import array, inf, integer, issubdtype, ndarray, log, nextafter
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -131,6 +131,11 @@ class BaseKSGTEEstimator(ABC):
                 base=base,
                 **kwargs,
             )
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive integer, "
+                f"but got {k}."
+            )
         self.k = k
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
@@ -205,6 +210,11 @@ class KSGTEEstimator(BaseKSGTEEstimator, TransferEntropyEstimator):
             resample_src=self.resample_src,
         )
 
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                "The number of nearest neighbors (k) must be smaller than the number "
+                f"of observations, but got {self.k} for {len(joint_space_data)} observations."
+            )
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(joint_space_data)
 
@@ -352,6 +362,11 @@ class KSGCTEEstimator(BaseKSGTEEstimator, ConditionalTransferEntropyEstimator):
             step_size=self.step_size,
         )
 
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                "The number of nearest neighbors (k) must be smaller than the number "
+                f"of observations, but got {self.k} for {len(joint_space_data)} observations."
+            )
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(joint_space_data)
 
-- 
2.43.0


From 511a95b0b16f10de41235eb547debd90dd881339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 13/15] fix: negative logarithm bases are rejected by every
 estimator

---
 infomeasure/estimators/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 3cdb380..2881505 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -66,6 +66,9 @@ class Estimator(Generic[EstimatorType], ABC):
 
     def __init__(self, base: LogBaseType = Config.get("base")):
         """Initialize the estimator."""
+        # Negative base logarithm is undefined
+        if not isinstance(base, str) and base < 0:
+            raise ValueError(f"Logarithm base must be positive, not {base}.")
         self.res_global = None
         self.res_local = None
         self.base = base
-- 
2.43.0


From 651cca3a89ae60f823fd26ac1e5fb1e0ee3f54e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 14/15] fix: count tables given in narrow integer types

The Zhang estimator raised OverflowError and the Chao-Wang-Jost estimator
lost precision when counts of a narrow integer type (e.g. uint8) were passed
to DiscreteData.from_counts.
---
 infomeasure/utils/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infomeasure/utils/data.py b/infomeasure/utils/data.py
index 89d0633..1569004 100644
--- a/infomeasure/utils/data.py
+++ b/infomeasure/utils/data.py
@@ -85,6 +85,8 @@ class DiscreteData:
             raise ValueError("counts must sum to a positive value")
         if not issubdtype(self.counts.dtype, integer):
             raise ValueError("counts must be integers")
+        # Narrow integer types would overflow or lose precision in later calculations
+        object.__setattr__(self, "counts", self.counts.astype(int, copy=False))
 
         # Set K (number of unique values)
         object.__setattr__(self, "K", len(self.uniq))
-- 
2.43.0


From fdc85b219a58d9aad416b3b2b0b2804c80ecfd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 15/15] fix: Gaussian KDE of samples with a degenerate
 covariance

The eigenvalues of the symmetric covariance matrix came from the general
solver, which can return complex pairs for (nearly) singular matrices; the
density then failed with a dtype error.
---
 infomeasure/estimators/utils/kde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index d2c083a..1e4991f 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -13,7 +13,7 @@ from numpy import (
     number,
 )
 from numpy import sum as np_sum
-from numpy.linalg import eig
+from numpy.linalg import eigh
 from scipy.spatial import KDTree
 from scipy.stats import gaussian_kde
 
@@ -134,7 +134,7 @@ def gaussian_kernel_densities(
         # Calculate covariance matrix
         covariance_matrix = cov(data)
         # Get eigenvalues and eigenvectors
-        values, vectors = eig(covariance_matrix)
+        values, vectors = eigh(covariance_matrix)
         sorted_indices = argsort(values)[::-1]
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
-- 
2.43.0

