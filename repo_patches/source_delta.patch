From 72512bc8c3f216b9e33fb6f214025c7da73a4b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 01/42] fix: VarianceEstimatorArm.update assigned to the
 read-only num_pulled property

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 6d7d320..374b694 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -88,7 +88,7 @@ class VarianceEstimatorArm:
     """
     del new_data, delta  # for subclassing
     self._ci = (0, np.inf)  # default ci.
-    self.num_pulled += 1
+    self._num_pulled += 1
     return self._ci
 
   def reset(self) -> None:
-- 
2.43.0


From c7fb54bca01c4ba8d3df42a332b67f1762a8522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 02/42] fix: VarianceEstimatorArm.reset left the interval as
 (None, None) instead of its initial value

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 374b694..144d54e 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -93,7 +93,7 @@ class VarianceEstimatorArm:
 
   def reset(self) -> None:
     """Resets the arm to its default state."""
-    self._ci = (None, None)
+    self._ci = (-np.inf, np.inf)
     self._eta.reset()
     self._ate = None
     self._var_est = None
-- 
2.43.0


From cd9ef90c32356da30559de9551446e171f67acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 03/42] fix: BootstrapArm.get_num_units always returned 0, so
 ordered reads never advanced

---
 causal_effect_bandits/arms.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 144d54e..295e010 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -102,7 +102,9 @@ class VarianceEstimatorArm:
 
   def get_num_units(self) -> int:
     """Returns the number of units seen by this arm."""
-    return 0
+    if self._split_data is None:
+      return 0
+    return sum(len(data) for data in self._split_data)
 
   @property
   def name(self) -> str:
@@ -280,12 +282,6 @@ class SampleSplittingArm(VarianceEstimatorArm):
 
     return self._ci
 
-  def get_num_units(self) -> int:
-    """Returns the number of units seen by this arm."""
-    if self._split_data is None:
-      return 0
-    return sum(len(data) for data in self._split_data)
-
   def reset(self) -> None:
     super().reset()
     self._split_data = None
-- 
2.43.0


From de9617edca30a8f085f362b319797a45ffffb0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 04/42] fix: stable_splits=False dropped all previously seen
 data instead of resplitting it

---
 causal_effect_bandits/arms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 295e010..bd92357 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -215,7 +215,11 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for i in range(2):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(2)
+        # Resplit all the data seen so far, not only new_data.
+        all_data = self._split_data[0][:]
+        all_data.append(self._split_data[1])
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(2)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -336,8 +340,11 @@ class BootstrapArm(VarianceEstimatorArm):
         for i in range(self.n_splits):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(
-            self.n_splits)
+        # Resplit all the data seen so far, not only new_data.
+        all_data = self._split_data[0][:]
+        all_data.append(self._split_data[1])
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(self.n_splits)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From 6938860053dfcb5f71031e3b6f22d85589b211c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 05/42] fix: BootstrapArm reported estimates from its last
 replicate fit, and nans when eta was unfit

---
 causal_effect_bandits/arms.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index bd92357..68b5e3c 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -349,6 +349,13 @@ class BootstrapArm(VarianceEstimatorArm):
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
 
+    # Without a usable fit, every score is a nan; return [0, np.inf) instead.
+    if not self._eta.has_enough_samples():
+      self._ci = (0, np.inf)
+      self._ate = np.nan
+      self._var_est = np.inf
+      return self._ci
+
     if self.n_bootstraps == 0:
       n_bootstraps = int(np.ceil(4 / delta))
     else:
@@ -371,6 +378,9 @@ class BootstrapArm(VarianceEstimatorArm):
     ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
     self._ci = (ci_low, ci_high)
 
+    # The replicates refit eta; go back to the fit on the whole first split.
+    self._eta.fit(self._split_data[0])
+
     # Use the second split to learn the ATE and variance
     self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))
 
-- 
2.43.0


From ff03967fd17631dd5b6dc071cf7131205e90356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 06/42] fix: sample_limit=None, documented as no limit, raised
 a TypeError

---
 causal_effect_bandits/bandits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index da69ce9..dac2399 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -120,6 +120,8 @@ class BAIBanditAlgorithm:
     if error_tol < 0.0:
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
+    if sample_limit is None:  # fixed confidence, no limit on the samples
+      sample_limit = np.inf
     if confidence is None and np.isinf(sample_limit):
       raise ValueError(
           "Either the confidence or the number of rounds must be specified")
-- 
2.43.0


From 155b835ce0d4938a87c5241a0c6fa2daa8db943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 07/42] fix: error_tol, the allowed suboptimality, delayed
 stopping instead of permitting it

---
 causal_effect_bandits/bandits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index dac2399..73a324d 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -146,7 +146,8 @@ class BAIBanditAlgorithm:
 
     The game is done if the ucb of the best arm (the lowest ucb of all the arms
     that have the minimum variance estimate) is lower than lcb of the remaining
-    arms (all arms that do not share the minimum variance estimate).
+    arms (all arms that do not share the minimum variance estimate), up to the
+    allowed suboptimality error_tol.
 
     Returns:
       boolean: is the best arm (epsilon, delta)-PAC?
@@ -169,7 +170,7 @@ class BAIBanditAlgorithm:
     remaining_lcbs = [
         lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
     ]
-    return (ucbs[min_var_arm] < min(remaining_lcbs) - self.error_tol,
+    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
             [self._arms[min_var_arm]])
 
   def _select_arms_with_mask(self, boolean_mask):
-- 
2.43.0


From 135366b359455a67a00b112768143724b38eb433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 08/42] fix: a nan variance estimate was noticed only when it
 belonged to the first arm

---
 causal_effect_bandits/bandits.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 73a324d..5d782f9 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -159,8 +159,7 @@ class BAIBanditAlgorithm:
     lcbs, ucbs, var_ests = self.collect_bounds()
     if any(np.isinf(ucbs)):  # one of the ucbs is infinity
       return (False, [])
-    min_var = min(var_ests)
-    if np.isnan(min_var):  # one of the arms returned a nan
+    if any(np.isnan(var_ests)):  # one of the arms returned a nan
       return (False, [])
 
     # find the arm with the smallest variance.
@@ -394,7 +393,7 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
     if any([v is None for v in var_ests]):
       return np.random.choice(self._arms, 2, replace=False)  # choose at random
     lowest_var = min(var_ests)
-    if np.isnan(lowest_var):
+    if any(np.isnan(var_ests)):
       print(
           "Warning: some of the confidence intervals are nan; choosing the next arms uniformly at random"
       )
-- 
2.43.0


From eb0b8fa9b44d3898ff96be173bb134cf4ff428f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 09/42] fix: collect_bounds and select_arms raised on arms that
 were never updated

---
 causal_effect_bandits/bandits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 5d782f9..a47d3c9 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -192,7 +192,9 @@ class BAIBanditAlgorithm:
     """
     ucbs = np.array([a.cost * a.ci[1] for a in self._arms])
     lcbs = np.array([a.cost * a.ci[0] for a in self._arms])
-    sigma2s = np.array([a.cost * a.var_est for a in self._arms])
+    sigma2s = np.array([
+        np.nan if a.var_est is None else a.cost * a.var_est for a in self._arms
+    ])
     return (lcbs, ucbs, sigma2s)
 
 
-- 
2.43.0


From 14a9ac1c55a22bb5d3ffa218a20c9aa9a0c7ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 10/42] fix: LUCB could sample one arm twice in a round, and
 raised when all estimates were tied

---
 causal_effect_bandits/bandits.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index a47d3c9..416eb38 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -405,15 +405,20 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
 
     # Select the arm in this set with the highest ucb
     high_ucb = max(ucbs[best_arm_mask])
-    high_ucb_mask = [u == high_ucb for u in ucbs]
-
-    # Also select the arm with the lowest lcb of the remaining arms
-    low_lcb = min(lcbs[[not i for i in best_arm_mask]])
-    low_lcb_mask = [l == low_lcb for l in lcbs]
-
-    # We will pick between these two arms
+    high_ucb_mask = [b and u == high_ucb for b, u in zip(best_arm_mask, ucbs)]
     u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
+
+    # Also select the arm with the lowest lcb of the remaining arms; if every arm
+    # shares the lowest estimate, these are all the arms but the one just picked.
+    if all(best_arm_mask):
+      remaining_mask = [i != u_index for i in range(self._num_arms)]
+    else:
+      remaining_mask = [not b for b in best_arm_mask]
+    low_lcb = min(lcbs[remaining_mask])
+    low_lcb_mask = [r and l == low_lcb for r, l in zip(remaining_mask, lcbs)]
     l_index = np.random.choice(np.arange(self._num_arms)[low_lcb_mask])
+
+    # We will pick these two arms
     return [self._arms[u_index], self._arms[l_index]]
 
 
-- 
2.43.0


From fc8f3eeb11721e2366f0e02f6594b8df2d96c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 11/42] fix: successive elimination could return an eliminated
 arm when the sample limit was hit

---
 causal_effect_bandits/bandits.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 416eb38..a5f0ee0 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -496,10 +496,12 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
     while len(candidate_arms) > 1:
       epoch += 1
       if total_samples > self.sample_limit:
-        _, _, var_ests = self.collect_bounds()
-        # Select the arms with the lowest var estimates.
-        candidate_arms = self._select_arms_with_mask(
-            [v == min(var_ests) for v in var_ests])
+        # Select the remaining arms with the lowest var estimates.
+        lowest_var = min([var_est_by_arm[arm][-1] for arm in candidate_arms])
+        candidate_arms = [
+            arm for arm in candidate_arms
+            if var_est_by_arm[arm][-1] == lowest_var
+        ]
         break
 
       for arm in candidate_arms:
-- 
2.43.0


From 9201139562bb45e4882fd002b85092271e842e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 12/42] fix: successive elimination dropped the best arm itself
 when its interval had zero width

---
 causal_effect_bandits/bandits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index a5f0ee0..843408e 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -538,9 +538,10 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
       ])
 
       # We now eliminate all arms with lcbs that are larger than lowest_ucb.
+      # An arm with the lowest estimate stays, even with a zero-width interval.
       new_candidate_arms = []
-      for arm in candidate_arms:
-        if lcb_by_arm[arm][-1] < lowest_ucb:
+      for i, arm in enumerate(candidate_arms):
+        if low_var_mask[i] or lcb_by_arm[arm][-1] < lowest_ucb:
           new_candidate_arms.append(arm)
       candidate_arms = new_candidate_arms
 
-- 
2.43.0


From 9d73c3ea5a9f2ac038a0e3b75b6381b9096f1e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 13/42] fix: a rejected ExpData.append left the covariates
 longer than the other columns

---
 causal_effect_bandits/data.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 51fd892..2d80f8a 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -68,16 +68,18 @@ class ExpData:
     """Appends the new data."""
     if new_data.n_features != self.n_features:
       raise ValueError("The new data has incompatible shape")
-    self.cov = np.r_[self.cov, new_data.cov]
-    if self.exp is not None:
-      if new_data.exp is None:
-        raise ValueError("new_data.exp is missing but expected")
-      self.exp = np.r_[self.exp, new_data.exp]
-    if self.rsp is not None:
-      if new_data.rsp is None:
-        raise ValueError("new_data.rsp is missing but expected")
-      self.rsp = np.r_[self.rsp, new_data.rsp]
-
+    if self.exp is not None and new_data.exp is None:
+      raise ValueError("new_data.exp is missing but expected")
+    if self.rsp is not None and new_data.rsp is None:
+      raise ValueError("new_data.rsp is missing but expected")
+
+    # Build everything first: a failed append must not change this object.
+    cov = np.r_[self.cov, new_data.cov]
+    exp = None if self.exp is None else np.r_[self.exp, new_data.exp]
+    rsp = None if self.rsp is None else np.r_[self.rsp, new_data.rsp]
+    self.cov = cov
+    self.exp = exp
+    self.rsp = rsp
     self.n_units = self.cov.shape[0]
 
   def k_fold(self, k: int):
-- 
2.43.0


From be645b6c38e56b140f8bbb6981fd122386cbf43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 14/42] fix: DataGenerator.generate raised a TypeError

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 2d80f8a..a35a811 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -223,7 +223,7 @@ class DataGenerator:
 
   def generate(self, n_samples: int):
     return ExpData(
-        np.zeros(n_samples, 1),
+        np.zeros((n_samples, 1)),
         np.zeros(n_samples),
         np.zeros(n_samples),
     )
-- 
2.43.0


From ff127ecb103458e6a070c579158af7ace5b846b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 15/42] fix: LinearDataGenerator discarded the noise it had
 validated and drew another

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index a35a811..6bb65f3 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -282,7 +282,7 @@ class LinearDataGenerator(DataGenerator):
       raise ValueError(
           f"noise_model's output is {len(noise)} but should be {n_samples}.")
 
-    y = x.dot(self._beta) + self._tau * t + self._noise_model(n_samples)
+    y = x.dot(self._beta) + self._tau * t + noise
     return ExpData(x, t, y)
 
   @property
-- 
2.43.0


From ea2eb215f84a0df8c68872a221c57a87e193cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 16/42] fix: TabularCPD.fit kept the supports of earlier fits
 (ZeroDivisionError, stale values)

---
 causal_effect_bandits/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 6bb65f3..9e55a3b 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -348,6 +348,8 @@ class TabularCPD:
     default_fn = lambda: collections.defaultdict(lambda: 0.0)
     self.table = collections.defaultdict(default_fn)
     self.x_marginal = collections.defaultdict(lambda: 0.0)
+    self.x_values = {}
+    self.z_values = {}
     for xi, zi in zip(x, z):
       self.table[xi.tobytes()][
           zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
-- 
2.43.0


From 3d6532737668cc524fce259f41f0fca0b111e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 17/42] fix: TabularCPD could fit negative probabilities or
 rows that do not sum to 1

---
 causal_effect_bandits/data.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 9e55a3b..16e8129 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -369,22 +369,21 @@ class TabularCPD:
       x_table = self.table[x_key]
       num_samples = sum(x_table.values())
       self.x_marginal[x_key] = num_samples / self.n_units
-      non_violating_z = []
-      total_violations = 0
       for z_key in self.z_values:
         x_table[z_key] = x_table[z_key] / num_samples
-        if x_table[z_key] < self.min_prob:
+      # Raise the probabilities under min_prob to it and lower the others to make
+      # P(Z|x = x_key) sum to 1. This can put others under min_prob, so repeat.
+      non_violating_z = list(self.z_values)
+      while any(x_table[z_key] < self.min_prob for z_key in non_violating_z):
+        total_violations = 0
+        violating_z = [z for z in non_violating_z if x_table[z] < self.min_prob]
+        non_violating_z = [z for z in non_violating_z if z not in violating_z]
+        for z_key in violating_z:
           total_violations += self.min_prob - x_table[z_key]
           x_table[z_key] = self.min_prob
-        elif x_table[z_key] > 1 - self.min_prob:
-          total_violations += x_table[z_key] - (1 - self.min_prob)
-          x_table[z_key] = 1 - self.min_prob
-        else:
-          non_violating_z.append(z_key)
-      # Now, we adjust non_violating_z to make P(Z|x = x_key) sum to 1
-      for z_key in non_violating_z:
-        x_table[z_key] = (
-            x_table[z_key] - total_violations / len(non_violating_z))
+        for z_key in non_violating_z:
+          x_table[z_key] = (
+              x_table[z_key] - total_violations / len(non_violating_z))
 
   def x_support(self):
     return list(self.x_values.values())
-- 
2.43.0


From 0202556c12653fbe370690b52fb72819f9d89f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 18/42] fix: TabularCPD.predict on an unseen value changed the
 table (and broke str())

---
 causal_effect_bandits/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 16e8129..d26caef 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -409,7 +409,9 @@ class TabularCPD:
     z = np.asarray(z)
 
     for zi, xi in zip(z, x):
-      probs.append(self.table[xi.tobytes()][zi.tobytes()])
+      # Do not index the defaultdicts: that would add the value to the table.
+      x_table = self.table.get(xi.tobytes(), {})
+      probs.append(x_table.get(zi.tobytes(), 0.0))
     return np.array(probs)
 
   def __str__(self):
-- 
2.43.0


From 23a1a5aae0d3694d404487bbf039b4d9fb0116f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 19/42] fix: front-door score dropped its P(Z|X=1)-P(Z|X=0) sum
 for multi-dimensional Z

---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index f9a953d..bf78875 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -747,8 +747,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
                          np.tile(z,
                                  (len(d), 1))]))  # mu_y(z, X=1), z in support
       f_1 += mu_yzx_i * (
-          self.cov_given_exp.predict(np.array([1]), z) -
-          self.cov_given_exp.predict(np.array([0]), z))
+          self.cov_given_exp.predict(np.array([1]), [z]) -
+          self.cov_given_exp.predict(np.array([0]), [z]))
 
       f_3 += (
           self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-- 
2.43.0


From 60c72fca844572a0ea4d19158c4475b2f5c05300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 20/42] fix: front-door score looked up P(Z|X) under the wrong
 key for non-int64 treatments

---
 causal_effect_bandits/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index bf78875..3586288 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -620,7 +620,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
     self.exp_prob = np.clip(
         np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
-    self.cov_given_exp.fit(d.exp, d.cov)
+    # TabularCPD compares bytes, so the treatment needs a single dtype.
+    self.cov_given_exp.fit(np.asarray(d.exp, dtype=int), d.cov)
 
     self._has_been_fit = True
 
@@ -724,7 +725,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     mu_y_zx = self.y_response.predict(np.array(np.c_[d.exp, d.cov]))
     p_z_x1 = self.cov_given_exp.predict(np.ones(n_units, dtype=int), d.cov)
     p_z_x0 = self.cov_given_exp.predict(np.zeros(n_units, dtype=int), d.cov)
-    p_z_x = self.cov_given_exp.predict(d.exp, d.cov)
+    p_z_x = self.cov_given_exp.predict(np.asarray(d.exp, dtype=int), d.cov)
 
     p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
     p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
-- 
2.43.0


From e4cbd2d69ec63d67f8e0727e2d5dff9924d70274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 21/42] fix: LinearParameterBinaryTreatment raised on one-group
 data and never had enough samples

---
 causal_effect_bandits/parameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 3586288..8e49075 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -195,7 +195,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
 
     self.recent_data = d
 
-    if treat_data == 0 or cont_data == 0:
+    if not treat_data or not cont_data:
       logging.warning(
           "Nuisance parameter was fit on data not including treatment and control"
       )
@@ -274,6 +274,9 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
 
+  def has_enough_samples(self) -> bool:
+    return self._has_been_fit
+
 
 class Predictor(Protocol):
 
-- 
2.43.0


From 3a198c345b7d518a05e6d973782e374e074d02dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 22/42] fix: set_to_truth on an unfit nuisance parameter still
 produced nan scores

---
 causal_effect_bandits/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 8e49075..e1f75cc 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -273,6 +273,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.treat_response.coef_ = data_gen.beta
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
@@ -475,6 +476,9 @@ class AIPW(NuisanceParameter):
     self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
     self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
     self.propensity.intercept_ = 0
+    self.response.intercept_ = 0
+    self.propensity.classes_ = np.array([0, 1])
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
-- 
2.43.0


From 730c774398c7499cdecd04911604252cd7eb5a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 23/42] fix: LinearRegressionParameter.reset did nothing

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index e1f75cc..b5959f3 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -883,6 +883,9 @@ class LinearRegressionParameter(NuisanceParameter):
     self._model = np.zeros(((n_features + 1), (n_features + 1)))
     self.l_reg = l_reg
 
+  def reset(self):
+    self.__init__(self._cov_dim, self.l_reg)
+
   def fit(self, d: data.ExpData):
     """Fits eta to the provided experimental d.
 
-- 
2.43.0


From a9da6aa1470b74c8186165cd0e5a460e539e2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 24/42] fix: calculate_cs_width was complex or nan for
 collinear covariates

---
 causal_effect_bandits/parameters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index b5959f3..0c0ba83 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -391,7 +391,10 @@ class AIPW(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    # norm_matrix is only symmetric up to rounding errors
+    w = np.linalg.eigvalsh((norm_matrix + norm_matrix.transpose()) / 2)
+    if np.linalg.matrix_rank(v) < d or min(w) <= 0:  # nothing bounds the error
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     eta_radius = mu_radius
@@ -661,7 +664,10 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    # norm_matrix is only symmetric up to rounding errors
+    w = np.linalg.eigvalsh((norm_matrix + norm_matrix.transpose()) / 2)
+    if np.linalg.matrix_rank(v) < d or min(w) <= 0:  # nothing bounds the error
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     def uniform_boundary(n, delta):
-- 
2.43.0


From ce4f399e53670c8c46235a3157942315dc4c2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 25/42] fix: compute_treatment_effect raised and left the
 intervention in the model

---
 causal_effect_bandits/scm.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index a70a02b..b0dad0b 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -114,15 +114,16 @@ class SCM(data.DataGenerator):
       An estimate of the ATE of the SCM.
     """
     old_t_cpd = self.cpds[self.treatment_variable]
-    treatment_cpd = lambda n, parents: self.deterministic_cpd(n, 1)
-    self.cpds[self.treatment_variable] = treatment_cpd
-    treatment_sample = self.generate(n_samples)
-
-    control_cpd = lambda n, parents: self.deterministic_cpd(n, 0)
-    self.cpds[self.treatment_variable] = control_cpd
-    control_sample = self.generate(n_samples)
-
-    self.cpds[self.treatment_variable] = old_t_cpd
+    try:
+      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
+      self.cpds[self.treatment_variable] = treatment_cpd
+      treatment_sample = self.generate(n_samples)
+
+      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
+      self.cpds[self.treatment_variable] = control_cpd
+      control_sample = self.generate(n_samples)
+    finally:
+      self.cpds[self.treatment_variable] = old_t_cpd
     return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
 
 
-- 
2.43.0


From c84b9e56b161da378069b7ea19fb9823d028afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 26/42] fix: CPDs mixing integer and float parents raised a
 casting error

---
 causal_effect_bandits/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index b0dad0b..ffd399f 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -180,7 +180,7 @@ def normal_cpd(parents, betas, mean, cov):
   n_units = len(parents[0])
   total_mean = parents[0].dot(betas[0])
   for i in range(1, len(parents)):
-    total_mean += parents[i].dot(betas[i])
+    total_mean = total_mean + parents[i].dot(betas[i])
   if total_mean.ndim == 1:  # Y is univariate
     return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
@@ -235,7 +235,7 @@ def transformed_normal_cpd(parents, betas, fns, mean, cov):
     raise ValueError("parents and fns should be the same length.")
   total_mean = fns[0](parents[0].dot(betas[0]))
   for i in range(1, len(parents)):
-    total_mean += fns[i](parents[i].dot(betas[i]))
+    total_mean = total_mean + fns[i](parents[i].dot(betas[i]))
 
   # infer whether the output should be 1 or 2 dim from mean
   if np.ndim(mean) == 0:  # we should return (n_units,) array
@@ -303,7 +303,7 @@ def logistic_linear_bernoulli_cpd(parents, gammas):
   def f(parents):
     params = 0
     for i in range(len(parents)):
-      params += parents[i].dot(gammas[i])
+      params = params + parents[i].dot(gammas[i])
     return params
 
   return logistic_bernoulli_cpd(parents, f)
-- 
2.43.0


From 7ce02d6474dfae778c00ef9124733ee9a47efdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 27/42] fix: generate_random_nd_function returned the same
 function for every output component

---
 causal_effect_bandits/nonlinear_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/nonlinear_utils.py b/causal_effect_bandits/nonlinear_utils.py
index ca3b31f..4daaeeb 100644
--- a/causal_effect_bandits/nonlinear_utils.py
+++ b/causal_effect_bandits/nonlinear_utils.py
@@ -78,14 +78,15 @@ def generate_random_nd_function(
   x1d = np.linspace(0, 1, n_points)
   # create a cartesian product
   x = np.array(list(itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x
-  # Choose a random starting state
+  # Choose a random starting state, shared by the components so that they differ
+  if seed is None:
+    seed = np.random.randint(10000)
+  random_state = np.random.RandomState(seed)
   fns = []
   for _ in range(out_dim):
     fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
-    if seed is None:
-      seed = np.random.randint(10000)
     # Sample from a prior
-    y = fns[-1].sample_y(x, 1, random_state=seed)
+    y = fns[-1].sample_y(x, 1, random_state=random_state)
     # Fit the GP to this prior
     fns[-1].fit(x, y)
 
-- 
2.43.0


From 1fbe4343a885f63a2782d8e69e3d5234cd94afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 28/42] fix: the seed of the Section 5.2 example did not
 determine the instance

---
 causal_effect_bandits/paper_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index cb15e16..9d2495f 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -197,7 +197,7 @@ def get_section_5_2_cpds(
 
   beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
   for i in range(1, num_back_door_paths + 1):
-    strength = np.random.uniform(.1, 1.9)
+    strength = rng.uniform(.1, 1.9)
     # V
     mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
     cov_v.append(1 * np.identity(v_dim[i]))
@@ -266,6 +266,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=rng.integers(10000),
             alpha=1e0))
 
   # f_y should have shape (n_units,1)
@@ -281,6 +282,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=rng.integers(10000),
             alpha=1e0))
 
   # f_x should have shape (n_units,1)
@@ -325,6 +327,7 @@ def get_section_5_2_cpds(
         min_x=-1,
         max_x=1,
         n_points=10,
+        seed=rng.integers(10000),
         alpha=1e0)
     cpds['V' + str(i)] = make_v_cpd(mean=mu_v[i], cov=cov_v[i])
     cpds['Z' + str(i)] = make_z_cpd(f=f_z, mean=mu_z[i], cov=cov_z[i])
-- 
2.43.0


From eee222c6a9a6283996d30c71ac2d75129ff49edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 29/42] fix: Section 5 arms read the wrong covariates (column
 order did not match their masks)

---
 causal_effect_bandits/paper_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index 9d2495f..bce884c 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -484,13 +484,14 @@ def generate_example_from_cpd(
   for i in range(1, num_back_door_paths + 1):
     var_names.append('V' + str(i))
     var_names.append('Z' + str(i))
-    cov_variables.append('V' + str(i))
     cov_variables.append('Z' + str(i))
     parents['V' + str(i)] = []
     parents['Z' + str(i)] = ['V' + str(i)]
     parents['Y'].append('Z' + str(i))
     parents['X'].append('V' + str(i))
 
+  # The index lists below expect all of the Z's before all of the V's.
+  cov_variables.extend(['V' + str(i) for i in range(1, num_back_door_paths + 1)])
   var_names.extend(['X', 'Z0', 'Y'])
 
   scm_gen = scm.SCM(
-- 
2.43.0


From 4d77f68130aa526dc18ab25b576c8c5a13169762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 30/42] fix: the CHI2 interval of a single evaluation unit was
 (nan, nan)

---
 causal_effect_bandits/arms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 68b5e3c..71a82da 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -244,6 +244,9 @@ class SampleSplittingArm(VarianceEstimatorArm):
 
     if self._ci_algorithm is CIAlgorithm.CHI2:
       n = self._split_data[1].n_units
+      if n < 2:  # no degrees of freedom; the quantiles would be nan
+        self._ci = (0, np.inf)
+        return self._ci
       ci_low = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
           1 - delta / 2, df=n - 1)
       ci_high = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
-- 
2.43.0


From 300fe63a568b3e96d8c65e144b575b00d95e66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 31/42] fix: AIPW.fit after set_to_truth raised an IndexError

---
 causal_effect_bandits/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 0c0ba83..81ada1b 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -478,7 +478,7 @@ class AIPW(NuisanceParameter):
                         "not identifiable in this model"))
     self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
     self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
-    self.propensity.intercept_ = 0
+    self.propensity.intercept_ = np.zeros(1)
     self.response.intercept_ = 0
     self.propensity.classes_ = np.array([0, 1])
     self._has_been_fit = True
-- 
2.43.0


From 14d7e596a4a4ec56287746b353752e1b17adbf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 32/42] fix: the example SCMs advertised a var_y that ignored
 the dependence of Y's parents

---
 causal_effect_bandits/example_scm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index 829bf68..4658eaf 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -46,7 +46,8 @@ def back_door_scm():
   mu_x = .5 + alpha * p
   var_x = mu_x * (1 - mu_x)
   mu_y = tau * mu_x + beta * mu_z
-  var_y = 1 + tau**2 * var_x + beta**2 * var_z
+  # Z and X are dependent: Cov(Z, X) = alpha * Var(Z).
+  var_y = 1 + tau**2 * var_x + beta**2 * var_z + 2 * tau * beta * alpha * var_z
 
   # populate the CPDs
   def y_cpd(_, parents):
@@ -121,8 +122,8 @@ def frontdoor_scm():
   pz1u0 = (g(beta) / 2 + 1 / 4) * (1 - p)
   pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p
   # Take the expectation of Y^2 by hand.
-  mu_y2 = 1 + (gamma**2 +
-               alpha_2**2) * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
+  mu_y2 = 1 + (gamma +
+               alpha_2)**2 * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
   var_y = mu_y2 - mu_y**2
 
   # populate the CPDs
-- 
2.43.0


From 4e3fe86f76cddaeda45490385735715ae863a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 33/42] fix: the front-door score averages the mediator over
 P(Z|X) of each unit

The last term of the score weighted every support point z' by the probability
of the unit's own mediator value, P(z_i|x'), instead of P(z'|x_i). Its mean
was then not zero, and the front-door estimate of the treatment effect was
biased even with the true nuisance parameters (about twice the effect in the
Section 5.1 example).
---
 causal_effect_bandits/parameters.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 81ada1b..e33242e 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -561,7 +561,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_x' mu_Y(x',X)(P(Z=x'|X=1) - P(Z=x'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{t'} mu_Y(Z,t')f(t')
-        - sum_{x', t'} mu_Y(x', t')P(Z|t')P(t')
+        - sum_{x', t'} mu_Y(x', t')P(Z=x'|X)P(t')
       }
 
   We assume a binary X. We thus need to estimate two densities, P(Z|X=1) and
@@ -700,7 +700,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(z_i) = (z_i / P(X=1) - (1-z_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -709,7 +709,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(Z=z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
@@ -764,10 +764,13 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
           self.cov_given_exp.predict(np.array([1]), [z]) -
           self.cov_given_exp.predict(np.array([0]), [z]))
 
-      f_3 += (
-          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-          + self.y_response.predict([np.insert(z, 0, 0)]) *
-          (1 - self.exp_prob) * p_z_x0)
+      # P(Z=z|x_i) for the treatment of each unit
+      p_z_xi = np.where(d.exp == 1,
+                        self.cov_given_exp.predict(np.array([1]), [z]),
+                        self.cov_given_exp.predict(np.array([0]), [z]))
+      f_3 += p_z_xi * (
+          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob +
+          self.y_response.predict([np.insert(z, 0, 0)]) * (1 - self.exp_prob))
 
     w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)
 
@@ -796,7 +799,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(x_i) = (x_i / P(X=1) - (1-x_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(Z=z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -805,7 +808,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(Z=z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
-- 
2.43.0


From 8e5e69b81774d862cc57d97ca79e648b6a75c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 34/42] fix: the Section 5 examples choose a tau larger than
 all ten candidates

tau_max was compared with tau instead of with itself, so it held only the last
of the ten candidates, and a negative candidate was used as it was.
---
 causal_effect_bandits/paper_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index bce884c..e78842a 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -124,7 +124,7 @@ def get_section_5_1_cpds(
   support_size = 10  # the number of values Z_0 may have
   z0_support = rng.normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))
 
-  tau = 0
+  tau = -np.inf
   tau_max = 0
   # To select a tau on the larger side, we randomly sample 10 of them then
   # choose the first tau that is larger. See the secretary problem.
@@ -133,7 +133,7 @@ def get_section_5_1_cpds(
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
     tau_max = max(
-        tau,
+        tau_max,
         p_z0x1.dot(z0_support).dot(beta[0]) -
         p_z0x0.dot(z0_support).dot(beta[0]))
   while tau < tau_max:  # make sure tau is big enough
@@ -217,7 +217,7 @@ def get_section_5_2_cpds(
   support_size = 10  # the number of values Z_0 may have
   z0_support = rng.normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))
 
-  tau = 0
+  tau = -np.inf
   tau_max = 0
   # To select a tau on the larger side, we randomly sample 10 of them then
   # choose the first tau that is larger. See the secretary problem.
@@ -226,7 +226,7 @@ def get_section_5_2_cpds(
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
     tau_max = max(
-        tau,
+        tau_max,
         p_z0x1.dot(z0_support).dot(beta[0]) -
         p_z0x0.dot(z0_support).dot(beta[0]))
   while tau < tau_max:  # make sure tau is big enough
-- 
2.43.0


From 1c7eccb4c74f876b2c6f33823f897633e72ab3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 35/42] fix: the nuisance error width used data that was too
 small to fit on

The models kept their last adequate fit, while the width was computed from the
rejected data.
---
 causal_effect_bandits/parameters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index e33242e..88cc0ae 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -351,8 +351,6 @@ class AIPW(NuisanceParameter):
       raise ValueError(
           f"Data has {d.n_features} dimension but {self._cov_dim} was expected")
 
-    self.recent_data = d
-
     if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
       message = (f"{sum(d.exp)} treatment units of {n_units} total units is not"
                  " enough units in control or treatment to fit eta.")
@@ -362,6 +360,7 @@ class AIPW(NuisanceParameter):
     self.response.fit(np.c_[d.exp, d.cov], d.rsp)
     self.propensity.fit(d.cov, d.exp)
 
+    self.recent_data = d
     self._has_been_fit = True
 
   def calculate_cs_width(self, delta, sub_g, rho) -> float:
@@ -379,6 +378,8 @@ class AIPW(NuisanceParameter):
     Returns:
       The width of a confidence sequence
     """
+    if self.recent_data is None:  # nothing bounds the error before a fit
+      return np.inf
     x = self.recent_data.cov
     d = self._cov_dim
     v = x.transpose().dot(x)
@@ -620,8 +621,6 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       raise ValueError(
           f"Data has {d.n_features} dimension but {self._cov_dim} was expected")
 
-    self.recent_data = d
-
     if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self._min_units:
       print(
           f"---Frontdoor: {sum(d.exp)} treatment units of {d.n_units} total units "
@@ -633,6 +632,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     # TabularCPD compares bytes, so the treatment needs a single dtype.
     self.cov_given_exp.fit(np.asarray(d.exp, dtype=int), d.cov)
 
+    self.recent_data = d
     self._has_been_fit = True
 
   def calculate_cs_width(self, delta, sub_g, rho):
@@ -651,6 +651,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     Returns:
       The width of a confidence sequence
     """
+    if self.recent_data is None:  # nothing bounds the error before a fit
+      return np.inf
     x = np.array(np.c_[self.recent_data.exp, self.recent_data.cov])
     d = self._cov_dim + 1
     v = x.transpose().dot(x)
-- 
2.43.0


From da5907af55286f8a3b22c634b2cfabc191599c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 36/42] fix: no nan interval while lambda n is far below the
 burn in

With a sub-Gaussian scale below 1/8 and a small burn in the logarithmic terms
of the finite-sample width can be negative, so the interval was (nan, nan).
Report (0, inf), as before the burn in.
---
 causal_effect_bandits/arms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 71a82da..bd87ba5 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -280,8 +280,12 @@ class SampleSplittingArm(VarianceEstimatorArm):
       # See the paper, section 3.5 for a justification of this formula
       lambdap = max(self._sub_gscale, 8 * self._sub_gscale**2)
       width = 5 / 8 * (np.sqrt(2 * self._sub_gscale) + self._tau_bound)
-      width *= np.sqrt(2 * np.log(lambdap * n / self._burn_in) / n + .5 +
-                       np.log(4 / delta)) / np.sqrt(n)
+      log_terms = (2 * np.log(lambdap * n / self._burn_in) / n + .5 +
+                   np.log(4 / delta))
+      if log_terms < 0:  # lambdap * n is still far below the burn in
+        self._ci = (0, np.inf)
+        return self._ci
+      width *= np.sqrt(log_terms) / np.sqrt(n)
       width += eta_cs_width**2
       self._ci = (max(self.var_est - width, 0), self.var_est + width)
     else:
-- 
2.43.0


From a6710bc749178c224e12ed204bc5b18290396f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 37/42] fix: count treated units without overflow

The builtin sum() of an int8 or uint8 treatment vector wraps around, so large
datasets were rejected as having too few treated units.
---
 causal_effect_bandits/parameters.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 88cc0ae..f970ce1 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -351,9 +351,11 @@ class AIPW(NuisanceParameter):
       raise ValueError(
           f"Data has {d.n_features} dimension but {self._cov_dim} was expected")
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
-      message = (f"{sum(d.exp)} treatment units of {n_units} total units is not"
-                 " enough units in control or treatment to fit eta.")
+    # np.sum: the builtin sum overflows for narrow integer types.
+    if np.sum(d.exp) < self._min_units or np.sum(
+        d.exp) > n_units - self._min_units:
+      message = (f"{np.sum(d.exp)} treatment units of {n_units} total units is"
+                 " not enough units in control or treatment to fit eta.")
       logging.warning(message)
       return
 
@@ -621,10 +623,11 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       raise ValueError(
           f"Data has {d.n_features} dimension but {self._cov_dim} was expected")
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self._min_units:
+    if np.sum(d.exp) < self._min_units or np.sum(
+        d.exp) > d.n_units - self._min_units:
       print(
-          f"---Frontdoor: {sum(d.exp)} treatment units of {d.n_units} total units "
-          "is not enough units in control or treatment to fit eta.")
+          f"---Frontdoor: {np.sum(d.exp)} treatment units of {d.n_units} total"
+          " units is not enough units in control or treatment to fit eta.")
       return
     self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
     self.exp_prob = np.clip(
-- 
2.43.0


From e3fa2f5be0a0aa047928a7d26f46e6796afc4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 38/42] fix: categorical_conditioning leaves the caller's list
 of parents alone

---
 causal_effect_bandits/scm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index ffd399f..86ce7b2 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -149,8 +149,9 @@ def categorical_conditioning(parents, conditioning_on_idx, distributions):
   if len(parents) <= conditioning_on_idx:
     raise ValueError(
         "Treatment_idx is greater than the number of distributions.")
-  # Remove treatment_idx from parents
+  # Remove treatment_idx from a copy of parents
   distribution_indices = parents[conditioning_on_idx]
+  parents = list(parents)
   del parents[conditioning_on_idx]
 
   samples = []
-- 
2.43.0


From 8b97299ad835506784adf3f1df94b31e8b9988bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:09 +0000
Subject: [PATCH 39/42] fix: TabularCPD treats -0.0 and 0.0 as one value

---
 causal_effect_bandits/data.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index d26caef..9f05a35 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -330,6 +330,14 @@ class TabularCPD:
     self.z_values = {}
     self.min_ratio_to_uniform = min_ratio_to_uniform
 
+  @staticmethod
+  def _key(value):
+    # 0.0 and -0.0 are equal, but their bytes are not.
+    value = np.asarray(value)
+    if value.dtype.kind == "f":
+      value = value + value.dtype.type(0)
+    return value.tobytes()
+
   def fit(self, x, z):
     """Fits the tabular CPD to data.
 
@@ -351,10 +359,10 @@ class TabularCPD:
     self.x_values = {}
     self.z_values = {}
     for xi, zi in zip(x, z):
-      self.table[xi.tobytes()][
-          zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
-      self.x_values[xi.tobytes()] = xi
-      self.z_values[zi.tobytes()] = zi
+      self.table[self._key(xi)][
+          self._key(zi)] = self.table[self._key(xi)][self._key(zi)] + 1
+      self.x_values[self._key(xi)] = xi
+      self.z_values[self._key(zi)] = zi
 
     # adjust min_ratio_to_uniform based on the perceived support size
     # Note: we use a naive missing mass estimatior, but
@@ -410,8 +418,8 @@ class TabularCPD:
 
     for zi, xi in zip(z, x):
       # Do not index the defaultdicts: that would add the value to the table.
-      x_table = self.table.get(xi.tobytes(), {})
-      probs.append(x_table.get(zi.tobytes(), 0.0))
+      x_table = self.table.get(self._key(xi), {})
+      probs.append(x_table.get(self._key(zi), 0.0))
     return np.array(probs)
 
   def __str__(self):
-- 
2.43.0


From 27733dc2179b043d88083bb75b97b1b8a0f59c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:30 +0000
Subject: [PATCH 40/42] fix: nuisance error widths of narrow integer or boolean
 covariates

---
 causal_effect_bandits/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index f970ce1..3f539b9 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -382,7 +382,8 @@ class AIPW(NuisanceParameter):
     """
     if self.recent_data is None:  # nothing bounds the error before a fit
       return np.inf
-    x = self.recent_data.cov
+    # float: products overflow for narrow integer types.
+    x = np.asarray(self.recent_data.cov, dtype=float)
     d = self._cov_dim
     v = x.transpose().dot(x)
 
@@ -656,7 +657,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     """
     if self.recent_data is None:  # nothing bounds the error before a fit
       return np.inf
-    x = np.array(np.c_[self.recent_data.exp, self.recent_data.cov])
+    # float: products overflow for narrow integer types.
+    x = np.array(np.c_[self.recent_data.exp, self.recent_data.cov], dtype=float)
     d = self._cov_dim + 1
     v = x.transpose().dot(x)
 
-- 
2.43.0


From af29ee8a4c0cf8d59f48bdab5a34a3819dcb1aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 41/42] fix: softmax of columns far apart and of narrow
 integers

---
 causal_effect_bandits/nonlinear_utils.py | 3 ++-
 causal_effect_bandits/paper_utils.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/nonlinear_utils.py b/causal_effect_bandits/nonlinear_utils.py
index 4daaeeb..9db9de1 100644
--- a/causal_effect_bandits/nonlinear_utils.py
+++ b/causal_effect_bandits/nonlinear_utils.py
@@ -27,7 +27,8 @@ from sklearn import gaussian_process
 
 
 def softmax(x):
-  e_x = np.exp(x - np.max(x))
+  x = np.asarray(x, dtype=float)  # narrow integers would wrap around
+  e_x = np.exp(x - np.max(x, axis=0))
   return e_x / e_x.sum(axis=0)
 
 
diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index e78842a..98e734a 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -33,7 +33,8 @@ warnings.filterwarnings('ignore', category=sk.exceptions.ConvergenceWarning)
 
 
 def softmax(x):
-  e_x = np.exp(x - np.max(x))
+  x = np.asarray(x, dtype=float)  # narrow integers would wrap around
+  e_x = np.exp(x - np.max(x, axis=0))
   return e_x / e_x.sum(axis=0)
 
 
-- 
2.43.0


From 85bd6ead7972132b66f1dc7b573e991f962108d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 42/42] fix: LinearRegressionParameter on narrow integer or
 boolean columns

---
 causal_effect_bandits/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 3f539b9..3e3337e 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -913,7 +913,8 @@ class LinearRegressionParameter(NuisanceParameter):
     """
     if d.n_units < 1:  # not enough data to fit
       return
-    data_matrix = np.array(np.c_[d.exp, d.cov])
+    # float: products overflow for narrow integer types.
+    data_matrix = np.array(np.c_[d.exp, d.cov], dtype=float)
 
     self._model = np.linalg.inv(data_matrix.transpose().dot(data_matrix) +
                                 self.l_reg *
@@ -935,7 +936,8 @@ class LinearRegressionParameter(NuisanceParameter):
     Returns:
       np.array of shape (d.n_units, )
     """
-    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))
+    data_matrix = np.array(np.c_[d.exp, d.cov], dtype=float)
+    xzy = data_matrix.transpose().dot(np.diag(d.rsp))
     return eta.dot(xzy)[0, :]
 
   def calculate_score(self, d: data.ExpData) -> np.ndarray:
-- 
2.43.0

