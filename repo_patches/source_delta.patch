From d069165f4d21a7d8b60780e186261fb295d297cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 01/38] fix: use the number of folds of a supplied cluster
 splitting in the variance estimate

---
 doubleml/double_ml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 1b88c8e..a3ad1e9 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1294,6 +1294,12 @@ class DoubleML(ABC):
         self._smpls, self._smpls_cluster, self._n_rep, self._n_folds = _check_sample_splitting(
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
+        if self._is_cluster_data:
+            # number of folds per cluster variable of the provided partition (used for the variance estimation)
+            n_folds_per_cluster = self._n_folds ** (1.0 / self._dml_data.n_cluster_vars)
+            if np.isclose(n_folds_per_cluster, np.rint(n_folds_per_cluster)):
+                n_folds_per_cluster = int(np.rint(n_folds_per_cluster))
+            self._n_folds_per_cluster = n_folds_per_cluster
 
         (
             self._psi,
-- 
2.43.0


From 7675f3d872cda21e7c000527092ffaa404cb6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 02/38] fix: keep standard errors non-negative when scaling a
 framework by a negative number

---
 doubleml/double_ml_framework.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6078602..d23cba5 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -398,8 +398,8 @@ class DoubleMLFramework:
             all_thetas = np.multiply(other, self._all_thetas)
 
             var_scaling_factors = self._var_scaling_factors
-            ses = np.multiply(other, self._ses)
-            all_ses = np.multiply(other, self._all_ses)
+            ses = np.multiply(abs(other), self._ses)
+            all_ses = np.multiply(abs(other), self._all_ses)
             scaled_psi = np.multiply(other, self._scaled_psi)
 
             doubleml_dict = {
-- 
2.43.0


From cf77f51a8f522ceaa9ee7b8b7b92481bb00a01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 03/38] fix: cluster-robust standard errors for sums and
 differences of clustered frameworks

---
 doubleml/double_ml_framework.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index d23cba5..6b0a099 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -293,6 +293,28 @@ class DoubleMLFramework:
 
         return res
 
+    def _calc_all_ses(self, scaled_psi):
+        # standard errors of scaled scores with the (cluster) structure of the framework, shape (n_thetas, n_rep)
+        if not self._is_cluster_data:
+            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), self._var_scaling_factors.reshape(-1, 1))
+            return np.sqrt(sigma2_hat)
+
+        all_ses = np.full_like(self._all_ses, fill_value=np.nan)
+        for i_rep in range(self.n_rep):
+            for i_theta in range(self.n_thetas):
+                psi = scaled_psi[:, i_theta, i_rep]
+                sigma2_hat, _ = _var_est(
+                    psi=psi,
+                    psi_deriv=np.ones_like(psi),
+                    smpls=self._cluster_dict["smpls"][i_rep],
+                    is_cluster_data=True,
+                    cluster_vars=self._cluster_dict["cluster_vars"],
+                    smpls_cluster=self._cluster_dict["smpls_cluster"][i_rep],
+                    n_folds_per_cluster=self._cluster_dict["n_folds_per_cluster"],
+                )
+                all_ses[i_theta, i_rep] = np.sqrt(sigma2_hat)
+        return all_ses
+
     def __add__(self, other):
         if isinstance(other, DoubleMLFramework):
             # internal consistency check
@@ -308,8 +330,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._calc_all_ses(scaled_psi)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -356,8 +377,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._calc_all_ses(scaled_psi)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
-- 
2.43.0


From 938f82969d702a8d69900cebf78548e4cd3d37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 04/38] fix: discard the results of a previous fit when fitting
 again or changing the sample splitting

---
 doubleml/double_ml.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index a3ad1e9..ae5bde0 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -997,7 +997,28 @@ class DoubleML(ABC):
         elif not self._external_predictions_implemented and external_predictions is not None:
             raise NotImplementedError(f"External predictions not implemented for {self.__class__.__name__}.")
 
+    def _reset_results(self):
+        # discard all results of a previous fit (new arrays, such that results handed out before are not modified)
+        self._framework = None
+        self._predictions = None
+        self._nuisance_targets = None
+        self._nuisance_loss = None
+        self._models = None
+        self._sensitivity_elements = None
+        (
+            self._psi,
+            self._psi_deriv,
+            self._psi_elements,
+            self._var_scaling_factors,
+            self._coef,
+            self._se,
+            self._all_coef,
+            self._all_se,
+        ) = self._initialize_arrays()
+
     def _initalize_fit(self, store_predictions, store_models):
+        self._reset_results()
+
         # initialize loss arrays for nuisance functions evaluation
         self._initialize_nuisance_loss()
 
@@ -1228,6 +1249,7 @@ class DoubleML(ABC):
                 n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._strata
             )
             self._smpls = obj_dml_resampling.split_samples()
+        self._reset_results()
 
         return self
 
@@ -1301,16 +1323,7 @@ class DoubleML(ABC):
                 n_folds_per_cluster = int(np.rint(n_folds_per_cluster))
             self._n_folds_per_cluster = n_folds_per_cluster
 
-        (
-            self._psi,
-            self._psi_deriv,
-            self._psi_elements,
-            self._var_scaling_factors,
-            self._coef,
-            self._se,
-            self._all_coef,
-            self._all_se,
-        ) = self._initialize_arrays()
+        self._reset_results()
         self._initialize_ml_nuisance_params()
 
         return self
-- 
2.43.0


From 36237d4cc6b1545572309a0278b9b423289be651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 05/38] fix: composite models use the drawn sample splitting
 and discard previous results

---
 doubleml/irm/apos.py | 6 ++++++
 doubleml/irm/qte.py  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index e9b160c..5b4d51a 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -389,6 +389,8 @@ class DoubleMLAPOS:
         else:
             ext_pred_dict = None
 
+        self._framework = None
+
         # parallel estimation of the models
         parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs")
         fitted_models = parallel(
@@ -640,6 +642,9 @@ class DoubleMLAPOS:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._dml_data.d
         )
         self._smpls = obj_dml_resampling.split_samples()
+        # initialize all models with the new splits and discard previous results
+        self._modellist = self._initialize_models()
+        self._framework = None
 
         return self
 
@@ -698,6 +703,7 @@ class DoubleMLAPOS:
         )
 
         self._modellist = self._initialize_models()
+        self._framework = None
 
         return self
 
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index f05269a..224f042 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -396,6 +396,8 @@ class DoubleMLQTE:
         if external_predictions is not None:
             raise NotImplementedError(f"External predictions not implemented for {self.__class__.__name__}.")
 
+        self._framework = None
+
         # parallel estimation of the quantiles
         parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs")
         fitted_models = parallel(
@@ -459,6 +461,7 @@ class DoubleMLQTE:
         self._smpls = obj_dml_resampling.split_samples()
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
+        self._framework = None
 
         return self
 
@@ -526,6 +529,7 @@ class DoubleMLQTE:
 
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
+        self._framework = None
 
         return self
 
-- 
2.43.0


From db3e1c6465fc9a7e03cea777f681a2d54f1a887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 06/38] fix: validate every fold and repetition of a supplied
 cluster partition

---
 doubleml/utils/_checks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 90833de..4689039 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -429,10 +429,11 @@ def _check_cluster_sample_splitting(all_smpls_cluster, dml_data, n_rep, n_folds)
         for i_cluster in range(dml_data.n_cluster_vars):
             this_cluster_var = dml_data.cluster_vars[:, i_cluster]
             clusters = np.unique(this_cluster_var)
-            cluster_partition = [all_smpls_cluster[0][0][0][i_cluster], all_smpls_cluster[0][0][1][i_cluster]]
-            is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
-            if not is_cluster_partition:
-                raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
+            for i_fold in range(n_folds):
+                train_clusters, test_clusters = all_smpls_cluster[i_rep][i_fold]
+                is_cluster_partition = _check_cluster_partitions([train_clusters[i_cluster], test_clusters[i_cluster]], clusters)
+                if not is_cluster_partition:
+                    raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
 
     smpls_cluster = all_smpls_cluster
     return smpls_cluster
-- 
2.43.0


From ae13d57b7562e7c0991664d44885a76c5cc92b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 07/38] fix: keep a data backend unchanged when a new role is
 refused and update the binary indicators with the roles

---
 doubleml/double_ml_data.py | 70 ++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 37 deletions(-)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 3ebf2f7..8ff9b32 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -430,7 +430,6 @@ class DoubleMLData(DoubleMLBaseData):
             if not set(value).issubset(set(self.all_variables)):
                 raise ValueError("Invalid covariates x_cols. At least one covariate is no data column.")
             assert set(value).issubset(set(self.all_variables))
-            self._x_cols = value
         else:
             excluded_cols = set.union({self.y_col}, set(self.d_cols))
             if self.z_cols is not None:
@@ -438,11 +437,8 @@ class DoubleMLData(DoubleMLBaseData):
             for col in [self.t_col, self.s_col]:
                 col = _check_set(col)
                 excluded_cols = set.union(excluded_cols, col)
-            self._x_cols = [col for col in self.data.columns if col not in excluded_cols]
-        if reset_value:
-            self._check_disjoint_sets()
-            # by default, we initialize to the first treatment variable
-            self.set_x_d(self.d_cols[0])
+            value = [col for col in self.data.columns if col not in excluded_cols]
+        self._set_role("_x_cols", value, reset_value)
 
     @property
     def d_cols(self):
@@ -465,11 +461,7 @@ class DoubleMLData(DoubleMLBaseData):
             raise ValueError("Invalid treatment variable(s) d_cols: Contains duplicate values.")
         if not set(value).issubset(set(self.all_variables)):
             raise ValueError("Invalid treatment variable(s) d_cols. At least one treatment variable is no data column.")
-        self._d_cols = value
-        if reset_value:
-            self._check_disjoint_sets()
-            # by default, we initialize to the first treatment variable
-            self.set_x_d(self.d_cols[0])
+        self._set_role("_d_cols", value, reset_value)
 
     @property
     def y_col(self):
@@ -487,10 +479,7 @@ class DoubleMLData(DoubleMLBaseData):
             )
         if value not in self.all_variables:
             raise ValueError(f"Invalid outcome variable y_col. {value} is no data column.")
-        self._y_col = value
-        if reset_value:
-            self._check_disjoint_sets()
-            self._set_y_z_t_s()
+        self._set_role("_y_col", value, reset_value)
 
     @property
     def z_cols(self):
@@ -516,12 +505,7 @@ class DoubleMLData(DoubleMLBaseData):
                 raise ValueError(
                     "Invalid instrumental variable(s) z_cols. At least one instrumental variable is no data column."
                 )
-            self._z_cols = value
-        else:
-            self._z_cols = None
-        if reset_value:
-            self._check_disjoint_sets()
-            self._set_y_z_t_s()
+        self._set_role("_z_cols", value, reset_value)
 
     @property
     def t_col(self):
@@ -541,12 +525,7 @@ class DoubleMLData(DoubleMLBaseData):
                 )
             if value not in self.all_variables:
                 raise ValueError(f"Invalid time variable t_col. {value} is no data column.")
-            self._t_col = value
-        else:
-            self._t_col = None
-        if reset_value:
-            self._check_disjoint_sets()
-            self._set_y_z_t_s()
+        self._set_role("_t_col", value, reset_value)
 
     @property
     def s_col(self):
@@ -566,12 +545,7 @@ class DoubleMLData(DoubleMLBaseData):
                 )
             if value not in self.all_variables:
                 raise ValueError(f"Invalid score or selection variable s_col. {value} is no data column.")
-            self._s_col = value
-        else:
-            self._s_col = None
-        if reset_value:
-            self._check_disjoint_sets()
-            self._set_y_z_t_s()
+        self._set_role("_s_col", value, reset_value)
 
     @property
     def use_other_treat_as_covariate(self):
@@ -612,6 +586,31 @@ class DoubleMLData(DoubleMLBaseData):
             # by default, we initialize to the first treatment variable
             self.set_x_d(self.d_cols[0])
 
+    def _set_role(self, attribute, value, reset_value):
+        # assign a role; if the object is already initialized, everything depending on it is updated and the
+        # previous state is restored if the new specification is invalid
+        previous_state = self.__dict__.copy()
+        setattr(self, attribute, value)
+        if not reset_value:
+            return
+        try:
+            self._check_disjoint_sets()
+            if attribute == "_cluster_cols":
+                self._set_cluster_vars()
+            elif attribute in ["_y_col", "_z_cols", "_t_col", "_s_col"]:
+                if attribute == "_y_col":
+                    self._binary_outcome = self._check_binary_outcome()
+                self._set_y_z_t_s()
+            else:
+                if attribute == "_d_cols":
+                    self._binary_treats = self._check_binary_treats()
+                # by default, we initialize to the first treatment variable
+                self.set_x_d(self.d_cols[0])
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(previous_state)
+            raise
+
     def _set_y_z_t_s(self):
         assert_all_finite(self.data.loc[:, self.y_col])
         self._y = self.data.loc[:, self.y_col]
@@ -984,10 +983,7 @@ class DoubleMLClusterData(DoubleMLData):
             raise ValueError("Invalid cluster variable(s) cluster_cols: Contains duplicate values.")
         if not set(value).issubset(set(self.all_variables)):
             raise ValueError("Invalid cluster variable(s) cluster_cols. At least one cluster variable is no data column.")
-        self._cluster_cols = value
-        if reset_value:
-            self._check_disjoint_sets()
-            self._set_cluster_vars()
+        self._set_role("_cluster_cols", value, reset_value)
 
     @property
     def n_cluster_vars(self):
-- 
2.43.0


From 0a30570079ebf1a6d96e70df002daca68ea133b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 08/38] fix: detect infinite values in covariates, instruments
 and cluster variables of mixed column types

---
 doubleml/double_ml_data.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 8ff9b32..cddf826 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -559,10 +559,7 @@ class DoubleMLData(DoubleMLBaseData):
         reset_value = hasattr(self, "_use_other_treat_as_covariate")
         if not isinstance(value, bool):
             raise TypeError(f"use_other_treat_as_covariate must be True or False. Got {str(value)}.")
-        self._use_other_treat_as_covariate = value
-        if reset_value:
-            # by default, we initialize to the first treatment variable
-            self.set_x_d(self.d_cols[0])
+        self._set_role("_use_other_treat_as_covariate", value, reset_value)
 
     @property
     def force_all_x_finite(self):
@@ -587,7 +584,7 @@ class DoubleMLData(DoubleMLBaseData):
             self.set_x_d(self.d_cols[0])
 
     def _set_role(self, attribute, value, reset_value):
-        # assign a role; if the object is already initialized, everything depending on it is updated and the
+        # assign a role (or option); if the object is already initialized, everything depending on it is updated and the
         # previous state is restored if the new specification is invalid
         previous_state = self.__dict__.copy()
         setattr(self, attribute, value)
@@ -611,13 +608,18 @@ class DoubleMLData(DoubleMLBaseData):
             self.__dict__.update(previous_state)
             raise
 
+    def _assert_columns_finite(self, cols, allow_nan=False):
+        # columnwise, as the check does not detect infinite values in the object array resulting from mixed column types
+        for col in cols:
+            assert_all_finite(self.data.loc[:, col], allow_nan=allow_nan)
+
     def _set_y_z_t_s(self):
         assert_all_finite(self.data.loc[:, self.y_col])
         self._y = self.data.loc[:, self.y_col]
         if self.z_cols is None:
             self._z = None
         else:
-            assert_all_finite(self.data.loc[:, self.z_cols])
+            self._assert_columns_finite(self.z_cols)
             self._z = self.data.loc[:, self.z_cols]
 
         if self.t_col is None:
@@ -656,7 +658,7 @@ class DoubleMLData(DoubleMLBaseData):
             xd_list = self.x_cols
         assert_all_finite(self.data.loc[:, treatment_var])
         if self.force_all_x_finite:
-            assert_all_finite(self.data.loc[:, xd_list], allow_nan=self.force_all_x_finite == "allow-nan")
+            self._assert_columns_finite(xd_list, allow_nan=self.force_all_x_finite == "allow-nan")
         self._d = self.data.loc[:, treatment_var]
         self._X = self.data.loc[:, xd_list]
 
@@ -1087,5 +1089,5 @@ class DoubleMLClusterData(DoubleMLData):
                 )
 
     def _set_cluster_vars(self):
-        assert_all_finite(self.data.loc[:, self.cluster_cols])
+        self._assert_columns_finite(self.cluster_cols)
         self._cluster_vars = self.data.loc[:, self.cluster_cols]
-- 
2.43.0


From 25ce780fb5e4fb50a78a491a3922627ece2a9f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 09/38] fix: do not modify the scoring_methods dictionary
 passed to tune

---
 doubleml/double_ml.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index ae5bde0..1ebdd49 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -761,11 +761,8 @@ class DoubleML(ABC):
                     + " and ".join(self.learner_names)
                     + "."
                 )
-            if not all(k in scoring_methods for k in self.learner_names):
-                # if there are learners for which no scoring_method was set, we fall back to None, i.e., default scoring
-                for learner in self.learner_names:
-                    if learner not in scoring_methods:
-                        scoring_methods[learner] = None
+            # if there are learners for which no scoring_method was set, we fall back to None, i.e., default scoring
+            scoring_methods = {learner: scoring_methods.get(learner) for learner in self.learner_names}
 
         if not isinstance(tune_on_folds, bool):
             raise TypeError(f"tune_on_folds must be True or False. Got {str(tune_on_folds)}.")
-- 
2.43.0


From e68af5a91f9dfe26c7055996e098c0f3eb13361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 10/38] fix: tuning on folds with several repetitions or
 treatments stores the results per treatment and repetition

---
 doubleml/double_ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 1ebdd49..d23c8a7 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -804,7 +804,7 @@ class DoubleML(ABC):
             raise TypeError(f"return_tune_res must be True or False. Got {str(return_tune_res)}.")
 
         if tune_on_folds:
-            tuning_res = [[None] * self.n_rep] * self._dml_data.n_treat
+            tuning_res = [[None] * self.n_rep for _ in range(self._dml_data.n_treat)]
         else:
             tuning_res = [None] * self._dml_data.n_treat
 
@@ -830,7 +830,7 @@ class DoubleML(ABC):
                         n_iter_randomized_search,
                     )
 
-                    tuning_res[i_rep][i_d] = res
+                    tuning_res[i_d][i_rep] = res
                     nuisance_params.append(res["params"])
 
                 if set_as_params:
-- 
2.43.0


From ddc16eef5d5936814d8527d9ff476297980d1a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 11/38] fix: do not let the start value of quantile models
 depend on previous repetitions and fits

---
 doubleml/irm/lpq.py | 3 +++
 doubleml/irm/pq.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 56a9796..bc04e58 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -280,6 +280,9 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         x, d = check_X_y(x, self._dml_data.d, force_all_finite=False)
         x, z = check_X_y(x, np.ravel(self._dml_data.z), force_all_finite=False)
 
+        # reset the start value (readjusted below), such that it does not depend on previous repetitions or fits
+        self._coef_start_val = np.quantile(y[d == self.treatment], self.quantile)
+
         m_z = external_predictions["ml_m_z"] is not None
         m_d_d0 = external_predictions["ml_m_d_z0"] is not None
         m_d_d1 = external_predictions["ml_m_d_z1"] is not None
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 4cdcd74..123e4b4 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -255,6 +255,9 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         x, y = check_X_y(self._dml_data.x, self._dml_data.y, force_all_finite=False)
         x, d = check_X_y(x, self._dml_data.d, force_all_finite=False)
 
+        # reset the start value (readjusted below), such that it does not depend on previous repetitions or fits
+        self._coef_start_val = np.quantile(y[d == self.treatment], self.quantile)
+
         g_external = external_predictions["ml_g"] is not None
         m_external = external_predictions["ml_m"] is not None
 
-- 
2.43.0


From 01e3f8536da9e64540d52d5a029139748b90762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 12/38] fix: predict with stored models or uncommon splits if a
 training fold contains a single class only

---
 doubleml/utils/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 25e6262..a28737c 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -119,7 +119,7 @@ def _dml_cv_predict(
             assert idx == fitted_models[idx][1]
             pred_fun = getattr(fitted_models[idx][0], method)
             if method == "predict_proba":
-                preds[test_index] = pred_fun(x[test_index, :])[:, 1]
+                preds[test_index] = _predict_zero_one_propensity(fitted_models[idx][0], x[test_index, :])
             else:
                 preds[test_index] = pred_fun(x[test_index, :])
 
-- 
2.43.0


From fc113a1bb5730e1d3b18d926222cb0d46d8b034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 13/38] fix: allow external predictions for a subset of the
 treatment variables

---
 doubleml/utils/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index a28737c..cdd48f5 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -331,7 +331,7 @@ def _cond_targets(target, cond_sample):
 def _set_external_predictions(external_predictions, learners, treatment, i_rep):
     ext_prediction_dict = {}
     for learner in learners:
-        if external_predictions is None:
+        if external_predictions is None or treatment not in external_predictions:
             ext_prediction_dict[learner] = None
         elif learner in external_predictions[treatment].keys():
             if isinstance(external_predictions[treatment][learner], np.ndarray):
-- 
2.43.0


From e42dafeb0c8d71a6690b6bb0cb4cca1e596de5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 14/38] fix: allow external predictions for a subset of the
 treatment levels in APOS

---
 doubleml/irm/apos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 5b4d51a..4e3ce26 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -866,7 +866,7 @@ class DoubleMLAPOS:
     def _rename_external_predictions(self, external_predictions):
         d_col = self._dml_data.d_cols[0]
         ext_pred_dict = {treatment_level: {d_col: {}} for treatment_level in self.treatment_levels}
-        for treatment_level in self.treatment_levels:
+        for treatment_level in external_predictions:
             if "ml_g_d_lvl1" in external_predictions[treatment_level]:
                 ext_pred_dict[treatment_level][d_col]["ml_g_d_lvl1"] = external_predictions[treatment_level]["ml_g_d_lvl1"]
             if "ml_m" in external_predictions[treatment_level]:
-- 
2.43.0


From 11281e6b884405e849ace1ea863d20eba30a046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 15/38] fix: use the external propensity predictions of the
 right observations in PQ

---
 doubleml/irm/pq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 123e4b4..e7fc643 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -327,7 +327,7 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                         ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim
                     )["preds"]
                 else:
-                    m_hat_prelim = m_hat["preds"][np.concatenate([test for _, test in smpls_prelim])]
+                    m_hat_prelim = m_hat["preds"][train_inds_1]
                 m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
                 if self._normalize_ipw:
                     m_hat_prelim = _normalize_ipw(m_hat_prelim, d_train_1)
-- 
2.43.0


From ed96270c69e28decff6292db01b207cc039d1934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 16/38] fix: allow to store models in PQ and LPQ together with
 external predictions

---
 doubleml/irm/lpq.py | 2 +-
 doubleml/irm/pq.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index bc04e58..0405302 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -496,7 +496,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         m_d_z0_hat["targets"] = _cond_targets(d, cond_sample=(z == 0))
         m_d_z1_hat["targets"] = _cond_targets(d, cond_sample=(z == 1))
 
-        if return_models:
+        if return_models and not all(ext_preds):
             m_z_hat["models"] = fitted_models["ml_m_z"]
             m_d_z0_hat["models"] = fitted_models["ml_m_d_z0"]
             m_d_z1_hat["models"] = fitted_models["ml_m_d_z1"]
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index e7fc643..ce669c7 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -369,8 +369,8 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         g_hat["targets"] = _cond_targets(g_hat["targets"], cond_sample=(d == self.treatment))
 
         if return_models:
-            g_hat["models"] = fitted_models["ml_g"]
-            m_hat["models"] = fitted_models["ml_m"]
+            g_hat["models"] = fitted_models.get("ml_g")
+            m_hat["models"] = fitted_models.get("ml_m")
 
         # clip propensities and normalize ipw weights
         m_hat["preds"] = _trimm(m_hat["preds"], self.trimming_rule, self.trimming_threshold)
-- 
2.43.0


From b5af7f5e07ca809a7a373808c388a04876305b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 17/38] fix: refuse partial external predictions in LPQ instead
 of ignoring them

---
 doubleml/irm/lpq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 0405302..230c2eb 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -293,6 +293,9 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         # create strata for splitting
         strata = self._dml_data.d.reshape(-1, 1) + 2 * self._dml_data.z.reshape(-1, 1)
 
+        if any(ext_preds) and not all(ext_preds):
+            raise ValueError("External predictions for all estimations or for none are required.")
+
         # initialize nuisance predictions, targets and models
         if not all(ext_preds):
             m_z_hat = {
@@ -333,8 +336,6 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 else:
                     fitted_models[learner] = [clone(self._learner[learner]) for i_fold in range(self.n_folds)]
             ipw_vec = np.full(shape=self.n_folds, fill_value=np.nan)
-        elif any(ext_preds) and not any(ext_preds):
-            raise ValueError("External predictions for all estimations or for none are required.")
         else:
             m_z_hat = {
                 "models": None,
-- 
2.43.0


From ba85d9e392b879e755b84c79c5cb01b5dbc1c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 18/38] fix: refuse external predictions for partialled out
 PLIV variants instead of ignoring them

---
 doubleml/plm/pliv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index dc0fbd2..ccc70b8 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -164,6 +164,7 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
         obj._learner = {"ml_r": ml_r}
         obj._predict_method = {"ml_r": "predict"}
         obj._initialize_ml_nuisance_params()
+        obj._external_predictions_implemented = False
         return obj
 
     @classmethod
@@ -181,6 +182,7 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
         obj._learner = {"ml_l": ml_l, "ml_m": ml_m, "ml_r": ml_r}
         obj._predict_method = {"ml_l": "predict", "ml_m": "predict", "ml_r": "predict"}
         obj._initialize_ml_nuisance_params()
+        obj._external_predictions_implemented = False
         return obj
 
     def _initialize_ml_nuisance_params(self):
-- 
2.43.0


From a16cb7b8016e734ff6e071bf6f9ba5f6dfc4267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 19/38] fix: check the external predictions of all APOS levels
 before fitting any of them

---
 doubleml/irm/apos.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 4e3ce26..f5c011e 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -10,7 +10,13 @@ from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLClusterData, DoubleMLData
 from doubleml.double_ml_framework import concat
 from doubleml.irm.apo import DoubleMLAPO
-from doubleml.utils._checks import _check_sample_splitting, _check_score, _check_trimming, _check_weights
+from doubleml.utils._checks import (
+    _check_external_predictions,
+    _check_sample_splitting,
+    _check_score,
+    _check_trimming,
+    _check_weights,
+)
 from doubleml.utils._descriptive import generate_summary
 from doubleml.utils._sensitivity import _compute_sensitivity_bias
 from doubleml.utils.gain_statistics import gain_statistics
@@ -386,6 +392,15 @@ class DoubleMLAPOS:
         if external_predictions is not None:
             self._check_external_predictions(external_predictions)
             ext_pred_dict = self._rename_external_predictions(external_predictions)
+            # check the predictions of all levels before any model is fitted
+            for treatment_level in self.treatment_levels:
+                _check_external_predictions(
+                    external_predictions=ext_pred_dict[treatment_level],
+                    valid_treatments=self._dml_data.d_cols,
+                    valid_learners=["ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"],
+                    n_obs=self._dml_data.n_obs,
+                    n_rep=self.n_rep,
+                )
         else:
             ext_pred_dict = None
 
-- 
2.43.0


From b6551cc1b55cedef75d58c6a61890df7bf6a6fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 20/38] fix: use the null hypothesis, rho and level passed to
 sensitivity_plot

---
 doubleml/double_ml_framework.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6b0a099..4477b25 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -877,7 +877,6 @@ class DoubleMLFramework:
         _check_in_zero_one(grid_bounds[1], "grid_bounds", include_zero=False, include_one=False)
         _check_integer(grid_size, "grid_size", lower_bound=10)
 
-        null_hypothesis = self.sensitivity_params["input"]["null_hypothesis"][idx_treatment]
         unadjusted_theta = self.thetas[idx_treatment]
         # check which side is relvant
         bound = "upper" if (null_hypothesis > unadjusted_theta) else "lower"
@@ -903,7 +902,7 @@ class DoubleMLFramework:
             unadjusted_value = unadjusted_theta
         else:
             assert value == "ci"
-            ci = self.confint(level=self.sensitivity_params["input"]["level"])
+            ci = self.confint(level=level)
             if bound == "upper":
                 unadjusted_value = ci.iloc[idx_treatment, 1]
             else:
@@ -918,19 +917,26 @@ class DoubleMLFramework:
                 sens_dict_bench = self._calc_sensitivity_analysis(
                     cf_y=benchmarks["cf_y"][benchmark_idx],
                     cf_d=benchmarks["cf_d"][benchmark_idx],
-                    rho=self.sensitivity_params["input"]["rho"],
-                    level=self.sensitivity_params["input"]["level"],
+                    rho=rho,
+                    level=level,
                 )
                 benchmark_values[benchmark_idx] = sens_dict_bench[value][bound][idx_treatment]
             benchmark_dict["value"] = benchmark_values
+        # scenario values are only available after calling sensitivity_analysis()
+        scenario_x, scenario_y, scenario_value = None, None, None
+        if include_scenario:
+            scenario_x = self.sensitivity_params["input"]["cf_d"]
+            scenario_y = self.sensitivity_params["input"]["cf_y"]
+            scenario_value = self.sensitivity_params[value][bound][idx_treatment]
+
         fig = _sensitivity_contour_plot(
             x=cf_d_vec,
             y=cf_y_vec,
             contour_values=contour_values,
             unadjusted_value=unadjusted_value,
-            scenario_x=self.sensitivity_params["input"]["cf_d"],
-            scenario_y=self.sensitivity_params["input"]["cf_y"],
-            scenario_value=self.sensitivity_params[value][bound][idx_treatment],
+            scenario_x=scenario_x,
+            scenario_y=scenario_y,
+            scenario_value=scenario_value,
             include_scenario=include_scenario,
             benchmarks=benchmark_dict,
             fill=fill,
-- 
2.43.0


From f1034a83d9bdf1c52cf4bcf1c307aca057840c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 21/38] fix: contour values of the sensitivity plot belong to
 their axes (cf_d and cf_y were swapped)

---
 doubleml/double_ml_framework.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 4477b25..f0ad22e 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -895,7 +895,8 @@ class DoubleMLFramework:
                     rho=rho,
                     level=level,
                 )
-                contour_values[i_cf_d_grid, i_cf_y_grid] = sens_dict[value][bound][idx_treatment]
+                # rows refer to the y-axis (cf_y) and columns to the x-axis (cf_d)
+                contour_values[i_cf_y_grid, i_cf_d_grid] = sens_dict[value][bound][idx_treatment]
 
         # get the correct unadjusted value for confidence bands
         if value == "theta":
-- 
2.43.0


From b04fbd68cf965ce7a1e02cb1404b95a55af62599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 22/38] fix: center the influence function of the re-estimated
 nu2 in the sensitivity analysis

---
 doubleml/double_ml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index d23c8a7..54f5f70 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1465,8 +1465,9 @@ class DoubleML(ABC):
                         "Re-estimation based on riesz representer (non-orthogonal)."
                     )
                     warnings.warn(msg, UserWarning)
-                    psi_nu2 = np.power(riesz_rep, 2)
-                    nu2 = np.mean(psi_nu2, axis=0, keepdims=True)
+                    nu2_score_element = np.power(riesz_rep, 2)
+                    nu2 = np.mean(nu2_score_element, axis=0, keepdims=True)
+                    psi_nu2 = nu2_score_element - nu2
 
                     self.sensitivity_elements["nu2"][:, :, i_treat] = nu2
                     self.sensitivity_elements["psi_nu2"][:, :, i_treat] = psi_nu2
-- 
2.43.0


From 2da62421dc1b54af81934c4ca442566bab476540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 23/38] fix: scale cluster scores of the framework with the
 fold-weighted derivative used for the standard errors

---
 doubleml/double_ml.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 54f5f70..415d1ba 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -546,7 +546,7 @@ class DoubleML(ABC):
         doubleml_framework : doubleml.DoubleMLFramework
         """
         # standardize the score function and reshape to (n_obs, n_coefs, n_rep)
-        scaled_psi = np.divide(self.psi, np.mean(self.psi_deriv, axis=0))
+        scaled_psi = np.divide(self.psi, self._mean_psi_deriv())
         scaled_psi_reshape = np.transpose(scaled_psi, (0, 2, 1))
 
         doubleml_dict = {
@@ -1325,6 +1325,19 @@ class DoubleML(ABC):
 
         return self
 
+    def _mean_psi_deriv(self):
+        # average derivative of the score as used for the standard errors, shape (n_rep, n_coefs)
+        if not self._is_cluster_data:
+            return np.mean(self.psi_deriv, axis=0)
+
+        mean_psi_deriv = np.full(shape=self.psi_deriv.shape[1:], fill_value=np.nan)
+        for i_rep in range(self.n_rep):
+            fold_weights = np.full(shape=self._dml_data.n_obs, fill_value=np.nan)
+            for (_, test_inds), (_, test_cluster_inds) in zip(self.smpls[i_rep], self.smpls_cluster[i_rep]):
+                fold_weights[test_inds] = 1.0 / np.prod(np.array([len(inds) for inds in test_cluster_inds]))
+            mean_psi_deriv[i_rep, :] = np.average(self.psi_deriv[:, i_rep, :], axis=0, weights=fold_weights)
+        return mean_psi_deriv
+
     def _est_causal_pars(self, psi_elements):
         smpls = self.__smpls
 
-- 
2.43.0


From 476af7bc5508fd242c57a493bc88ac73e29ff68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 24/38] fix: accept integer dummy-coded groups for GATE and
 GAPO as documented

---
 doubleml/irm/apo.py | 2 +-
 doubleml/irm/irm.py | 2 +-
 doubleml/plm/plr.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/apo.py b/doubleml/irm/apo.py
index e8c7517..ebdf4af 100644
--- a/doubleml/irm/apo.py
+++ b/doubleml/irm/apo.py
@@ -508,7 +508,7 @@ class DoubleMLAPO(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/irm/irm.py b/doubleml/irm/irm.py
index 72db088..12fdcf1 100644
--- a/doubleml/irm/irm.py
+++ b/doubleml/irm/irm.py
@@ -518,7 +518,7 @@ class DoubleMLIRM(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 1b45d86..9f5a7f4 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -418,7 +418,7 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
 
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
-- 
2.43.0


From 8ac93f0e0dd89163e4db612bbfed0261983c5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 25/38] fix: policy tree for signals which are exactly zero

---
 doubleml/utils/policytree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doubleml/utils/policytree.py b/doubleml/utils/policytree.py
index ca771ad..08a05cc 100644
--- a/doubleml/utils/policytree.py
+++ b/doubleml/utils/policytree.py
@@ -98,7 +98,8 @@ class DoubleMLPolicyTree:
         -------
         self : object
         """
-        bin_signal = (np.sign(self._orth_signal) + 1) / 2
+        # a signal of exactly zero has weight zero and is assigned to no treatment
+        bin_signal = (self._orth_signal > 0).astype(float)
         abs_signal = np.abs(self._orth_signal)
 
         # fit the tree with target binary score, sample weights absolute score and
-- 
2.43.0


From b02ca47fc67545d1dc7fac0ea9b6611e5cde8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 26/38] fix: policy tree prediction with reordered feature
 columns

---
 doubleml/utils/policytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/policytree.py b/doubleml/utils/policytree.py
index 08a05cc..231fe79 100644
--- a/doubleml/utils/policytree.py
+++ b/doubleml/utils/policytree.py
@@ -152,6 +152,6 @@ class DoubleMLPolicyTree:
                 f"The features must have the keys {self._features.keys()}. Features with keys {features.keys()} were passed."
             )
 
-        predictions = self.policy_tree.predict(features)
+        predictions = self.policy_tree.predict(features[list(self._features.keys())])
 
         return features.assign(pred_treatment=predictions.astype(int))
-- 
2.43.0


From ea46e5dc662208523a2d3e83ecbe0523c23ea01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 27/38] fix: keep preliminary tuning predictions as floats for
 integer-valued outcomes or treatments

---
 doubleml/plm/pliv.py | 6 +++---
 doubleml/plm/plr.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index ccc70b8..00317f9 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -596,9 +596,9 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
             # an ML model for g is obtained for the IV-type score and callable scores
             if "ml_g" in self._learner:
                 # construct an initial theta estimate from the tuned models using the partialling out score
-                l_hat = np.full_like(y, np.nan)
-                m_hat = np.full_like(z, np.nan)
-                r_hat = np.full_like(d, np.nan)
+                l_hat = np.full_like(y, np.nan, dtype=float)
+                m_hat = np.full_like(z, np.nan, dtype=float)
+                r_hat = np.full_like(d, np.nan, dtype=float)
                 for idx, (train_index, _) in enumerate(smpls):
                     l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                     m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 9f5a7f4..f9ac48b 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -324,8 +324,8 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
         # an ML model for g is obtained for the IV-type score and callable scores
         if "ml_g" in self._learner:
             # construct an initial theta estimate from the tuned models using the partialling out score
-            l_hat = np.full_like(y, np.nan)
-            m_hat = np.full_like(d, np.nan)
+            l_hat = np.full_like(y, np.nan, dtype=float)
+            m_hat = np.full_like(d, np.nan, dtype=float)
             for idx, (train_index, _) in enumerate(smpls):
                 l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                 m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
-- 
2.43.0


From 5f3224725d08f3c0b9c715a94459d016b6708892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 28/38] fix: DoubleMLAPOS accepts the documented tuple for no
 sample splitting

---
 doubleml/irm/apos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index f5c011e..98b6502 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -919,8 +919,8 @@ class DoubleMLAPOS:
             # initialize models for all levels
             model = DoubleMLAPO(treatment_level=self._treatment_levels[i_level], **kwargs)
 
-            # synchronize the sample splitting
-            model.set_sample_splitting(all_smpls=self.smpls)
+            # synchronize the sample splitting (no sample splitting has to be passed as tuple)
+            model.set_sample_splitting(all_smpls=self.smpls if self.n_folds > 1 else self.smpls[0][0])
             modellist[i_level] = model
 
         return modellist
-- 
2.43.0


From 508f3263b25205319dc0c44b981a60b36535163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:47 +0000
Subject: [PATCH 29/38] fix: nonignorable sample selection model uses
 probabilities of an outcome classifier

---
 doubleml/irm/ssm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 5a6458c..f6d9163 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -348,7 +348,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d1"][i_fold].fit(xpi_s1_d1_train_2, y_s1_d1_train_2)
 
                 # predict conditional outcome
-                g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
+                if self._predict_method["ml_g"] == "predict_proba":
+                    g_hat_d1["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_g_d1"][i_fold], xpi_test)
+                else:
+                    g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
                 g_hat_d1["targets"][test_inds] = y[test_inds]
 
                 # estimate conditional outcome on second training sample - control
@@ -359,7 +362,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d0"][i_fold].fit(xpi_s1_d0_train_2, y_s1_d0_train_2)
 
                 # predict conditional outcome
-                g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
+                if self._predict_method["ml_g"] == "predict_proba":
+                    g_hat_d0["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_g_d0"][i_fold], xpi_test)
+                else:
+                    g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
                 g_hat_d0["targets"][test_inds] = y[test_inds]
 
                 if return_models:
-- 
2.43.0


From 0c99f9a38a002aa6b7c10f9c9ae196926131cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 30/38] fix: loss of the sample selection model's outcome
 learners uses the selected units of the treatment status

---
 doubleml/irm/ssm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index f6d9163..a30f079 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -10,7 +10,13 @@ from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import LinearScoreMixin
 from doubleml.utils._checks import _check_finite_predictions, _check_score, _check_trimming
-from doubleml.utils._estimation import _dml_cv_predict, _dml_tune, _get_cond_smpls_2d, _predict_zero_one_propensity
+from doubleml.utils._estimation import (
+    _cond_targets,
+    _dml_cv_predict,
+    _dml_tune,
+    _get_cond_smpls_2d,
+    _predict_zero_one_propensity,
+)
 from doubleml.utils._propensity_score import _trimm
 
 
@@ -374,6 +380,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                     pi_hat["models"] = fitted_models["ml_pi"]
                     m_hat["models"] = fitted_models["ml_m"]
 
+        # only consider the outcomes of the selected units with the right treatment status
+        g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=((d == 1) & (s == 1)))
+        g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=((d == 0) & (s == 1)))
+
         m_hat["preds"] = _trimm(m_hat["preds"], self._trimming_rule, self._trimming_threshold)
 
         # treatment indicator
-- 
2.43.0


From fb9d4a58ca04007acacc53df1356522b766b6583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 31/38] fix: RDFlex adjustment of integer-valued outcomes and
 treatments is no longer truncated

---
 doubleml/rdd/rdd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 858ae5e..3052be4 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -425,7 +425,7 @@ class RDFlex:
         ZX_left = np.column_stack((Z_left, X))
         ZX_right = np.column_stack((Z_right, X))
 
-        mu_left, mu_right = np.full_like(outcome, fill_value=np.nan), np.full_like(outcome, fill_value=np.nan)
+        mu_left, mu_right = np.full(outcome.shape, fill_value=np.nan), np.full(outcome.shape, fill_value=np.nan)
 
         for train_index, test_index in smpls:
             estimator = clone(self._learner[estimator_name])
-- 
2.43.0


From 1f64259e32fdf9d9f77f52add75470c60be68880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 32/38] fix: RDFlex reports the final bandwidth for a single
 iteration

---
 doubleml/rdd/rdd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 3052be4..3edf9ec 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -359,7 +359,7 @@ class RDFlex:
                         b = None
 
                     rdd_res = self._fit_rdd(h=h, b=b)
-                    self._set_coefs(rdd_res, h)
+                    self._set_coefs(rdd_res)
 
         self.aggregate_over_splits()
 
@@ -459,8 +459,8 @@ class RDFlex:
             rdd_res = rdrobust.rdrobust(y=self._M_Y[:, self._i_rep], x=self._score, h=h, b=b, **self.kwargs)
         return rdd_res
 
-    def _set_coefs(self, rdd_res, h):
-        self._h[self._i_rep] = h
+    def _set_coefs(self, rdd_res):
+        self._h[self._i_rep] = rdd_res.bws.loc["h"].max()
         self._all_coef[:, self._i_rep] = rdd_res.coef.values.flatten()
         self._all_se[:, self._i_rep] = rdd_res.se.values.flatten()
         self._all_ci[:, :, self._i_rep] = rdd_res.ci.values
-- 
2.43.0


From 4d4766969c3bc95fc1f43db8e1bfb5eadb44da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 33/38] fix: refuse non-finite learner predictions in PQ, LPQ,
 CVaR, SSM, DIDCS and RDFlex

---
 doubleml/did/did_cs.py |  4 ++++
 doubleml/irm/cvar.py   |  5 +++++
 doubleml/irm/lpq.py    | 18 +++++++++++++++++-
 doubleml/irm/pq.py     |  7 +++++++
 doubleml/irm/ssm.py    |  5 +++++
 doubleml/rdd/rdd.py    |  6 ++++--
 6 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/doubleml/did/did_cs.py b/doubleml/did/did_cs.py
index a198bce..4846820 100644
--- a/doubleml/did/did_cs.py
+++ b/doubleml/did/did_cs.py
@@ -246,6 +246,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
 
             g_hat_d0_t0["targets"] = g_hat_d0_t0["targets"].astype(float)
             g_hat_d0_t0["targets"][np.invert((d == 0) & (t == 0))] = np.nan
+            _check_finite_predictions(g_hat_d0_t0["preds"], self._learner["ml_g"], "ml_g_d0_t0", smpls)
         if external_predictions["ml_g_d0_t1"] is not None:
             g_hat_d0_t1 = {"preds": external_predictions["ml_g_d0_t1"], "targets": None, "models": None}
         else:
@@ -261,6 +262,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
             )
             g_hat_d0_t1["targets"] = g_hat_d0_t1["targets"].astype(float)
             g_hat_d0_t1["targets"][np.invert((d == 0) & (t == 1))] = np.nan
+            _check_finite_predictions(g_hat_d0_t1["preds"], self._learner["ml_g"], "ml_g_d0_t1", smpls)
         if external_predictions["ml_g_d1_t0"] is not None:
             g_hat_d1_t0 = {"preds": external_predictions["ml_g_d1_t0"], "targets": None, "models": None}
         else:
@@ -276,6 +278,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
             )
             g_hat_d1_t0["targets"] = g_hat_d1_t0["targets"].astype(float)
             g_hat_d1_t0["targets"][np.invert((d == 1) & (t == 0))] = np.nan
+            _check_finite_predictions(g_hat_d1_t0["preds"], self._learner["ml_g"], "ml_g_d1_t0", smpls)
         if external_predictions["ml_g_d1_t1"] is not None:
             g_hat_d1_t1 = {"preds": external_predictions["ml_g_d1_t1"], "targets": None, "models": None}
         else:
@@ -291,6 +294,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
             )
             g_hat_d1_t1["targets"] = g_hat_d1_t1["targets"].astype(float)
             g_hat_d1_t1["targets"][np.invert((d == 1) & (t == 1))] = np.nan
+            _check_finite_predictions(g_hat_d1_t1["preds"], self._learner["ml_g"], "ml_g_d1_t1", smpls)
 
         # only relevant for observational or experimental setting
         m_hat = {"preds": None, "targets": None, "models": None}
diff --git a/doubleml/irm/cvar.py b/doubleml/irm/cvar.py
index e77031e..64e0863 100644
--- a/doubleml/irm/cvar.py
+++ b/doubleml/irm/cvar.py
@@ -8,6 +8,7 @@ from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import LinearScoreMixin
 from doubleml.utils._checks import (
     _check_contains_iv,
+    _check_finite_predictions,
     _check_quantile,
     _check_score,
     _check_treatment,
@@ -251,6 +252,7 @@ class DoubleMLCVAR(LinearScoreMixin, DoubleML):
             m_hat_prelim = _dml_cv_predict(ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim)[
                 "preds"
             ]
+            _check_finite_predictions(m_hat_prelim, self._learner["ml_m"], "ml_m", smpls_prelim)
 
             m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
 
@@ -292,6 +294,9 @@ class DoubleMLCVAR(LinearScoreMixin, DoubleML):
             fitted_models["ml_m"][i_fold].fit(x[train_inds, :], d[train_inds])
             m_hat["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_m"][i_fold], x_test)
 
+        _check_finite_predictions(g_hat["preds"], self._learner["ml_g"], "ml_g", smpls)
+        _check_finite_predictions(m_hat["preds"], self._learner["ml_m"], "ml_m", smpls)
+
         # set target for propensity score
         m_hat["targets"] = d
 
diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 230c2eb..309b08c 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -7,7 +7,14 @@ from sklearn.utils.multiclass import type_of_target
 from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import NonLinearScoreMixin
-from doubleml.utils._checks import _check_quantile, _check_score, _check_treatment, _check_trimming, _check_zero_one_treatment
+from doubleml.utils._checks import (
+    _check_finite_predictions,
+    _check_quantile,
+    _check_score,
+    _check_treatment,
+    _check_trimming,
+    _check_zero_one_treatment,
+)
 from doubleml.utils._estimation import (
     _cond_targets,
     _default_kde,
@@ -388,6 +395,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 m_z_hat_prelim = _dml_cv_predict(
                     ml_m_z_prelim, x_train_1, z_train_1, method="predict_proba", smpls=smpls_prelim
                 )["preds"]
+                _check_finite_predictions(m_z_hat_prelim, self._learner["ml_m_z"], "ml_m_z", smpls_prelim)
 
                 m_z_hat_prelim = _trimm(m_z_hat_prelim, self.trimming_rule, self.trimming_threshold)
                 if self._normalize_ipw:
@@ -400,6 +408,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 ml_m_d_z0_prelim = clone(fitted_models["ml_m_d_z0"][i_fold])
                 ml_m_d_z0_prelim.fit(x_z0_train_1, d_z0_train_1)
                 m_d_z0_hat_prelim = _predict_zero_one_propensity(ml_m_d_z0_prelim, x_train_1)
+                _check_finite_predictions(m_d_z0_hat_prelim, self._learner["ml_m_d_z0"], "ml_m_d_z0", smpls_prelim)
 
                 # propensity for d == 1 cond. on z == 1 (training set 1)
                 z1_train_1 = z_train_1 == 1
@@ -408,6 +417,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 ml_m_d_z1_prelim = clone(fitted_models["ml_m_d_z1"][i_fold])
                 ml_m_d_z1_prelim.fit(x_z1_train_1, d_z1_train_1)
                 m_d_z1_hat_prelim = _predict_zero_one_propensity(ml_m_d_z1_prelim, x_train_1)
+                _check_finite_predictions(m_d_z1_hat_prelim, self._learner["ml_m_d_z1"], "ml_m_d_z1", smpls_prelim)
 
                 # preliminary estimate of theta_2_aux
                 comp_prob_prelim = np.mean(
@@ -486,6 +496,12 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 fitted_models["ml_m_d_z1"][i_fold].fit(x_z1_train, d_z1_train)
                 m_d_z1_hat["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_m_d_z1"][i_fold], x_test)
 
+            _check_finite_predictions(m_z_hat["preds"], self._learner["ml_m_z"], "ml_m_z", smpls)
+            _check_finite_predictions(m_d_z0_hat["preds"], self._learner["ml_m_d_z0"], "ml_m_d_z0", smpls)
+            _check_finite_predictions(m_d_z1_hat["preds"], self._learner["ml_m_d_z1"], "ml_m_d_z1", smpls)
+            _check_finite_predictions(g_du_z0_hat["preds"], self._learner["ml_g_du_z0"], "ml_g_du_z0", smpls)
+            _check_finite_predictions(g_du_z1_hat["preds"], self._learner["ml_g_du_z1"], "ml_g_du_z1", smpls)
+
         # save targets and models
         m_z_hat["targets"] = z
 
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index ce669c7..491b7fb 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -8,6 +8,7 @@ from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import NonLinearScoreMixin
 from doubleml.utils._checks import (
     _check_contains_iv,
+    _check_finite_predictions,
     _check_quantile,
     _check_score,
     _check_treatment,
@@ -326,6 +327,7 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                     m_hat_prelim = _dml_cv_predict(
                         ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim
                     )["preds"]
+                    _check_finite_predictions(m_hat_prelim, self._learner["ml_m"], "ml_m", smpls_prelim)
                 else:
                     m_hat_prelim = m_hat["preds"][train_inds_1]
                 m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
@@ -362,6 +364,11 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                     fitted_models["ml_m"][i_fold].fit(x[train_inds, :], d[train_inds])
                     m_hat["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_m"][i_fold], x[test_inds, :])
 
+        if not g_external:
+            _check_finite_predictions(g_hat["preds"], self._learner["ml_g"], "ml_g", smpls)
+        if not m_external:
+            _check_finite_predictions(m_hat["preds"], self._learner["ml_m"], "ml_m", smpls)
+
         # set target for propensity score
         m_hat["targets"] = d
 
diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index a30f079..44ff1e4 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -327,6 +327,7 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 # fit propensity score for selection on first part of training set
                 fitted_models["ml_pi"][i_fold].fit(dx_train_1, s_train_1)
                 pi_hat_prelim["preds"] = _predict_zero_one_propensity(fitted_models["ml_pi"][i_fold], dx)
+                _check_finite_predictions(pi_hat_prelim["preds"], self._learner["ml_pi"], "ml_pi", smpls)
                 pi_hat_prelim["targets"] = s
 
                 # predictions for small pi in denominator
@@ -380,6 +381,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                     pi_hat["models"] = fitted_models["ml_pi"]
                     m_hat["models"] = fitted_models["ml_m"]
 
+            _check_finite_predictions(g_hat_d1["preds"], self._learner["ml_g"], "ml_g_d1", smpls)
+            _check_finite_predictions(g_hat_d0["preds"], self._learner["ml_g"], "ml_g_d0", smpls)
+            _check_finite_predictions(m_hat["preds"], self._learner["ml_m"], "ml_m", smpls)
+
         # only consider the outcomes of the selected units with the right treatment status
         g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=((d == 1) & (s == 1)))
         g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=((d == 0) & (s == 1)))
diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 3edf9ec..72f9bf9 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -10,7 +10,7 @@ from sklearn.utils.multiclass import type_of_target
 from doubleml import DoubleMLData
 from doubleml.double_ml import DoubleML
 from doubleml.rdd._utils import _is_rdrobust_available
-from doubleml.utils._checks import _check_resampling_specification, _check_supports_sample_weights
+from doubleml.utils._checks import _check_finite_predictions, _check_resampling_specification, _check_supports_sample_weights
 from doubleml.utils.resampling import DoubleMLResampling
 
 # validate optional rdrobust import
@@ -439,7 +439,9 @@ class RDFlex:
                 mu_left[test_index] = estimator.predict_proba(ZX_left[test_index])[:, 1]
                 mu_right[test_index] = estimator.predict_proba(ZX_right[test_index])[:, 1]
 
-        return (mu_left + mu_right) / 2
+        mu = (mu_left + mu_right) / 2
+        _check_finite_predictions(mu, self._learner[estimator_name], estimator_name, smpls)
+        return mu
 
     def _update_weights(self):
         rdd_res = self._fit_rdd()
-- 
2.43.0


From 5e3d651afd572892b338b3ac700efedb6e2c3ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 34/38] fix: RDFlex drops the results of an earlier fit when a
 new fit starts

---
 doubleml/rdd/rdd.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 72f9bf9..8bbe994 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -150,19 +150,10 @@ class RDFlex:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=obj_dml_data.n_obs, stratify=obj_dml_data.d
         ).split_samples()
 
-        self._M_Y, self._M_D, self._h, self._rdd_obj, self._all_coef, self._all_se, self._all_ci = self._initialize_arrays()
-
-        # Initialize all properties to None
-        self._coef = None
-        self._se = None
-        self._ci = None
-        self._N_h = None
-        self._final_h = None
-        self._all_cis = None
-        self._i_rep = None
+        self._reset_results()
 
     def __str__(self):
-        if np.any(~np.isnan(self._M_Y[:, 0])):
+        if self.coef is not None:
             method_names = ["Conventional", "Robust"]
             lines = [
                 "Method             Coef.     S.E.     t-stat       P>|t|           95% CI",
@@ -331,6 +322,9 @@ class RDFlex:
 
         self._check_iterations(n_iterations)
 
+        # a failing fit does not keep (parts of) the results of a previous fit
+        self._reset_results()
+
         # set variables for readablitity
         Y = self._dml_data.y
         D = self._dml_data.d
@@ -472,6 +466,18 @@ class RDFlex:
         weights = kernel(self._score, h)
         return weights
 
+    def _reset_results(self):
+        self._M_Y, self._M_D, self._h, self._rdd_obj, self._all_coef, self._all_se, self._all_ci = self._initialize_arrays()
+
+        # Initialize all properties to None
+        self._coef = None
+        self._se = None
+        self._ci = None
+        self._N_h = None
+        self._final_h = None
+        self._all_cis = None
+        self._i_rep = None
+
     def _initialize_arrays(self):
         M_Y = np.full(shape=(self._dml_data.n_obs, self.n_rep), fill_value=np.nan)
         M_D = np.full(shape=(self._dml_data.n_obs, self.n_rep), fill_value=np.nan)
-- 
2.43.0


From 06d08c96840cab996bb866aeb7b3ce3590deea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 35/38] fix: APOS and QTE check the arguments of fit before
 dropping the earlier results

---
 doubleml/irm/apos.py | 3 ++-
 doubleml/irm/qte.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 98b6502..072e98a 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -404,10 +404,11 @@ class DoubleMLAPOS:
         else:
             ext_pred_dict = None
 
-        self._framework = None
+        self._modellist[0]._check_fit(n_jobs_cv, store_predictions, None, store_models)
 
         # parallel estimation of the models
         parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs")
+        self._framework = None
         fitted_models = parallel(
             delayed(self._fit_model)(i_level, n_jobs_cv, store_predictions, store_models, ext_pred_dict)
             for i_level in range(self.n_treatment_levels)
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index 224f042..ab9e558 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -396,10 +396,11 @@ class DoubleMLQTE:
         if external_predictions is not None:
             raise NotImplementedError(f"External predictions not implemented for {self.__class__.__name__}.")
 
-        self._framework = None
+        self._modellist_0[0]._check_fit(n_jobs_cv, store_predictions, None, store_models)
 
         # parallel estimation of the quantiles
         parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs")
+        self._framework = None
         fitted_models = parallel(
             delayed(self._fit_quantile)(i_quant, n_jobs_cv, store_predictions, store_models)
             for i_quant in range(self.n_quantiles)
-- 
2.43.0


From a11d0fe85367a163f0f1c703c55f86fe512a7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 36/38] fix: refuse treatments other than 0 and 1 in
 DoubleMLSSM

---
 doubleml/irm/ssm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 44ff1e4..66686de 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -205,6 +205,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                              is None. To estimate treatment effect under nonignorable nonresponse, \
                              specify an instrument for the selection variable."
             )
+        if not np.all(np.isin(obj_dml_data.data[obj_dml_data.d_cols], [0, 1])):
+            raise ValueError(
+                "Incompatible data. To fit an SSM model with DML the treatment variables have to be binary with values 0 and 1."
+            )
         return
 
     def _nuisance_est(self, smpls, n_jobs_cv, external_predictions, return_models=False):
-- 
2.43.0


From dade32eb5ca0c0097fd16127e0d30c56024f415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 37/38] fix: covariates with missing values in nullable columns
 (pd.NA) are passed to the learners as np.nan

---
 doubleml/double_ml_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index cddf826..12a2221 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -319,7 +319,11 @@ class DoubleMLData(DoubleMLBaseData):
         To get an array of all covariates (independent of the currently set treatment variable)
         call ``obj.data[obj.x_cols].values``.
         """
-        return self._X.values
+        x = self._X.values
+        if x.dtype == object:
+            # missing values of nullable columns (pd.NA) are no valid numeric values
+            x = np.where(pd.isna(x), np.nan, x)
+        return x
 
     @property
     def y(self):
-- 
2.43.0


From a99a050984f63860aa279f5680a97bcab4c05a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:19 +0000
Subject: [PATCH 38/38] fix: the sensitivity summary of DoubleMLAPOS labels its
 rows by the treatment levels instead of their position

---
 doubleml/irm/apos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 072e98a..22ec18e 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -423,6 +423,8 @@ class DoubleMLAPOS:
 
         # aggregate all frameworks
         self._framework = concat(framework_list)
+        # the rows of the sensitivity summary are labelled by the treatment levels (instead of their position)
+        self._framework.treatment_names = [str(level) for level in self._treatment_levels]
 
         return self
 
-- 
2.43.0

