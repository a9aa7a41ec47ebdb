From adce630033c041ad8dfb68c76ef0e1b508502323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:52 +0000
Subject: [PATCH 01/43] fix: ignore infinite values and values of zero weight
 when binning a column

---
 cyclic_boosting/binning/ecdf_transformer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 723d05e..015b158 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -557,10 +557,11 @@ def calculate_cdf_from_weighted_data(z, w):
     if z.shape[0] != w.shape[0]:
         raise ValueError("input vectors must be of same shape")
 
-    n_nan = np.count_nonzero(np.isnan(z))
-    z_unique = np.unique(z[~np.isnan(z)])
+    finite = np.isfinite(z)
+    n_nan = np.count_nonzero(~finite)
+    z, w = z[finite], w[finite]
 
-    wsum = np.nansum(w[~np.isnan(z)])
+    wsum = np.nansum(w)
 
     # Accumulate the weights for the unique values.
     uniques = pd.DataFrame({"z": z, "w": w}).groupby(["z"]).agg({"w": "sum"}).reset_index()
@@ -568,4 +569,4 @@ def calculate_cdf_from_weighted_data(z, w):
 
     cdf = np.nancumsum(uniques["w"]) / wsum
 
-    return z_unique, cdf, wsum, n_nan
+    return uniques["z"].values, cdf, wsum, n_nan
-- 
2.43.0


From 159f4fb5dfec2feac0e3e0abe0f3b7326d2f21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:52 +0000
Subject: [PATCH 02/43] fix: do not create bins for magic integers that stand
 for missing values

---
 cyclic_boosting/binning/ecdf_transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 015b158..a5f4339 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -223,7 +223,11 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
             if feature_prop is None:
                 continue
 
-            bins_x, cdf_x, _wsum, _n_nan = calculate_cdf_from_weighted_data(x_col.astype(float), weights)
+            x_col = x_col.astype(float)
+            if flags.has_magic_missing_set(feature_prop):
+                x_col = np.where((x_col == -9) | (x_col == -999), np.nan, x_col)
+
+            bins_x, cdf_x, _wsum, _n_nan = calculate_cdf_from_weighted_data(x_col, weights)
 
             if len(bins_x) == 0 or len(cdf_x) == 0:
                 self.bins_and_cdfs_.append((col, self.epsilon, None))
-- 
2.43.0


From 65f5111965625f11dcd8e9a4bfc53bad59247f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:52 +0000
Subject: [PATCH 03/43] fix: do not overwrite the input matrix in
 ECdfTransformer.transform

---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index a5f4339..707b9d4 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -276,7 +276,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
         if check_frame_empty(X):
             return X
 
-        Xnp = np.asarray(X, dtype=float)
+        Xnp = np.array(X, dtype=float)
         Xt = Xnp
 
         for col, epsilon, bins_and_cdfs in self.bins_and_cdfs_:
-- 
2.43.0


From 6f38bc71aca551df59bcbd06f9a0c22e7cb316a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:29 +0000
Subject: [PATCH 04/43] fix: report importances and contributions for integer
 column names

---
 cyclic_boosting/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 98d11f1..f9f6a0d 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -982,7 +982,7 @@ class CyclicBoostingBase(
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
             norm_feature_importances = {
-                "_".join(feature.feature_id.feature_group): normalized_values[i]
+                "_".join(map(str, feature.feature_id.feature_group)): normalized_values[i]
                 for i, feature in enumerate(self.feature_importances.keys())
             }
             return norm_feature_importances
@@ -1010,7 +1010,7 @@ class CyclicBoostingBase(
         contribution = {}
         for feature in self.features:
             ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
-            fg = " ".join(feature.feature_group)
+            fg = " ".join(map(str, feature.feature_group))
             contribution[fg + ft] = self.unlink_func(self._pred_feature(X, feature, is_fit=False))
         return contribution
 
-- 
2.43.0


From fe952a19396f6fd9889c78ca7e7723a2e0ea34e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:29 +0000
Subject: [PATCH 05/43] fix: accept the factor change in
 BaseObserver.observe_iterations

---
 cyclic_boosting/observers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 8328b7b..b3bec9e 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -16,7 +16,7 @@ class BaseObserver(object):
     order to make predictions.
     """
 
-    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state):
+    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None):
         """
         Called after each iteration of the algorithm.
 
@@ -42,6 +42,9 @@ class BaseObserver(object):
             :meth:`cyclic_boosting.base.CyclicBoostingBase.get_state` for
             information on what will be passed here
 
+        delta : float
+            mean absolute change of the factors in the previous iteration
+
         """
 
     def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
-- 
2.43.0


From 4a4696159bcad91112788601aa14f2ff7b0f253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:29 +0000
Subject: [PATCH 06/43] fix: roll back a diverging hierarchical training before
 all features are fitted

---
 cyclic_boosting/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index f9f6a0d..a365b8e 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -685,6 +685,7 @@ class CyclicBoostingBase(
             if self.iteration_ == 0:
                 feature.bind_data(X, weights)
                 feature.factors_link = np.ones(feature.n_bins) * self.neutral_factor_link
+                feature.fitted_aggregated = feature.factors_link.copy()
                 if prefit_data is not None:
                     prefit_data[i] = self.precalc_parameters(feature, y, pred)
             else:
-- 
2.43.0


From 7127850632982fcee9aab1de8d56db11c030b4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:29 +0000
Subject: [PATCH 07/43] fix: do not subtract a feature's contribution again
 after a diverging iteration was rolled back

---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index a365b8e..3c23987 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -649,7 +649,7 @@ class CyclicBoostingBase(
     def feature_iteration(
         self, X: np.ndarray, y: np.ndarray, feature: Feature, pred: CBLinkPredictionsFactors, prefit_data
     ):
-        if not self.aggregate:
+        if not self.aggregate and not self.is_diverging:
             feature_predictions = self._pred_feature(X, feature, True)
             pred.remove_predictions(feature_predictions, feature)
 
-- 
2.43.0


From b279da30589b253f609db3006905365cd9a52c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:29 +0000
Subject: [PATCH 08/43] fix: keep the missing bin neutral when damping a
 feature with missing_not_learned

---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 3c23987..597a2f2 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -668,7 +668,7 @@ class CyclicBoostingBase(
 
         feature.factors_link = self.calibrate_to_weighted_mean(feature)
 
-        self.visit_factors(feature, factors_link, X, y, pred)
+        self.visit_factors(feature, feature.unfitted_factors_link, X, y, pred)
         feature_predictions = self._pred_feature(X, feature, is_fit=True)
         pred.update_predictions(feature_predictions, feature)
 
-- 
2.43.0


From 7db7772dfbd5f5210956cc4b7fbf9c6d13ceb0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:09 +0000
Subject: [PATCH 09/43] fix: accept the quantile in
 BaseObserver.observe_iterations

---
 cyclic_boosting/observers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index b3bec9e..1eabaed 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -16,7 +16,7 @@ class BaseObserver(object):
     order to make predictions.
     """
 
-    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None):
+    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
         """
         Called after each iteration of the algorithm.
 
@@ -45,6 +45,9 @@ class BaseObserver(object):
         delta : float
             mean absolute change of the factors in the previous iteration
 
+        quantile : float
+            quantile to be predicted, only passed by quantile regressions
+
         """
 
     def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
-- 
2.43.0


From eed129c92dcd5d95a0a796b7b8ebb7641c183e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:06 +0000
Subject: [PATCH 10/43] fix: forget the importances of earlier fits when an
 estimator is fitted again

The importances were added to those of the previous fit, so after a refit
they were normalised by the sum over both fits.
---
 cyclic_boosting/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 597a2f2..75ed228 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -969,6 +969,7 @@ class CyclicBoostingBase(
             return [(feature.feature_id, feature.smoother) for feature in self.features]
 
     def set_feature_importances(self) -> None:
+        self.feature_importances = {}
         for feature in self.features:
             feature.prepare_feature()
             feature.set_feature_bin_deviations_from_neutral(self.neutral_factor_link)
-- 
2.43.0


From e34f1b7317f8679f0b8fd25268d8cc22f7668cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:42 +0000
Subject: [PATCH 11/43] fix: honour the nan_representation argument of the
 section smoother

---
 cyclic_boosting/smoothing/meta_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/meta_smoother.py b/cyclic_boosting/smoothing/meta_smoother.py
index b5543f9..a81c36a 100644
--- a/cyclic_boosting/smoothing/meta_smoother.py
+++ b/cyclic_boosting/smoothing/meta_smoother.py
@@ -263,7 +263,7 @@ class SectionSmoother(AbstractBinSmoother):
         self.split_point = split_point
         self.smoother_lower = smoother_lower
         self.smoother_upper = smoother_upper
-        self.nan_representation = np.nan
+        self.nan_representation = nan_representation
         self.epsilon = epsilon
         self._reset_smoother_status()
 
-- 
2.43.0


From 938c479d417cbe1cdec902662123b2d8fff8a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:42 +0000
Subject: [PATCH 12/43] fix: do not number rows as the first bin when all of
 them lie outside the bins

---
 cyclic_boosting/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index d82e56e..f81d0e7 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -240,10 +240,7 @@ def multidim_binnos_to_lexicographic_binnos(binnos, n_bins=None, binsteps=None):
     is_valid = np.isfinite(binnos).all(axis=1)
     is_valid[is_valid] &= ((binnos[is_valid] >= 0) & (binnos[is_valid] < n_bins[None, :])).all(axis=1)
 
-    if not np.any(is_valid):
-        result = np.repeat(0, len(binnos))
-    else:
-        result = np.repeat(np.product(n_bins), len(binnos))
+    result = np.repeat(np.product(n_bins), len(binnos))
 
     result[is_valid] = np.dot(np.floor(binnos[is_valid]), binsteps[1:])
 
-- 
2.43.0


From cc9fdfbd78c82836ea497292b69c807d45e4217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:42 +0000
Subject: [PATCH 13/43] fix: keep the value of a bin whose neighbours have the
 same value

---
 cyclic_boosting/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index f81d0e7..85b64f8 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -880,11 +880,12 @@ def regularize_to_error_weighted_mean_neighbors(
     sum_wx = np.convolve(wx, window_arr, "same")
     x_mean = np.convolve(wx * x, window_arr, "same") / sum_wx
 
-    wx_incl = np.ones(len(x))
+    # variance instead of its inverse, as it vanishes if all values in the window are the same
+    variance = np.ones(len(x))
     for i in range(len(x)):
-        wx_incl[i] = (sum_wx / np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same"))[i]
+        variance[i] = (np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same") / sum_wx)[i]
 
-    res = (wx * x + wx_incl * x_mean) / (wx + wx_incl)
+    res = (wx * x * variance + x_mean) / (wx * variance + 1.0)
     return res
 
 
-- 
2.43.0


From 3c213d203af0c2196bac3df46353ef0064e99eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:01 +0000
Subject: [PATCH 14/43] fix: name the magic missing and direction flags instead
 of raising an error

---
 cyclic_boosting/flags.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/flags.py b/cyclic_boosting/flags.py
index 2d123a1..576d9d3 100644
--- a/cyclic_boosting/flags.py
+++ b/cyclic_boosting/flags.py
@@ -47,6 +47,9 @@ _FLAG_LIST = [
     "CORR_TO_WIDTH",
     "IS_LINEAR",
     "IS_SEASONAL",
+    "HAS_MAGIC_INT_MISSING",
+    "INCREASING",
+    "DECREASING",
 ]
 
 
-- 
2.43.0


From c288ac2c1e845b4b09e9b9fc7a1577017b4f333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:25 +0000
Subject: [PATCH 15/43] fix: do not overwrite the bin numbers passed to the
 polynomial smoother

---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index a050b7d..b03960b 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -257,7 +257,7 @@ class OrthogonalPolynomialSmoother(AbstractBinSmoother):
         assert X.ndim == 2
         if not hasattr(self, "pp_"):
             raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
-        x = np.ascontiguousarray(X[:, 0], dtype=np.float64)
+        x = np.array(X[:, 0], dtype=np.float64)
         x[x < self.minimal_x] = self.minimal_x
         x[x > self.maximal_x] = self.maximal_x
         y = cy_apply_orthogonal_poly_fit_equidistant(x, self.pp_, self.n_degrees_)
-- 
2.43.0


From afe1abb6bc1f26af06507368bc83720a36af9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:27 +0000
Subject: [PATCH 16/43] fix: reject empty data and targets of another length
 than the data

---
 cyclic_boosting/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 75ed228..d3bcdbd 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -945,9 +945,11 @@ class CyclicBoostingBase(
             raise ValueError("fit must be called first.")
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
-        """Check that input arrays are not empty"""
-        if len(X) == 0 | len(y) == 0:
+        """Check that input arrays are not empty and of the same length"""
+        if len(X) == 0 or len(y) == 0:
             raise ValueError("Estimator should be applied on non-empty data")
+        if len(X) != len(y):
+            raise ValueError("X and y have different lengths: {0} and {1}".format(len(X), len(y)))
 
     def _check_y(self, y: np.ndarray) -> None:
         """Check that y has the correct values. Has to be
-- 
2.43.0


From c2f5e8cb4f9af8e39069dafe25b82a18ca6abdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:27 +0000
Subject: [PATCH 17/43] fix: reject non-finite targets in CBGBSRegressor

---
 cyclic_boosting/GBSregression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/GBSregression.py b/cyclic_boosting/GBSregression.py
index 01c1596..ce0aebd 100644
--- a/cyclic_boosting/GBSregression.py
+++ b/cyclic_boosting/GBSregression.py
@@ -91,7 +91,9 @@ class CBGBSRegressor(RegressorMixin, CyclicBoostingBase, IdentityLinkMixin):
         return summand, np.sqrt(variance_summand)
 
     def _check_y(self, y: np.ndarray):
-        pass
+        """Check that y has only finite values."""
+        if not np.isfinite(y).all():
+            raise ValueError("The target y must be real value and not NAN.")
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         if self.weights is None:
-- 
2.43.0


From 99006b7c1a4e18ea1457dd89e57880c1ad521d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:27 +0000
Subject: [PATCH 18/43] fix: determine default feature groups from the data of
 each fit

---
 cyclic_boosting/base.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index d3bcdbd..a7f71ae 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -378,11 +378,10 @@ class CyclicBoostingBase(
            are we called in fit() ?
         """
 
-    def _init_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> None:
+    def _get_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> List:
         """
-        Initializes the ``feature_groups`` to be a list of all
-        columns available in ``X`` except the ``prior_prediction_column`` and
-        the ``weight_column``.
+        Returns a list of all columns available in ``X`` except the
+        ``prior_prediction_column`` and the ``weight_column``.
         """
         exclude_columns = []
         if self.prior_prediction_column is not None:
@@ -390,7 +389,7 @@ class CyclicBoostingBase(
         if self.weight_column is not None:
             exclude_columns.append(self.weight_column)
 
-        self.feature_groups = get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
+        return get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """
@@ -436,12 +435,15 @@ class CyclicBoostingBase(
         if self.weights is None:
             raise RuntimeError("The weights have to be initialized.")
 
-    def _init_features(self) -> None:
+    def _init_features(self, X: Optional[Union[pd.DataFrame, np.ndarray]] = None) -> None:
         """
         Initializes the ``features`` and binds the data belonging to a feature
-        to it.
+        to it. If no ``feature_groups`` are given, the columns of ``X`` are used.
         """
-        self.features = create_features(self.feature_groups, self.feature_properties, self.smoother_choice)
+        feature_groups = self.feature_groups
+        if feature_groups is None and X is not None:
+            feature_groups = self._get_default_feature_groups(X)
+        self.features = create_features(feature_groups, self.feature_properties, self.smoother_choice)
 
     def _get_prior_predictions(self, X: Union[pd.DataFrame, np.ndarray]) -> np.ndarray:
         if self.prior_prediction_column is None:
@@ -704,11 +706,8 @@ class CyclicBoostingBase(
         self._init_weight_column(X)
         self._init_external_column(X, True)
 
-        if self.feature_groups is None:
-            self._init_default_feature_groups(X)
-
         self._check_weights()
-        self._init_features()
+        self._init_features(X)
         self._init_global_scale(X, y)
 
     def _fit_main(self, X: np.ndarray, y: np.ndarray, pred: CBLinkPredictionsFactors) -> np.ndarray:
-- 
2.43.0


From 133abe9b8dde0cc83d5068dbd1f7e1e958080f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:27 +0000
Subject: [PATCH 19/43] fix: use hierarchical feature groups changed by
 set_params

---
 cyclic_boosting/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index a7f71ae..473a1ec 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -294,11 +294,7 @@ class CyclicBoostingBase(
         self.feature_properties = feature_properties
 
         self.features = None
-        self.hierarchical_features = []
-        if self.hierarchical_feature_groups is not None:
-            for fg in self.hierarchical_feature_groups:
-                hierarchical_feature = create_feature_id(fg)
-                self.hierarchical_features.append(hierarchical_feature.feature_group)
+        self._init_hierarchical_features()
         self.training_iterations_hierarchical_features = training_iterations_hierarchical_features
         self.feature_importances = {}
         self.aggregate = aggregate
@@ -435,6 +431,13 @@ class CyclicBoostingBase(
         if self.weights is None:
             raise RuntimeError("The weights have to be initialized.")
 
+    def _init_hierarchical_features(self) -> None:
+        self.hierarchical_features = []
+        if self.hierarchical_feature_groups is not None:
+            for fg in self.hierarchical_feature_groups:
+                hierarchical_feature = create_feature_id(fg)
+                self.hierarchical_features.append(hierarchical_feature.feature_group)
+
     def _init_features(self, X: Optional[Union[pd.DataFrame, np.ndarray]] = None) -> None:
         """
         Initializes the ``features`` and binds the data belonging to a feature
@@ -707,6 +710,7 @@ class CyclicBoostingBase(
         self._init_external_column(X, True)
 
         self._check_weights()
+        self._init_hierarchical_features()
         self._init_features(X)
         self._init_global_scale(X, y)
 
-- 
2.43.0


From 58b863ce94af42a81d25089d45297a9561a24834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:27 +0000
Subject: [PATCH 20/43] fix: use feature groups of CBExponential changed by
 set_params

---
 cyclic_boosting/price.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 56f3ea0..849a5a2 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -415,6 +415,9 @@ class CBExponential(CBNBinomRegressor):
         return pred
 
     def fit(self, X, y=None):
+        self.feature_groups = combine_lists_of_feature_groups(
+            self.standard_feature_groups, self.external_feature_groups
+        )
         self._init_fit(X, y)
         pred = CBLinkPredictions(
             self._get_prior_predictions(X),
-- 
2.43.0


From efb1ee60af8e0a5269c99db4a8f8a918e59a0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:27 +0000
Subject: [PATCH 21/43] fix: make fit_transform of CBExponential and CBNBinomC
 work

---
 cyclic_boosting/nbinom.py | 6 +++---
 cyclic_boosting/price.py  | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 7b7e798..bddf8bb 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -133,11 +133,11 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         # TODO: use weights
         return loss_nbinom_c(y.astype(np.float64), self.mu, c, self.gamma)
 
-    def fit(self, X, y=None):
+    def _fit_predict(self, X, y=None):
         self.mu = X[self.mean_prediction_column].values
-        _ = self._fit_predict(X, y)
+        prediction = CyclicBoostingBase._fit_predict(self, X, y)
         del self.mu
-        return self
+        return prediction
 
     def _get_prior_predictions(self, X):
         if self.prior_prediction_column is None:
diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 849a5a2..0d22034 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -414,7 +414,8 @@ class CBExponential(CBNBinomRegressor):
             pred.update_predictions(feature_predictions, feature, influence_categories)
         return pred
 
-    def fit(self, X, y=None):
+    def _fit_predict(self, X, y=None):
+        y = np.asarray(y)
         self.feature_groups = combine_lists_of_feature_groups(
             self.standard_feature_groups, self.external_feature_groups
         )
@@ -424,11 +425,11 @@ class CBExponential(CBNBinomRegressor):
             self._get_prior_exponent(X),
             self.external_col,
         )
-        _ = self._fit_main(X, y, pred)
+        prediction = self._fit_main(X, y, pred)
         del self.external_col
         del self.weights_external
 
-        return self
+        return prediction
 
 
 def gamma_momemt_matching(factors, variance_factors, link_func):
-- 
2.43.0


From 7a814f0b5a7cdf50461abd537943ab82779f9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:27 +0000
Subject: [PATCH 22/43] fix: do not overwrite prior predictions passed to
 CBNBinomC

---
 cyclic_boosting/nbinom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index bddf8bb..8f7d713 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -144,7 +144,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
         else:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-            np.clip(prior_pred, 0, 1, prior_pred)
+            prior_pred = np.clip(prior_pred, 0, 1)
             prior_prediction_link = self.link_func(prior_pred)
             finite = np.isfinite(prior_prediction_link)
             prior_prediction_link[~finite] = self.neutral_factor_link
-- 
2.43.0


From 9ade46b2a985ea88c0a6a18d77e5d2145c5cd0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:27 +0000
Subject: [PATCH 23/43] fix: hand a and c to CBExponential in the pipeline

---
 cyclic_boosting/pipelines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/pipelines.py b/cyclic_boosting/pipelines.py
index f7689de..c27fe7f 100644
--- a/cyclic_boosting/pipelines.py
+++ b/cyclic_boosting/pipelines.py
@@ -101,6 +101,8 @@ def pipeline_CB(
             learn_rate=learn_rate,
             var_prior_exponent=var_prior_exponent,
             prior_exponent_colname=prior_exponent_colname,
+            a=a,
+            c=c,
         )
     elif estimator == CBNBinomC:
         estimatorCB = estimator(
-- 
2.43.0


From 9486794ff9d87f7ac701f72b237dcf0e77df26ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:17 +0000
Subject: [PATCH 24/43] fix: give bins without weight a finite variance in
 CBLocationRegressor

---
 cyclic_boosting/location.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 15e2ad8..181f193 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -115,7 +115,8 @@ def precalc_variance_y(feature, y, weights, n_prior=1):
 
     sum_y = np.bincount(lex_binnumbers, weights=weights * y, minlength=minlength)
     sum_weights = np.bincount(lex_binnumbers, weights=weights, minlength=minlength)
-    mean_y = sum_y[lex_binnumbers] / sum_weights[lex_binnumbers]
+    # bins holding only rows of weight zero have no mean
+    mean_y = (sum_y / np.where(sum_weights > 0, sum_weights, 1))[lex_binnumbers]
     weighted_squared_residual_sum = np.bincount(
         lex_binnumbers, weights=weights * (y - mean_y) ** 2, minlength=minlength
     )
-- 
2.43.0


From 2f8e2df01ede657b57a20faffa5a563ec3722b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:30 +0000
Subject: [PATCH 25/43] fix: make fit_transform of CBClassifier and
 CBLocPoissonRegressor agree with predict

---
 cyclic_boosting/classification.py | 4 ++++
 cyclic_boosting/location.py       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cyclic_boosting/classification.py b/cyclic_boosting/classification.py
index dcf1273..c3c9955 100644
--- a/cyclic_boosting/classification.py
+++ b/cyclic_boosting/classification.py
@@ -145,5 +145,9 @@ class CBClassifier(sklearn.base.ClassifierMixin, CyclicBoostingBase, LogitLinkMi
         probability_signal = super(CBClassifier, self).predict(X, y=y)
         return np.asarray(probability_signal > 0.5, dtype=np.float64)
 
+    def _fit_predict(self, X: Union[pd.DataFrame, np.ndarray], y: Optional[np.ndarray] = None) -> np.ndarray:
+        probability_signal = super(CBClassifier, self)._fit_predict(X, y)
+        return np.asarray(probability_signal > 0.5, dtype=np.float64)
+
 
 __all__ = ["CBClassifier", "boost_weights", "get_beta_priors"]
diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 181f193..fd328d0 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -78,6 +78,10 @@ class CBLocPoissonRegressor(CyclicBoostingBase, sklearn.base.RegressorMixin, Ide
         result = super(CBLocPoissonRegressor, self).predict(X, y=y)
         return np.where(result > 0, result, 0)
 
+    def _fit_predict(self, X, y=None):
+        result = super(CBLocPoissonRegressor, self)._fit_predict(X, y)
+        return np.where(result > 0, result, 0)
+
 
 def precalc_variance_y(feature, y, weights, n_prior=1):
     """Calculate expected value of posterior of variance parameter for a gaussian
-- 
2.43.0


From d88c6057a9d8088d1db615f116854a388cc560b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:08 +0000
Subject: [PATCH 26/43] fix: interpolate ties of weighted quantiles by weight
 instead of row number

---
 cyclic_boosting/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index 85b64f8..7fda19e 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1049,11 +1049,11 @@ def continuous_quantile_from_discrete_pdf(y, quantile, weights):
     quantile_index = weights.sum() * quantile
     quantile_y = sorted_y[cumsum >= quantile_index][0]
 
-    all_quantile_y = np.where(sorted_y == quantile_y)[0]
-    index_low = all_quantile_y[0]
-    index_high = all_quantile_y[-1]
-    if index_high > index_low:
-        quantile_y += (int(quantile_index) - index_low) / (index_high - index_low)
+    # ties are spread over the interval up to the next integer by their weight
+    weight_below = weights[y < quantile_y].sum()
+    weight_ties = weights[y == quantile_y].sum()
+    if weight_ties > 1:
+        quantile_y += min(max((int(quantile_index) - weight_below) / (weight_ties - 1), 0), 1)
 
     return quantile_y
 
-- 
2.43.0


From af028bcb8b4d19585b001999ce5c423033480609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:28 +0000
Subject: [PATCH 27/43] fix: keep the base probability of classifiers below one

---
 cyclic_boosting/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 473a1ec..9199c9e 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -400,7 +400,10 @@ class CyclicBoostingBase(
             raise RuntimeError("The weights have to be initialized.")
 
         minimal_prediction = 0.001
-        self.global_scale_link_ = self.link_func(np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction)
+        mean_y = np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction
+        if isinstance(self, link.LogitLinkMixin):
+            mean_y = min(mean_y, 1 - minimal_prediction)
+        self.global_scale_link_ = self.link_func(mean_y)
 
         if self.prior_prediction_column is not None:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-- 
2.43.0


From 186269650aa41945f9af40a6bc57199065ebfc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:59:58 +0000
Subject: [PATCH 28/43] fix: ignore bins of zero uncertainty in orthogonal
 polynomial fits

A bin whose rows are all predicted exactly has zero uncertainty in
background subtraction models.  For continuous features this ended the
training with a division by zero.  Give such bins no weight, as the
smoothing by neighbouring bins does.
---
 cyclic_boosting/smoothing/orthofit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/orthofit.py b/cyclic_boosting/smoothing/orthofit.py
index a08819c..bd9af46 100644
--- a/cyclic_boosting/smoothing/orthofit.py
+++ b/cyclic_boosting/smoothing/orthofit.py
@@ -13,7 +13,10 @@ def cy_orthogonal_poly_fit_equidistant(binnos: nb.float64[:], y_values: nb.float
     parameters = np.empty((N_PARAMETERS, N_COEFFICIENTS))
 
     for j in range(y_errors.shape[0]):
-        weights[j] = 1.0 / (y_errors[j] * y_errors[j])
+        if y_errors[j] > 0:
+            weights[j] = 1.0 / (y_errors[j] * y_errors[j])
+        else:
+            weights[j] = 0.0
 
     n_degrees = fit_orthogonal_poly_(binnos, y_values, weights, parameters)
 
-- 
2.43.0


From 4eb1b385a599de856efac41cf02e91fc4c179339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:05:41 +0000
Subject: [PATCH 29/43] fix: leave bins without observations neutral in
 CBNBinomC

All candidate steps have the same loss in a bin without rows, and the
search then took the first one, the largest step downwards.  Missing
values that did not occur in training were predicted with a dispersion
near zero, and interior empty bins disturbed their smoothed neighbours.
---
 cyclic_boosting/nbinom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 8f7d713..052b849 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -126,6 +126,8 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         )
 
         bincounts = np.bincount(binnumbers, minlength=minlength)
+        # without any observation, all steps are equally likely
+        c_link_estimate[bincounts == 0] = self.neutral_factor_link
         bincounts[bincounts < 1] = 1.0
         return c_link_estimate, 1.0 / np.sqrt(bincounts)
 
-- 
2.43.0


From ddb1ce3539fa620074511502d2a011705375f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:06 +0000
Subject: [PATCH 30/43] fix: support symmetric triplets in J_QPD_S and J_QPD_B

Triplets without skewness, such as 1, 2, 4 with lower bound 0, gave a
vanishing delta and thereby missing values in ppf and cdf.
---
 cyclic_boosting/quantile_matching.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 5c00597..789b6c9 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -9,6 +9,13 @@ from sklearn.base import BaseEstimator
 from typing import Optional, Union, Tuple
 
 
+def is_symmetric(L: np.ndarray, B: np.ndarray, H: np.ndarray) -> np.ndarray:
+    """
+    Check for transformed quantiles without skewness, apart from rounding.
+    """
+    return np.abs(L + H - 2 * B) <= 1e-9 * (H - L)
+
+
 class J_QPD_S:
     """
     Implementation of the semi-bounded mode of Johnson Quantile-Parameterized
@@ -66,8 +73,9 @@ class J_QPD_S:
         self.n = np.where(self.L + self.H - 2 * self.B > 0, 1, -1)
         self.theta = np.where(self.L + self.H - 2 * self.B > 0, qv_low - l, qv_high - l)
 
-        self.n = np.where(self.L + self.H - 2 * self.B == 0, 0, self.n)
-        self.theta = np.where(self.L + self.H - 2 * self.B == 0, qv_median - l, self.theta)
+        symmetric = is_symmetric(self.L, self.B, self.H)
+        self.n = np.where(symmetric, 0, self.n)
+        self.theta = np.where(symmetric, qv_median - l, self.theta)
 
         self.delta = (
             1.0
@@ -79,6 +87,8 @@ class J_QPD_S:
                 )
             )
         )
+        # without skewness, only the product of delta and kappa matters
+        self.delta = np.where(symmetric, 1.0, self.delta)
 
         self.kappa = (
             1.0
@@ -226,8 +236,9 @@ class J_QPD_B:
         self.n = np.where(self.L + self.H - 2 * self.B > 0, 1, -1)
         self.xi = np.where(self.L + self.H - 2 * self.B > 0, self.L, self.H)
 
-        self.n = np.where(self.L + self.H - 2 * self.B == 0, 0, self.n)
-        self.xi = np.where(self.L + self.H - 2 * self.B == 0, self.B, self.xi)
+        symmetric = is_symmetric(self.L, self.B, self.H)
+        self.n = np.where(symmetric, 0, self.n)
+        self.xi = np.where(symmetric, self.B, self.xi)
 
         self.delta = (
             1.0
@@ -237,6 +248,8 @@ class J_QPD_B:
                 / (2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B))
             )
         )
+        # limit of vanishing skewness, with sinh(delta * z) = delta * z
+        self.delta = np.where(symmetric, 1e-8, self.delta)
 
         self.kappa = (self.H - self.L) / np.sinh(2 * self.delta * self.c)
 
-- 
2.43.0


From 3970252b2ef5c9a61fef5c9f154e5ceb54fc8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:06 +0000
Subject: [PATCH 31/43] fix: reproduce symmetric triplets in extended J-QPDs

For triplets without skewness the quantile function missed the outer
quantiles by a factor of sinh(1), or was missing when the skewness
vanished up to rounding only.
---
 cyclic_boosting/quantile_matching.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 789b6c9..7bd14ad 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -374,10 +374,12 @@ class BaseDist:
 def unconstrained_calc(L: float, B: float, H: float) -> Tuple[float, float, float, float]:
     gamma = -np.sign(L + H - 2 * B)
 
-    if gamma == 0:
+    if is_symmetric(L, B, H):
+        # limit of vanishing skewness, with sinh(z / delta) = z / delta
+        gamma = 0
         xi = B
-        kappa = H - B
-        delta = 1
+        delta = 1e8
+        kappa = (H - L) / sinh(2.0 / delta)
     else:
         if gamma < 0:
             xi = L
-- 
2.43.0


From 91f64e73d758b6a33218f0b743404b97c3ba1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:06 +0000
Subject: [PATCH 32/43] fix: train QPD_RegressorChain in bounded mode

The upper bounds of the rows above the median were not restricted to
these rows, and fit raised an error.
---
 cyclic_boosting/quantile_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 7bd14ad..3156630 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -816,7 +816,7 @@ class QPD_RegressorChain(BaseEstimator):
         if self.bound == "S":
             y_trans = transform_from_semibound_lower(y_trans, 0)
         elif self.bound == "B":
-            y_trans = transform_from_bounds(y_trans, 0, (self.u - pred_median) / (pred_median - pred_lowq))
+            y_trans = transform_from_bounds(y_trans, 0, ((self.u - pred_median) / (pred_median - pred_lowq))[mask])
         self.est_highq.fit(X[mask], y_trans)
 
         return self
-- 
2.43.0


From d799865ec2f16de0e90e63118b0adbb2df2b71b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:18 +0000
Subject: [PATCH 33/43] fix: select the rows below non-positive medians in
 QPD_RegressorChain

Dividing by the median turns the comparison around for negative medians,
which a negative lower bound allows, and fails for medians of zero.
---
 cyclic_boosting/quantile_matching.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 3156630..5a30b6e 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -801,10 +801,8 @@ class QPD_RegressorChain(BaseEstimator):
             pred_median = back_transform_in_bounds(z, self.l, self.u)
 
         # lower quantile model
-        y_trans = y / pred_median
-        mask = y_trans < 1
-        y_trans = y_trans[mask]
-        y_trans = transform_from_bounds(y_trans, self.l / pred_median[mask], 1)
+        mask = y < pred_median
+        y_trans = transform_from_bounds(y[mask], self.l, pred_median[mask])
         self.est_lowq.fit(X[mask], y_trans)
         z = self.est_lowq.predict(X)
         pred_lowq = back_transform_in_bounds(z, self.l, pred_median)
-- 
2.43.0


From 01dc66bb984865fc0f932581cb7e3c032e8bf3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:25 +0000
Subject: [PATCH 34/43] fix: bound factors of generic losses from below

The minimiser may end at a negative factor, whose logarithm is missing.
---
 cyclic_boosting/generic_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index c8963fa..cfaebc6 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -92,7 +92,7 @@ class CBGenericLoss(CyclicBoostingBase):
         neutral_factor = self.unlink_func(np.array(self.neutral_factor_link))
         if neutral_factor != 0:
             epsilon = 1e-5
-            parameters = np.where(np.abs(parameters) < epsilon, epsilon, parameters)
+            parameters = np.where(parameters < epsilon, epsilon, parameters)
             parameters = np.log(parameters)
 
         return parameters, uncertainties
-- 
2.43.0


From 66915281ae8f204c2e3e98f154671310bcb2b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:19:36 +0000
Subject: [PATCH 35/43] fix: keep parameters of location models finite when no
 regular bin has weight

---
 cyclic_boosting/location.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index fd328d0..1b9e5cc 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -222,6 +222,9 @@ class CBLocationRegressor(sklearn.base.RegressorMixin, CyclicBoostingBase, Ident
 
     def calibrate_to_weighted_mean(self, feature):
         if feature.missing_not_learned:
+            # bins holding only rows of weight zero have no mean
+            if feature.bin_weightsums[:-1].sum() == 0:
+                return feature.factors_link
             calibrated_factors_link = (
                 feature.factors_link[:-1]
                 - (feature.factors_link[:-1] * feature.bin_weightsums[:-1]).sum() / feature.bin_weightsums[:-1].sum()
-- 
2.43.0


From 68e1b3cd53ef700da3de65f0d5fcf5b5cc1842c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:07 +0000
Subject: [PATCH 36/43] fix: keep all bins of sparse features in the plot
 statistics of quantile regressors

---
 cyclic_boosting/generic_loss.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index cfaebc6..4ec5902 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -270,7 +270,8 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
             feature.bind_data(X, weights)
 
             sum_w, _, sum_pw = (
-                np.bincount(feature.lex_binned_data, weights=w) for w in [weights, weights * y, weights * prediction]
+                np.bincount(feature.lex_binned_data, weights=w, minlength=feature.n_bins)
+                for w in [weights, weights * y, weights * prediction]
             )
 
             df = pd.DataFrame({"y": y, "weights": weights, "binnumbers": feature.lex_binned_data})
@@ -278,29 +279,20 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
             def df_continuous_quantile_from_discrete_pdf(df, quantile):
                 return continuous_quantile_from_discrete_pdf(df["y"], quantile, df["weights"])
 
-            mean_target_binned = np.asarray(
-                df.groupby("binnumbers")[["y", "weights"]].apply(
-                    df_continuous_quantile_from_discrete_pdf, quantile=self.quantile
-                )
+            target_quantiles = df.groupby("binnumbers")[["y", "weights"]].apply(
+                df_continuous_quantile_from_discrete_pdf, quantile=self.quantile
             )
 
             mean_prediction_binned = sum_pw / sum_w
             mean_prediction_binned = np.where(np.isfinite(mean_prediction_binned), mean_prediction_binned, 1.0)
 
             # keep potential empty bins in multi-dimensional features
-            all_bins = range(max(feature.lex_binned_data) + 1)
-            empty_bins = list(set(np.unique(feature.lex_binned_data)) ^ set(all_bins))
-            for i in empty_bins:
-                mean_target_binned = np.insert(mean_target_binned, i, 1.0)
+            mean_target_binned = np.ones(feature.n_bins)
+            mean_target_binned[target_quantiles.index] = target_quantiles
 
             mean_y_finite = continuous_quantile_from_discrete_pdf(y, self.quantile, weights)
             mean_prediction_finite = np.sum(sum_pw) / np.sum(sum_w)
 
-            if len(mean_target_binned) + 1 == feature.n_bins:
-                mean_target_binned = np.append(mean_target_binned, 1.0)
-            if len(mean_prediction_binned) + 1 == feature.n_bins:
-                mean_prediction_binned = np.append(mean_prediction_binned, 1.0)
-
             if isinstance(self, IdentityLinkMixin):
                 feature.mean_dev = mean_prediction_binned - mean_target_binned
                 feature.y = mean_target_binned - mean_y_finite
-- 
2.43.0


From 39a46bc81748e23bfda82b92889a1ea85c2615a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:14 +0000
Subject: [PATCH 37/43] fix: forget earlier trainings when a plotting observer
 is used again

---
 cyclic_boosting/observers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 1eabaed..49ffd0a 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -148,6 +148,12 @@ class PlottingObserver(BaseObserver):
         """
         features = estimator_state["features"]
 
+        if iteration == 0:
+            # a new training, forget what was observed in earlier ones
+            self._fitted = False
+            self.loss = list()
+            self.factor_change = list()
+
         if (iteration <= self.iteration and iteration != -1) or self.iteration == -1:
             self.loss.append(estimator_state["insample_loss"])
             if iteration != 0:
-- 
2.43.0


From d417386d0579baef509faf366a2f6842db5af14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:14 +0000
Subject: [PATCH 38/43] fix: do not overwrite the bin weights of a feature when
 plotting it

---
 cyclic_boosting/plots/_2dplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/plots/_2dplots.py b/cyclic_boosting/plots/_2dplots.py
index 9b6a9b4..9629df8 100644
--- a/cyclic_boosting/plots/_2dplots.py
+++ b/cyclic_boosting/plots/_2dplots.py
@@ -166,7 +166,7 @@ def plot_factor_2d(n_bins_finite, feature, grid_item=None):
     )
 
     def plot_marginal(axis):
-        w1 = np.reshape(weights[:-1], n_bins_finite)
+        w1 = np.reshape(weights[:-1], n_bins_finite).copy()
         w1[w1 == 0.0] = 1.0
         w = np.sum(w1, axis=axis)
 
-- 
2.43.0


From ca29ab6313ceb8582f80deb2633eb245c77bb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:26:16 +0000
Subject: [PATCH 39/43] fix: keep centers of diagonal plot bins in which no
 sample has weight

---
 cyclic_boosting/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 49ffd0a..b0138ca 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -234,7 +234,7 @@ def calc_in_sample_histograms(y, pred, weights, quantile=None):
     if quantile is not None:
         means = utils.calc_weighted_quantile(bin_numbers, y, weights, quantile)
         errors = None
-    bin_centers = bin_centers[np.where(~np.isnan(means.reindex(np.arange(1, nbins + 1))))]
+    bin_centers = bin_centers[np.isin(np.arange(1, nbins + 1), means.index)]
     # quantiles do not work for classification mode
     if np.isin(y, [0, 1]).all():
         return means, bin_centers, None, counts
-- 
2.43.0


From 555fb96e1d76694a947e9cd926f486314b5dec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:20:22 +0000
Subject: [PATCH 40/43] fix: keep the row labels of a frame in
 ECdfTransformer.transform

---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 707b9d4..c021f6a 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -309,7 +309,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
                 Xnp[:, j] = np.nan
 
         if isinstance(X, pd.DataFrame):
-            return pd.DataFrame(Xt, columns=X.columns)
+            return pd.DataFrame(Xt, columns=X.columns, index=X.index)
         else:
             return Xt
 
-- 
2.43.0


From 9f24556642eb7c77059160381958553c34b138d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:21:43 +0000
Subject: [PATCH 41/43] fix: treat magic missing values as missing in
 ECdfTransformer.transform

---
 cyclic_boosting/binning/ecdf_transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index c021f6a..b11d790 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -286,6 +286,9 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
             if feature_property is None:
                 continue
 
+            if flags.has_magic_missing_set(feature_property):
+                Xnp[(Xnp[:, j] == -9) | (Xnp[:, j] == -999), j] = np.nan
+
             if bins_and_cdfs is not None:
                 if flags.is_continuous_set(feature_property):
                     le_interp_multi(
-- 
2.43.0


From bfed09025df90b80a9d869f8974e0a78e83cd3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:25:26 +0000
Subject: [PATCH 42/43] fix: remove a contribution from an influence category
 that was not seen before

---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 9199c9e..8974bb4 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -73,7 +73,7 @@ class UpdateMixin(object):
             if influence_category in self.df.columns:
                 self.df[influence_category] -= pred
             else:
-                self.df[influence_category] = pred
+                self.df[influence_category] = -pred
 
     def update_predictions(
         self, pred: np.ndarray, feature: Feature, influence_categories: Optional[dict] = None
-- 
2.43.0


From c1f75a6276b26bebc51445ce8908dc9c8dd6cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:46:32 +0000
Subject: [PATCH 43/43] fix: leave the bin of missing values out of the truth
 in plots of one bin

The factor plot of a feature without missing values drops the bin of
missing values before it counts the bins.  With a single finite bin left,
it took the feature for one that has no other bin and drew truth and
prediction of the bin of missing values as well.  Count the bins before
the last one is dropped.
---
 cyclic_boosting/plots/_1dplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/plots/_1dplots.py b/cyclic_boosting/plots/_1dplots.py
index fec019a..9773301 100644
--- a/cyclic_boosting/plots/_1dplots.py
+++ b/cyclic_boosting/plots/_1dplots.py
@@ -302,7 +302,7 @@ def plot_factor_1d(
         _plot_factors(factors, x_axis_range, label, uncertainties if with_errorbars else None)
 
     try:
-        if len(factors) > 1:
+        if number_of_factors > 1:
             plt.plot(p[:-1], ".-", label="prediction", alpha=0.5)
             plt.plot(y[:-1], ".-", label="truth", alpha=0.5)
         else:
-- 
2.43.0

