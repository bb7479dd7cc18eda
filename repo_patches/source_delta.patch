From 021c8d8f88c28cc12e8925d09a0bfba7a4061b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:50 +0000
Subject: [PATCH 01/28] fix: ignore zero-weight and infinite values in the
 weighted empirical CDF

The unique values returned together with the CDF still contained values whose
total weight is zero, while the CDF itself dropped them, so values and shares
were misaligned or had different lengths. Infinite values ended up as bin
boundaries, although only finite values are documented to count.
---
 cyclic_boosting/binning/ecdf_transformer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 723d05e..380eba7 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -557,15 +557,16 @@ def calculate_cdf_from_weighted_data(z, w):
     if z.shape[0] != w.shape[0]:
         raise ValueError("input vectors must be of same shape")
 
-    n_nan = np.count_nonzero(np.isnan(z))
-    z_unique = np.unique(z[~np.isnan(z)])
+    finite = np.isfinite(z)
+    n_nan = np.count_nonzero(~finite)
 
-    wsum = np.nansum(w[~np.isnan(z)])
+    wsum = np.nansum(w[finite])
 
     # Accumulate the weights for the unique values.
-    uniques = pd.DataFrame({"z": z, "w": w}).groupby(["z"]).agg({"w": "sum"}).reset_index()
+    uniques = pd.DataFrame({"z": z[finite], "w": w[finite]}).groupby(["z"]).agg({"w": "sum"}).reset_index()
     uniques = uniques.loc[uniques["w"] != 0]
 
+    z_unique = uniques["z"].values
     cdf = np.nancumsum(uniques["w"]) / wsum
 
     return z_unique, cdf, wsum, n_nan
-- 
2.43.0


From 8fc2a2f68cffc5ba493e8bd726595f181b689573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:21 +0000
Subject: [PATCH 02/28] fix: do not overwrite the caller's data in the ECDF
 transform

The transform wrote its results into a view of the input when the input was
already a float array or frame.
---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 380eba7..ff910ee 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -272,7 +272,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
         if check_frame_empty(X):
             return X
 
-        Xnp = np.asarray(X, dtype=float)
+        Xnp = np.array(X, dtype=float)
         Xt = Xnp
 
         for col, epsilon, bins_and_cdfs in self.bins_and_cdfs_:
-- 
2.43.0


From de330dfebe8b99319c7309bed8623db92beb823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:21 +0000
Subject: [PATCH 03/28] fix: number rows without any valid bin as missing

When no row of a batch had a valid bin combination, all rows were given bin 0
instead of the extra bin for missing values, so the result for a row depended
on the other rows of the batch.
---
 cyclic_boosting/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index d82e56e..f81d0e7 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -240,10 +240,7 @@ def multidim_binnos_to_lexicographic_binnos(binnos, n_bins=None, binsteps=None):
     is_valid = np.isfinite(binnos).all(axis=1)
     is_valid[is_valid] &= ((binnos[is_valid] >= 0) & (binnos[is_valid] < n_bins[None, :])).all(axis=1)
 
-    if not np.any(is_valid):
-        result = np.repeat(0, len(binnos))
-    else:
-        result = np.repeat(np.product(n_bins), len(binnos))
+    result = np.repeat(np.product(n_bins), len(binnos))
 
     result[is_valid] = np.dot(np.floor(binnos[is_valid]), binsteps[1:])
 
-- 
2.43.0


From 2d13272009665abb3ee319cb93c20e72a063dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:20 +0000
Subject: [PATCH 04/28] fix: name the magic-missing and direction flags in
 flags_to_string

Converting a property with one of these flags raised 'Unknown flags', for
example when plotting a monotonically increasing feature.
---
 cyclic_boosting/flags.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/flags.py b/cyclic_boosting/flags.py
index 2d123a1..576d9d3 100644
--- a/cyclic_boosting/flags.py
+++ b/cyclic_boosting/flags.py
@@ -47,6 +47,9 @@ _FLAG_LIST = [
     "CORR_TO_WIDTH",
     "IS_LINEAR",
     "IS_SEASONAL",
+    "HAS_MAGIC_INT_MISSING",
+    "INCREASING",
+    "DECREASING",
 ]
 
 
-- 
2.43.0


From 3456f1ec3a88cbb359dfb35838a0d984604e3bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:11 +0000
Subject: [PATCH 05/28] fix: do not subtract from features not fitted yet when
 training diverges

With hierarchical feature groups the other features are not fitted in the
first iterations. A diverging loss there ended in a TypeError.
---
 cyclic_boosting/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 98d11f1..15e4ea7 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -566,7 +566,8 @@ class CyclicBoostingBase(
 
             pred.remove_predictions(feature_predictions, feature)
 
-            feature.fitted_aggregated -= feature.factors_link
+            if feature.is_fitted:
+                feature.fitted_aggregated -= feature.factors_link
             feature.unbind_data()
 
     def _set_factors_per_feature(self, feature: Feature) -> Tuple[float, int]:
-- 
2.43.0


From 4b1a0a558977684ac8655ead0abf79627a140f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:11 +0000
Subject: [PATCH 06/28] fix: remove diverged factors only once without
 aggregation

After a diverging iteration all contributions are removed from the
in-sample prediction. With aggregate=False the next iteration removed them
a second time, so the training went on with wrong predictions.
---
 cyclic_boosting/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 15e4ea7..a8cac04 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -568,6 +568,9 @@ class CyclicBoostingBase(
 
             if feature.is_fitted:
                 feature.fitted_aggregated -= feature.factors_link
+            if not self.aggregate:
+                # the next iteration removes the current factors once more
+                feature.factors_link = np.ones(feature.n_bins) * self.neutral_factor_link
             feature.unbind_data()
 
     def _set_factors_per_feature(self, feature: Feature) -> Tuple[float, int]:
-- 
2.43.0


From a56a78522cce5fd7b8d6fd55fbc1fcc57445ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:34 +0000
Subject: [PATCH 07/28] fix: keep the classifiers' global scale below 1 for
 (almost) only positive targets

---
 cyclic_boosting/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index a8cac04..95b35d3 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -16,7 +16,7 @@ from cyclic_boosting import common_smoothers, learning_rate, link
 from cyclic_boosting.binning import get_feature_column_names_or_indices
 from cyclic_boosting.common_smoothers import SmootherChoice
 from cyclic_boosting.features import create_features, Feature, FeatureList, FeatureTypes, create_feature_id
-from cyclic_boosting.link import IdentityLinkMixin, LogLinkMixin
+from cyclic_boosting.link import IdentityLinkMixin, LogitLinkMixin, LogLinkMixin
 from cyclic_boosting.utils import (
     slice_finite_semi_positive,
     nans,
@@ -405,7 +405,10 @@ class CyclicBoostingBase(
             raise RuntimeError("The weights have to be initialized.")
 
         minimal_prediction = 0.001
-        self.global_scale_link_ = self.link_func(np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction)
+        global_scale = np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction
+        if isinstance(self, LogitLinkMixin):
+            global_scale = np.minimum(global_scale, 1.0 - minimal_prediction)
+        self.global_scale_link_ = self.link_func(global_scale)
 
         if self.prior_prediction_column is not None:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-- 
2.43.0


From 68ddfc206d913deaa7d1781cadf3499b77666906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:20:00 +0000
Subject: [PATCH 08/28] fix: spread ties of weighted quantiles by row position,
 not by weight sum

The continuous approximation of a quantile compared the cumulative weight
with row indices. With weights other than 1 the result could lie far
outside of the target range.
---
 cyclic_boosting/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index f81d0e7..5a1e8ad 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1052,7 +1052,7 @@ def continuous_quantile_from_discrete_pdf(y, quantile, weights):
     index_low = all_quantile_y[0]
     index_high = all_quantile_y[-1]
     if index_high > index_low:
-        quantile_y += (int(quantile_index) - index_low) / (index_high - index_low)
+        quantile_y += (np.sum(cumsum <= quantile_index) - index_low) / (index_high - index_low)
 
     return quantile_y
 
-- 
2.43.0


From fa108456ab14db044264f0fbe413ce7e5a612f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:31 +0000
Subject: [PATCH 09/28] fix: keep equal neighbouring values finite in the
 sliding window regularization

The variance of a window of equal values is zero, and the weight of the
window mean was computed as one over that variance. Equal neighbouring
values hence became NaN, and the bins were treated as unseen.
---
 cyclic_boosting/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index 5a1e8ad..c3fbf17 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -880,11 +880,12 @@ def regularize_to_error_weighted_mean_neighbors(
     sum_wx = np.convolve(wx, window_arr, "same")
     x_mean = np.convolve(wx * x, window_arr, "same") / sum_wx
 
-    wx_incl = np.ones(len(x))
+    # fraction multiplied by the variance, which is zero for equal values
+    variance = np.ones(len(x))
     for i in range(len(x)):
-        wx_incl[i] = (sum_wx / np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same"))[i]
+        variance[i] = (np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same") / sum_wx)[i]
 
-    res = (wx * x + wx_incl * x_mean) / (wx + wx_incl)
+    res = (wx * variance * x + x_mean) / (wx * variance + 1.0)
     return res
 
 
-- 
2.43.0


From fbae8af000332c119943914839bb2f2771ae9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:49 +0000
Subject: [PATCH 10/28] fix: use the nan_representation passed to
 SectionSmoother

The argument was accepted but ignored, rows of a section that was not
fitted always became NaN.
---
 cyclic_boosting/smoothing/meta_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/meta_smoother.py b/cyclic_boosting/smoothing/meta_smoother.py
index b5543f9..a81c36a 100644
--- a/cyclic_boosting/smoothing/meta_smoother.py
+++ b/cyclic_boosting/smoothing/meta_smoother.py
@@ -263,7 +263,7 @@ class SectionSmoother(AbstractBinSmoother):
         self.split_point = split_point
         self.smoother_lower = smoother_lower
         self.smoother_upper = smoother_upper
-        self.nan_representation = np.nan
+        self.nan_representation = nan_representation
         self.epsilon = epsilon
         self._reset_smoother_status()
 
-- 
2.43.0


From 8fd94168942935b7685e4094aaf07f5d68c5186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:46 +0000
Subject: [PATCH 11/28] fix: do not clip the caller's array in
 OrthogonalPolynomialSmoother.predict

ascontiguousarray does not copy the column of a one-column float array, so
the values outside the fitted range were overwritten in the array passed in.
---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index a050b7d..b03960b 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -257,7 +257,7 @@ class OrthogonalPolynomialSmoother(AbstractBinSmoother):
         assert X.ndim == 2
         if not hasattr(self, "pp_"):
             raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
-        x = np.ascontiguousarray(X[:, 0], dtype=np.float64)
+        x = np.array(X[:, 0], dtype=np.float64)
         x[x < self.minimal_x] = self.minimal_x
         x[x > self.maximal_x] = self.maximal_x
         y = cy_apply_orthogonal_poly_fit_equidistant(x, self.pp_, self.n_degrees_)
-- 
2.43.0


From b3666151772319f4fddf1dab9a5424250e87d68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:50:23 +0000
Subject: [PATCH 12/28] fix: reset the feature importances when an estimator is
 fitted again

The importances of the features of earlier fits stayed in the dictionary
and in the normalization, so the importances did not add up to one.
---
 cyclic_boosting/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 95b35d3..df9b1f2 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -975,6 +975,7 @@ class CyclicBoostingBase(
             return [(feature.feature_id, feature.smoother) for feature in self.features]
 
     def set_feature_importances(self) -> None:
+        self.feature_importances = {}
         for feature in self.features:
             feature.prepare_feature()
             feature.set_feature_bin_deviations_from_neutral(self.neutral_factor_link)
-- 
2.43.0


From d1b4e70f02bd9d938f3ad9243ab1c27b21797f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:50:23 +0000
Subject: [PATCH 13/28] fix: report importances and contributions of models
 trained on arrays

Columns of numpy arrays are addressed by integers, joining them to a
name failed with a TypeError.
---
 cyclic_boosting/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index df9b1f2..b00c627 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -990,7 +990,7 @@ class CyclicBoostingBase(
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
             norm_feature_importances = {
-                "_".join(feature.feature_id.feature_group): normalized_values[i]
+                "_".join(str(col) for col in feature.feature_id.feature_group): normalized_values[i]
                 for i, feature in enumerate(self.feature_importances.keys())
             }
             return norm_feature_importances
@@ -1018,7 +1018,7 @@ class CyclicBoostingBase(
         contribution = {}
         for feature in self.features:
             ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
-            fg = " ".join(feature.feature_group)
+            fg = " ".join(str(col) for col in feature.feature_group)
             contribution[fg + ft] = self.unlink_func(self._pred_feature(X, feature, is_fit=False))
         return contribution
 
-- 
2.43.0


From 6ab10c11178387f2aa551a5e3d78eae7db6cd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:48 +0000
Subject: [PATCH 14/28] fix: reject training data where only the rows or only
 the targets are empty

The check used the bitwise operator, which binds tighter than the
comparison, so it only rejected data where both were empty. Fitting on no
rows with some targets succeeded and the model then predicted NaN.
---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index b00c627..d40c50b 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -952,7 +952,7 @@ class CyclicBoostingBase(
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """Check that input arrays are not empty"""
-        if len(X) == 0 | len(y) == 0:
+        if len(X) == 0 or len(y) == 0:
             raise ValueError("Estimator should be applied on non-empty data")
 
     def _check_y(self, y: np.ndarray) -> None:
-- 
2.43.0


From 4a51f88283ea7f117d43a6a625c9511e2ff5bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:48 +0000
Subject: [PATCH 15/28] fix: report a missing fit when predicting

The features are set up in the constructor, so the test for them never
failed. An estimator that had not been fitted predicted None, or failed
with an unrelated error.
---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index d40c50b..292ac29 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -947,7 +947,7 @@ class CyclicBoostingBase(
 
     def _check_fitted(self) -> None:
         """Check if fit was called"""
-        if self.features is None:
+        if self.features is None or self.global_scale_link_ is None:
             raise ValueError("fit must be called first.")
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
-- 
2.43.0


From 55cb5ca237e7311f0fb85a26934ff52c12e59114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:48 +0000
Subject: [PATCH 16/28] fix: do not clip the prior predictions of the caller in
 place

CBNBinomC wrote the clipped prior predictions back into the frame passed
to fit and predict.
---
 cyclic_boosting/nbinom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 7b7e798..f1c5185 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -144,7 +144,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
         else:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-            np.clip(prior_pred, 0, 1, prior_pred)
+            prior_pred = np.clip(prior_pred, 0, 1)
             prior_prediction_link = self.link_func(prior_pred)
             finite = np.isfinite(prior_prediction_link)
             prior_prediction_link[~finite] = self.neutral_factor_link
-- 
2.43.0


From 3ed5a404727b96db30593045b55538b6163c9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:43 +0000
Subject: [PATCH 17/28] fix: let the price model's fit_transform train the
 price model

fit_transform used the prediction state of the plain multiplicative model,
so CBExponential.fit_transform failed with a KeyError on its first price
feature.
---
 cyclic_boosting/price.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 56f3ea0..2567c67 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -414,18 +414,19 @@ class CBExponential(CBNBinomRegressor):
             pred.update_predictions(feature_predictions, feature, influence_categories)
         return pred
 
-    def fit(self, X, y=None):
+    def _fit_predict(self, X, y=None):
+        y = np.asarray(y)
         self._init_fit(X, y)
         pred = CBLinkPredictions(
             self._get_prior_predictions(X),
             self._get_prior_exponent(X),
             self.external_col,
         )
-        _ = self._fit_main(X, y, pred)
+        prediction = self._fit_main(X, y, pred)
         del self.external_col
         del self.weights_external
 
-        return self
+        return prediction
 
 
 def gamma_momemt_matching(factors, variance_factors, link_func):
-- 
2.43.0


From 6294aff41fec35db1a106a18ffeb52198343bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:42 +0000
Subject: [PATCH 18/28] fix: extended J-QPDs reproduce symmetric quantile
 triplets

For a triplet that is symmetric in the internal space, the quantile
function did not go through the outer two values. Triplets that are
symmetric up to rounding gave NaN.
---
 cyclic_boosting/quantile_matching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 5c00597..25dc57a 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -363,8 +363,8 @@ def unconstrained_calc(L: float, B: float, H: float) -> Tuple[float, float, floa
 
     if gamma == 0:
         xi = B
-        kappa = H - B
         delta = 1
+        kappa = (H - B) / sinh(1.0 / delta)
     else:
         if gamma < 0:
             xi = L
@@ -372,7 +372,7 @@ def unconstrained_calc(L: float, B: float, H: float) -> Tuple[float, float, floa
         else:
             xi = H
             theta = (H - B) / (H - L)
-        delta = 1.0 / arccosh(1 / (2.0 * theta))
+        delta = 1.0 / arccosh(max(1 / (2.0 * theta), 1.0 + 1e-12))  # limit of symmetric quantiles
         kappa = (H - L) / sinh(2.0 / delta)
 
     return gamma, xi, kappa, delta
-- 
2.43.0


From bc34817cb8396985f2853bdac4f4d2275a286a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:42 +0000
Subject: [PATCH 19/28] fix: J-QPDs of symmetric quantile triplets are not NaN

The width parameter became zero (or NaN after rounding) for triplets
that are symmetric in the internal space, for example 1, 2, 4 in the
semi-bounded mode, and all quantiles were NaN.
---
 cyclic_boosting/quantile_matching.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 25dc57a..269de63 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -74,8 +74,11 @@ class J_QPD_S:
             / self.c
             * np.sinh(
                 np.arccosh(
-                    (self.H - self.L)
-                    / (2 * np.where((self.B - self.L) < (self.H - self.B), (self.B - self.L), (self.H - self.B)))
+                    np.maximum(
+                        (self.H - self.L)
+                        / (2 * np.where((self.B - self.L) < (self.H - self.B), (self.B - self.L), (self.H - self.B))),
+                        1.0 + 1e-12,  # limit of symmetric quantiles
+                    )
                 )
             )
         )
@@ -233,8 +236,11 @@ class J_QPD_B:
             1.0
             / self.c
             * np.arccosh(
-                (self.H - self.L)
-                / (2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B))
+                np.maximum(
+                    (self.H - self.L)
+                    / (2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B)),
+                    1.0 + 1e-12,  # limit of symmetric quantiles
+                )
             )
         )
 
-- 
2.43.0


From 5ff790baa94fda640b71fe0ed257679b824fd3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:42 +0000
Subject: [PATCH 20/28] fix: QPD regressor chain in bounded mode can be fitted

The upper bounds of the transformed target were not restricted to the
samples above the median, so that fit raised a shape mismatch.
---
 cyclic_boosting/quantile_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 269de63..afc080a 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -807,7 +807,7 @@ class QPD_RegressorChain(BaseEstimator):
         if self.bound == "S":
             y_trans = transform_from_semibound_lower(y_trans, 0)
         elif self.bound == "B":
-            y_trans = transform_from_bounds(y_trans, 0, (self.u - pred_median) / (pred_median - pred_lowq))
+            y_trans = transform_from_bounds(y_trans, 0, ((self.u - pred_median) / (pred_median - pred_lowq))[mask])
         self.est_highq.fit(X[mask], y_trans)
 
         return self
-- 
2.43.0


From 24c9b82bbccf7ee984a1da0e11fef9cfde8c4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:42 +0000
Subject: [PATCH 21/28] fix: bounded J-QPD accepts zero-dimensional arrays

The quantile function returns a zero-dimensional array for a scalar,
which cdf rejected with an IndexError.
---
 cyclic_boosting/quantile_matching.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index afc080a..5607927 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -252,8 +252,7 @@ class J_QPD_B:
                 self.xi + self.kappa * np.sinh(self.delta * (self.phi.ppf(x) + self.n * self.c))
             )
         else:
-            if np.isscalar(x):
-                x = np.asarray([x])
+            x = np.atleast_1d(x)
             ppf_value = self.l + (self.u - self.l) * self.phi.cdf(
                 self.xi + self.kappa * np.sinh(self.delta * (self.phi.ppf(x[:, np.newaxis]) + self.n * self.c))
             )
@@ -273,8 +272,7 @@ class J_QPD_B:
                 - self.n * self.c
             )
         else:
-            if np.isscalar(x):
-                x = np.asarray([x])
+            x = np.atleast_1d(x)
             cdf_value = self.phi.cdf(
                 1.0
                 / self.delta
-- 
2.43.0


From 505d7486d1f66a72ab80c69d108a6750dbacc35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:05 +0000
Subject: [PATCH 22/28] fix: CBNBinomC.fit_transform works

The mean prediction column was only read in fit, so that fit_transform
failed with an AttributeError.
---
 cyclic_boosting/nbinom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index f1c5185..cc181b1 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -133,11 +133,11 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         # TODO: use weights
         return loss_nbinom_c(y.astype(np.float64), self.mu, c, self.gamma)
 
-    def fit(self, X, y=None):
+    def _fit_predict(self, X, y=None):
         self.mu = X[self.mean_prediction_column].values
-        _ = self._fit_predict(X, y)
+        pred = super()._fit_predict(X, y)
         del self.mu
-        return self
+        return pred
 
     def _get_prior_predictions(self, X):
         if self.prior_prediction_column is None:
-- 
2.43.0


From 19088990d42ff9eae5462923911585d24930f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:45 +0000
Subject: [PATCH 23/28] fix: pipeline_CBExponential passes a and c to the
 estimator

---
 cyclic_boosting/pipelines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/pipelines.py b/cyclic_boosting/pipelines.py
index f7689de..c27fe7f 100644
--- a/cyclic_boosting/pipelines.py
+++ b/cyclic_boosting/pipelines.py
@@ -101,6 +101,8 @@ def pipeline_CB(
             learn_rate=learn_rate,
             var_prior_exponent=var_prior_exponent,
             prior_exponent_colname=prior_exponent_colname,
+            a=a,
+            c=c,
         )
     elif estimator == CBNBinomC:
         estimatorCB = estimator(
-- 
2.43.0


From 8948c79d51fd44c7fe7dc76aebe364e7154cd1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:45 +0000
Subject: [PATCH 24/28] fix: pipelines tell the binner which column holds the
 weights

Without feature properties the weight column was binned like a feature and
the estimator was trained with bin numbers as weights.
---
 cyclic_boosting/pipelines.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/pipelines.py b/cyclic_boosting/pipelines.py
index c27fe7f..dc08576 100644
--- a/cyclic_boosting/pipelines.py
+++ b/cyclic_boosting/pipelines.py
@@ -174,7 +174,12 @@ def pipeline_CB(
         )
     else:
         raise Exception("No valid CB estimator.")
-    binner = binning.BinNumberTransformer(n_bins=number_of_bins, feature_properties=feature_properties, inplace=inplace)
+    binner = binning.BinNumberTransformer(
+        n_bins=number_of_bins,
+        feature_properties=feature_properties,
+        weight_column=weight_column,
+        inplace=inplace,
+    )
 
     return Pipeline([("binning", binner), ("CB", estimatorCB)])
 
-- 
2.43.0


From 35f027e22da51afc44a697de085662fc868051ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:53:43 +0000
Subject: [PATCH 25/28] fix: default feature groups follow the data of each fit

An estimator without feature_groups stored the columns of its first fit as its
parameter, so a later fit on data with other columns used the old ones.
---
 cyclic_boosting/base.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 292ac29..4b42a76 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -328,7 +328,7 @@ class CyclicBoostingBase(
             self.learn_rate = learn_rate
         if hierarchical_feature_groups is not None:
             self.learn_rate = learning_rate.constant_learn_rate_one
-        self._init_features()
+        self._init_features(self.feature_groups)
 
     def loss(self, prediction: np.ndarray, y: np.ndarray, weights: np.ndarray) -> np.ndarray:
         if not len(y) > 0:
@@ -378,9 +378,9 @@ class CyclicBoostingBase(
            are we called in fit() ?
         """
 
-    def _init_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> None:
+    def _get_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> Union[List[str], List[int]]:
         """
-        Initializes the ``feature_groups`` to be a list of all
+        Default for the ``feature_groups``: a list of all
         columns available in ``X`` except the ``prior_prediction_column`` and
         the ``weight_column``.
         """
@@ -390,7 +390,7 @@ class CyclicBoostingBase(
         if self.weight_column is not None:
             exclude_columns.append(self.weight_column)
 
-        self.feature_groups = get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
+        return get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """
@@ -439,12 +439,12 @@ class CyclicBoostingBase(
         if self.weights is None:
             raise RuntimeError("The weights have to be initialized.")
 
-    def _init_features(self) -> None:
+    def _init_features(self, feature_groups) -> None:
         """
         Initializes the ``features`` and binds the data belonging to a feature
         to it.
         """
-        self.features = create_features(self.feature_groups, self.feature_properties, self.smoother_choice)
+        self.features = create_features(feature_groups, self.feature_properties, self.smoother_choice)
 
     def _get_prior_predictions(self, X: Union[pd.DataFrame, np.ndarray]) -> np.ndarray:
         if self.prior_prediction_column is None:
@@ -710,11 +710,12 @@ class CyclicBoostingBase(
         self._init_weight_column(X)
         self._init_external_column(X, True)
 
-        if self.feature_groups is None:
-            self._init_default_feature_groups(X)
+        feature_groups = self.feature_groups
+        if feature_groups is None:
+            feature_groups = self._get_default_feature_groups(X)
 
         self._check_weights()
-        self._init_features()
+        self._init_features(feature_groups)
         self._init_global_scale(X, y)
 
     def _fit_main(self, X: np.ndarray, y: np.ndarray, pred: CBLinkPredictionsFactors) -> np.ndarray:
-- 
2.43.0


From 4ad6d7786d3c6578dfda176c4a61c90d9c9d1022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:53:43 +0000
Subject: [PATCH 26/28] fix: ECdfTransformer.transform keeps the row labels of
 a DataFrame

---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index ff910ee..d04b773 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -305,7 +305,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
                 Xnp[:, j] = np.nan
 
         if isinstance(X, pd.DataFrame):
-            return pd.DataFrame(Xt, columns=X.columns)
+            return pd.DataFrame(Xt, columns=X.columns, index=X.index)
         else:
             return Xt
 
-- 
2.43.0


From 4516b0656d87f10bc930c0018f34376b320ec036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:54 +0000
Subject: [PATCH 27/28] fix: accept the arguments estimators pass in the base
 observer

Estimators call observe_iterations with the factor change, and quantile
regressors also with their quantile, but the base class took neither, so
a training with such an observer ended in a TypeError.
---
 cyclic_boosting/observers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 8328b7b..ea7a23c 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -16,7 +16,7 @@ class BaseObserver(object):
     order to make predictions.
     """
 
-    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state):
+    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
         """
         Called after each iteration of the algorithm.
 
@@ -42,6 +42,12 @@ class BaseObserver(object):
             :meth:`cyclic_boosting.base.CyclicBoostingBase.get_state` for
             information on what will be passed here
 
+        delta : float
+            change of the factors in the last iteration
+
+        quantile : float
+            quantile to be predicted, passed by quantile regressors only
+
         """
 
     def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
-- 
2.43.0


From 75bf428ed79a2e021a39e2824c1a3ea5e2d64836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:12:45 +0000
Subject: [PATCH 28/28] fix: use the fallback value when the seasonal fit does
 not converge

---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index b03960b..0eb1d79 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -379,7 +379,7 @@ class SeasonalSmoother(AbstractBinSmoother):
             self.par_, _ = scipy.optimize.curve_fit(self.fit_function, xdata=xdata, ydata=y, sigma=X_for_smoother[:, 2])
             if self.offset_tozero:
                 self.par_[0] = 0.0
-        except TypeError:
+        except (TypeError, RuntimeError):
             warnings.warn("Seasonal Smoother did not converge. Fallback value is used")
             self.converged = False
         else:
-- 
2.43.0

