From 5247e33bd562298028ad6603617346398b3905ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 01/30] fix: iterate MCD C-steps until the determinant stops
 decreasing

---
 robpy/covariance/mcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index cbc70be..23460b0 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -129,7 +129,7 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
@@ -340,7 +340,7 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From 7c5fde3481f42b0e11bcf59e22bb719842be670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 02/30] fix: CellMCD keeps the previous W when a C-step is
 rejected

---
 robpy/covariance/cellmcd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 5c01467..46d50b0 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -450,6 +450,7 @@ class CellMCD(RobustCovariance):
         This is done per column."""
 
         n = W.shape[0]
+        W = W.copy()  # the previous W must survive in case this C-step is rejected
         ordering = np.argsort(np.sum(W, axis=0), kind="stable")
         for j in ordering:
             delta = self._calculate_delta(X, W, sigma, sigma_inv, mu, j)
-- 
2.43.0


From 2a8e165ced8dfcccf6874cbd3337ccdc25f99524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 03/30] fix: CellMCD uses the marginal variances for rows
 without observed cells

---
 robpy/covariance/cellmcd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 46d50b0..46c8186 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -330,7 +330,7 @@ class CellMCD(RobustCovariance):
 
             else:  # all missings in the w-pattern
                 predictions, conditional_variances = self._predict_all_missing(
-                    predictions, conditional_variances, row_idx_w, mu, sigma_inv
+                    predictions, conditional_variances, row_idx_w, mu, sigma
                 )
 
         return predictions, conditional_variances
@@ -625,12 +625,12 @@ class CellMCD(RobustCovariance):
         conditional_variances: np.ndarray,
         row_idx_w: np.array,
         mu: np.array,
-        sigma_inv: np.ndarray,
+        sigma: np.ndarray,
     ):
         """Make predictions when all values in the w-pattern are missing."""
         for index in row_idx_w:
             predictions[index, :] = mu
-            conditional_variances[index, :] = np.diag(sigma_inv)
+            conditional_variances[index, :] = np.diag(sigma)
 
         return predictions, conditional_variances
 
-- 
2.43.0


From aa8b0d119bf530f240ee351528e1a445bf4e3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 04/30] fix: use different random directions in the seeded
 Stahel-Donoho outlyingness

---
 robpy/utils/outlyingness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 977c90b..1dc5c3e 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -33,9 +33,10 @@ def stahel_donoho(
           kovarianzmatrizen (Doctoral dissertation, ETH Zurich).
     """
     # step 1: get random directions
+    rng = np.random.default_rng(random_seed)  # one generator, such that the directions differ
     D = np.hstack(
         [
-            _get_random_direction(X, n_points=n_points, random_seed=random_seed).reshape(-1, 1)
+            _get_random_direction(X, n_points=n_points, random_seed=rng).reshape(-1, 1)
             for _ in range(n_dir)
         ]
     )  # (n_features, n_dir)
-- 
2.43.0


From 96288b82bcfa6e0f4a7c1f352d7d3c7e381a8f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 05/30] fix: pass the random seed of ROBPCA on to its final MCD
 step

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index a94a407..862807f 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -105,7 +105,7 @@ class ROBPCA(RobustPCA):
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
-            mcd = FastMCD().fit(self.transform(X))
+            mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
-- 
2.43.0


From bbe2343f3b9e7b85e9141570e777035a1125bb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 06/30] fix: ROBPCA reports as many explained variances as
 components

---
 robpy/pca/robpca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 862807f..3d60b32 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -111,6 +111,8 @@ class ROBPCA(RobustPCA):
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
         # step 6: transform back to original X
         self.n_components = k
+        self.explained_variance_ = self.explained_variance_[:k]
+        self.explained_variance_ratio = self.explained_variance_ratio[:k]
         X = pca.inverse_transform(X)
         self.components_ = loadings @ self.components_
         self.location_ = np.mean(X, axis=0)
-- 
2.43.0


From 97fe38412cde6e511cf5637d7f804e77d48257ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 07/30] fix: MM-regression weights the observations, not only
 the slopes columns

---
 robpy/regression/mm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index fc2a958..33ec426 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -49,12 +49,15 @@ class MMRegression(RobustRegression):
         self._scale = self.model.scale
         self.n_iter = 0
         for i in range(self.max_iterations):
-            residuals = y - self.model.predict(X)
+            residuals = y - self.model.predict(X).reshape(y.shape)
             scaled_residuals = residuals / self._scale
-            weights = self.rho.psi(scaled_residuals) / scaled_residuals
-            self.model = LinearRegression().fit(
-                np.sqrt(weights).reshape(-1, 1) * X, np.sqrt(weights) * y
+            weights = np.divide(
+                self.rho.psi(scaled_residuals),
+                scaled_residuals,
+                out=np.ones_like(scaled_residuals),
+                where=scaled_residuals != 0,
             )
+            self.model = LinearRegression().fit(X, y, sample_weight=weights.reshape(-1))
             new_residuals = y - self.model.predict(X)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
-- 
2.43.0


From ca972171c9465bbd18e45ee716ba0ee511a2a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 08/30] fix: power transformer can widen the lambda range, and
 standardizes only once

---
 robpy/preprocessing/transfo.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 776a8cf..42468b5 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -154,14 +154,14 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range)
         converged = False
+        if self.standardize:
+            scale_boxcox = np.median(x)
+            x = x / scale_boxcox
+        else:
+            scale_boxcox = None
         while not converged:
-            if self.standardize:
-                scale_boxcox = np.median(x)
-                x = x / scale_boxcox
-            else:
-                scale_boxcox = None
             lambda_raw = self._calculate_lambda_0(x, "boxcox_rect", lambdarange)
             lambda_rew, mu_rew_boxcox, sd_rew_boxcox = self._reweighted_max_likelihood_robust(
                 x,
@@ -185,15 +185,15 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range)
         converged = False
+        if self.standardize:
+            loc_yeojohnson = np.median(x)
+            scale_yeojohnson = median_abs_deviation(x, scale="normal")
+            x = (x - loc_yeojohnson) / scale_yeojohnson
+        else:
+            loc_yeojohnson, scale_yeojohnson = None, None
         while not converged:
-            if self.standardize:
-                loc_yeojohnson = np.median(x)
-                scale_yeojohnson = median_abs_deviation(x, scale="normal")
-                x = (x - loc_yeojohnson) / scale_yeojohnson
-            else:
-                loc_yeojohnson, scale_yeojohnson = None, None
             lambda_raw = self._calculate_lambda_0(x, "yeojohnson_rect", lambdarange)
             (
                 lambda_rew,
-- 
2.43.0


From 4c27a3d1c58efcb0fa7a5dbe0f0eed42da11227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 09/30] fix: fitting the power transformer with method="auto"
 no longer overwrites the method

---
 robpy/preprocessing/transfo.py | 35 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 42468b5..b4cb289 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -57,12 +57,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         self._get_method(x)
         x_sorted = np.sort(x)
 
-        if self.method in ["boxcox", "auto"]:
+        if self.method_ in ["boxcox", "auto"]:
             lambda_boxcox, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox = self._fit_boxcox(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 crit_val_boxcox = self._robnormality(x, "boxcox", lambda_boxcox)
 
-        if self.method in ["yeojohnson", "auto"]:
+        if self.method_ in ["yeojohnson", "auto"]:
             (
                 lambda_yeojohnson,
                 mu_rew_yeojohnson,
@@ -70,16 +70,16 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 loc_yeojohnson,
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
 
-        if self.method == "auto":
+        if self.method_ == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-                self.method = "boxcox"
+                self.method_ = "boxcox"
             else:
-                self.method = "yeojohnson"
+                self.method_ = "yeojohnson"
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 self.scale_pre = scale_boxcox
                 self.location_post = mu_rew_boxcox
@@ -102,7 +102,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError(
                     "The data is not strictly positive. Box-Cox transformation "
@@ -130,7 +130,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 x = x * self.scale_post + self.location_post
             x = self._handle_bounds(x)
@@ -220,13 +220,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
 
         lower_bound, upper_bound = None, None
 
-        if self.method == "boxcox" and self.lambda_rew > 0.0:
+        if self.method_ == "boxcox" and self.lambda_rew > 0.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew)
-        elif self.method == "boxcox" and self.lambda_rew < 0.0:
+        elif self.method_ == "boxcox" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
-        elif self.method == "yeojohnson" and self.lambda_rew > 2.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew > 2.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew - 2.0)
-        elif self.method == "yeojohnson" and self.lambda_rew < 0.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
 
         return lower_bound, upper_bound
@@ -237,7 +237,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if lower_bound is not None and np.min(x) < lower_bound:
             new_bound = 0.95 * lower_bound
             self.logger.info(
-                f"Some (standardized) values in x are below the range of the {self.method} "
+                f"Some (standardized) values in x are below the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -246,7 +246,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if upper_bound is not None and np.max(x) > upper_bound:
             new_bound = 0.95 * upper_bound
             self.logger.info(
-                f"Some (standardized) values in x are above the range of the {self.method} "
+                f"Some (standardized) values in x are above the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -586,12 +586,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         return lambda_est
 
     def _get_method(self, x: np.ndarray):
+        self.method_ = self.method
         if self.method == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError("The data is not strictly positive. Box-Cox cannot be applied.")
         elif self.method == "auto":
             if np.min(x) <= 0:
-                self.method = "yeojohnson"
+                self.method_ = "yeojohnson"
         elif self.method != "yeojohnson":
             raise ValueError(
                 'The only supported methods of transformation are "boxcox", "yeojohnson" or "auto".'
-- 
2.43.0


From eeea2f0830743de33c6fe3620eb0501c21e43e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 10/30] fix: compare the Yeo-Johnson fit on the data it was
 fitted on in method="auto"

---
 robpy/preprocessing/transfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index b4cb289..53516fd 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -71,7 +71,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
             if self.method_ == "auto":
-                crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
+                x_pre = (x - loc_yeojohnson) / scale_yeojohnson if self.standardize else x
+                crit_val_yeojohnson = self._robnormality(x_pre, "yeojohnson", lambda_yeojohnson)
 
         if self.method_ == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-- 
2.43.0


From 8258c1ee6902758a6b4859266adc8bf72eca4a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 11/30] fix: univariate estimators return a zero scale instead
 of NaN for (nearly) constant data

---
 robpy/univariate/mcd.py       | 5 ++++-
 robpy/univariate/onestep_m.py | 4 ++++
 robpy/univariate/tau.py       | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/robpy/univariate/mcd.py b/robpy/univariate/mcd.py
index 11a439b..a8789d9 100644
--- a/robpy/univariate/mcd.py
+++ b/robpy/univariate/mcd.py
@@ -41,7 +41,10 @@ class UnivariateMCD(RobustScale):
             return
 
         self.raw_variance_, self.raw_location_ = self._get_raw_estimates(X)
-        self.variance_, self.location_ = self._reweighting(X)
+        if self.raw_variance_ == 0:  # at least h_size identical observations
+            self.variance_, self.location_ = self.raw_variance_, self.raw_location_
+        else:
+            self.variance_, self.location_ = self._reweighting(X)
         self.raw_scale_ = np.sqrt(self.raw_variance_)
         self.scale_ = np.sqrt(self.variance_)
 
diff --git a/robpy/univariate/onestep_m.py b/robpy/univariate/onestep_m.py
index 24f46f9..0454274 100644
--- a/robpy/univariate/onestep_m.py
+++ b/robpy/univariate/onestep_m.py
@@ -112,6 +112,10 @@ class OneStepWrapping(RobustScale):
         # initial estimates: univariate MCD
         initial_estimates = UnivariateMCD().fit(X)
 
+        if initial_estimates.scale == 0:
+            self.location_, self.scale_ = initial_estimates.location, initial_estimates.scale
+            return
+
         # one step M estimator for location using hyperbolic tangent weight function:
         X_standardized = (X - initial_estimates.location) / initial_estimates.scale
         weights = np.array([self._tanh_weights(val) for val in X_standardized])
diff --git a/robpy/univariate/tau.py b/robpy/univariate/tau.py
index ca73465..56056fc 100644
--- a/robpy/univariate/tau.py
+++ b/robpy/univariate/tau.py
@@ -41,6 +41,9 @@ class Tau(RobustScale):
         """
         n = len(X)
         sigma0 = median_abs_deviation(X)
+        if sigma0 == 0:
+            self.location_, self.scale_ = np.median(X), sigma0
+            return
         weights = self._weight_function((X - np.median(X)) / sigma0)
         self.location_ = np.sum(X * weights) / np.sum(weights)
         self.scale_ = sigma0 * np.sqrt(
-- 
2.43.0


From 32342cd8349c8fd053688a3dc47089a66afecb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 12/30] fix: an unfitted DDC raises the documented error

---
 robpy/outliers/ddc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b09026c..fb3abe0 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -55,6 +55,7 @@ class DDC(OutlierMixin):
         self.cutoff = np.sqrt(chi2.ppf(chi2_quantile, df=1))
         self.min_correlation = min_correlation
         self.scale_estimator = scale_estimator
+        self.is_fitted_ = False
 
     def fit(self, X: pd.DataFrame, y=None, verbose: bool = False):
         self._check_data_conditions(X)
-- 
2.43.0


From db1b519564a81dadf1e069e7134e9672a6c02328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 13/30] fix: DDC predictions respect min_correlation

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index fb3abe0..966d239 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -396,7 +396,7 @@ class DDC(OutlierMixin):
             weights = np.repeat(
                 [
                     [
-                        np.abs(r) * (np.abs(r) >= 0.5) * (idx != i)
+                        np.abs(r) * (np.abs(r) >= self.min_correlation) * (idx != i)
                         for idx, r in enumerate(self.robust_correlation_[:, i])
                     ]
                 ],
-- 
2.43.0


From 2420145c55a88c8d7cec2eb8243fe44fc8faf348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 14/30] fix: DataCleaner.transform does not depend on earlier
 transforms

---
 robpy/preprocessing/data_cleaner.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 49d6d82..0833817 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -167,16 +167,17 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols_and_rows(self, X: pd.DataFrame):
         """Clean missing values."""
-        if self.clean_na_first == "automatic":
-            self.clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
-
+        clean_na_first = self.clean_na_first
+        if clean_na_first == "automatic":
+            clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
+        self.cols_missings, self.rows_missings = [], []  # forget an earlier transform
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
         )
-        if self.clean_na_first == "columns":
+        if clean_na_first == "columns":
             self._set_missing_cols(X)
             self._set_missing_rows(X)
-        elif self.clean_na_first == "rows":
+        elif clean_na_first == "rows":
             self._set_missing_rows(X)
             self._set_missing_cols(X)
         else:
-- 
2.43.0


From 7dd3516ffbb331b2478b20358aa8d5d1ecfd7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 15/30] fix: fitting CellMCD no longer overwrites alpha

---
 robpy/covariance/cellmcd.py      | 14 +++++++-------
 robpy/covariance/initial_ddcw.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 46c8186..7f18c21 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -80,7 +80,7 @@ class CellMCD(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self.alpha_ = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
@@ -97,7 +97,7 @@ class CellMCD(RobustCovariance):
         self._check_data(X_scaled)
 
         # Step 2: calculate the initial estimates
-        ddcw = InitialDDCW(alpha=self.alpha, min_eigenvalue=self.min_eigenvalue)
+        ddcw = InitialDDCW(alpha=self.alpha_, min_eigenvalue=self.min_eigenvalue)
         ddcw.fit(X_scaled)
         initial_location = ddcw.location_
         initial_cov = ddcw.covariance_
@@ -352,7 +352,7 @@ class CellMCD(RobustCovariance):
         """
         n, p = X_scaled.shape
 
-        h = round(self.alpha * n)
+        h = round(self.alpha_ * n)
         initial_W = np.ones([n, p])
         initial_W[np.isnan(X_scaled)] = 0
         objective_values = np.full(self.max_c_steps + 1, np.nan)
@@ -645,17 +645,17 @@ class CellMCD(RobustCovariance):
 
         cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
-        if np.max(n_marginal_outliers) > 1 - self.alpha:
+        if np.max(n_marginal_outliers) > 1 - self.alpha_:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of "
+                f"\nAt least one variable has more than {100 * (1 - self.alpha_)}% of "
                 "marginal  outliers."
             )
 
         X[np.abs(X) > cutoff] = np.nan
         n_bad_values = np.isnan(X).sum(axis=0) / X.shape[0]
-        if np.max(n_bad_values) > 1 - self.alpha:
+        if np.max(n_bad_values) > 1 - self.alpha_:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of nan's or "
+                f"\nAt least one variable has more than {100 * (1 - self.alpha_)}% of nan's or "
                 "marginal outliers."
             )
 
diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index a309e70..9343ede 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -55,14 +55,14 @@ class InitialDDCW(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self.alpha_ = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
         # DDC with constraint -> imputed and rescaled Zimp:
         ddc = DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit(pd.DataFrame(X))
         W = np.copy(ddc.cellwise_outliers_)
-        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha)[0]
+        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha_)[0]
         for i in flagged_too_many:
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
-- 
2.43.0


From f97a4b37c11dccef827af793e29f6ecfe0db37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 16/30] fix: FastMCD accepts an absolute h when the data are
 partitioned

---
 robpy/covariance/mcd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 23460b0..ae62c89 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -102,6 +102,7 @@ class FastMCD(RobustCovariance):
             self.location_ = X.mean(0)
             return np.cov(X, rowvar=False)
         self.rng = np.random.default_rng(self.random_seed)
+        self._n_obs = X.shape[0]
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
         partitions = self._partition_data(X)
         self.logger.info(f"Partitioned data into {len(partitions)} partitions")
@@ -195,6 +196,9 @@ class FastMCD(RobustCovariance):
 
     def _get_h(self, X: np.ndarray) -> int:
         n, p = X.shape
+        if isinstance(self.alpha, int) and self.alpha > 1 and n < self._n_obs:
+            # X is a partition of the data: use the corresponding proportion of it
+            return np.max([int(self.alpha / self._n_obs * n), int((n + p + 1) / 2)])
         if self.alpha is None:
             return int((n + p + 1) / 2)
         elif isinstance(self.alpha, int) and (n / 2 <= self.alpha <= n):
-- 
2.43.0


From d7d74cf737516e87704aaf1109534e29db57cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 17/30] fix: l1median does not loop forever when an iterate
 equals an observation

---
 robpy/utils/median.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index cfdef98..ae9a5bb 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -17,7 +17,9 @@ def l1median(X: np.ndarray) -> float:
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        W = 1 / d
+        W = np.divide(1, d, out=np.zeros_like(d), where=d > 0)  # skip points equal to mu_0
+        if not W.any():
+            return mu_0
         mu_1 = np.sum((X * W[:, np.newaxis]).T / np.sum(W), axis=1)
         if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
             return mu_1
-- 
2.43.0


From 949be6f85faa29f823f28bd362d0c13e628e5142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 18/30] fix: PCALocantore handles observations equal to the
 center

---
 robpy/pca/spca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 11cc106..7496dda 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -37,7 +37,7 @@ class PCALocantore(RobustPCA):
         self.location_ = l1median(X)
         centered_X = X - self.location_
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        w = 1 / d
+        w = np.divide(1, d, out=np.zeros_like(d), where=d > 0)
         spatial_sign_covariance = (
             np.dot((centered_X * w[:, np.newaxis]).T, (centered_X * w[:, np.newaxis])) / n
         )
-- 
2.43.0


From 6eddb32eb6a7fa34ee8f19584ba94e476c438bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 19/30] fix: l1median takes the Vardi-Zhang step when an
 iterate equals an observation

---
 robpy/utils/median.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index ae9a5bb..f47560b 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -17,10 +17,14 @@ def l1median(X: np.ndarray) -> float:
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        W = np.divide(1, d, out=np.zeros_like(d), where=d > 0)  # skip points equal to mu_0
-        if not W.any():
+        W = np.divide(1, d, out=np.zeros_like(d), where=d > 0)
+        n_at_mu = np.sum(d == 0)
+        # observations equal to mu_0: Vardi, Y., & Zhang, C.-H. (2000). PNAS, 97(4), 1423-1426.
+        pull = np.linalg.norm(np.sum(centered_X * W[:, np.newaxis], axis=0)) if n_at_mu else np.inf
+        if n_at_mu >= pull:
             return mu_0
         mu_1 = np.sum((X * W[:, np.newaxis]).T / np.sum(W), axis=1)
+        mu_1 = mu_1 + (n_at_mu / pull) * (mu_0 - mu_1)
         if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
             return mu_1
         else:
-- 
2.43.0


From 5a44c8ab29ecc8939ce02618bf793d2e17bee86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 20/30] fix: power transform of integer data is not truncated
 to integers

---
 robpy/preprocessing/transfo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 53516fd..47f1157 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -264,7 +264,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             raise ValueError(
                 "Data values should be strictly positive for a Box-Cox transformation."
             )
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x - 1.0
@@ -342,7 +342,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.log(1.0 + x[positive_mask])
@@ -367,7 +367,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     ):
         """Rectified Yeo-Johnson transformation."""
 
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x
@@ -455,7 +455,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation inversed."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.exp(x[positive_mask]) - 1.0
-- 
2.43.0


From 615ea9023a504e982a5df3556535da93b3eb017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 21/30] fix: cellwise MCD imputations of integer data are not
 truncated to integers

---
 robpy/covariance/cellmcd.py      | 2 +-
 robpy/covariance/initial_ddcw.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 7f18c21..3bb66c7 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -118,7 +118,7 @@ class CellMCD(RobustCovariance):
         location = scaler.locations_ + location * scaler.scales_
         predictions = scaler.locations_ + predictions * scaler.scales_
         conditional_stds = np.sqrt(conditional_variances) * scaler.scales_
-        X_imputed = X.copy()
+        X_imputed = X.astype(float)
         X_imputed[W == 0] = predictions[W == 0]
         residuals = (X - predictions) / conditional_stds
         scaler_residuals = RobustScaler(scale_estimator=OneStepWrapping())
diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 9343ede..a90a122 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -67,7 +67,7 @@ class InitialDDCW(RobustCovariance):
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
             W[ordering[0 : int(n * 0.25)], i] = True
-        Zimp = np.copy(X)
+        Zimp = X.astype(float)
         Zimp[np.logical_or(W, np.isnan(X))] = ddc.impute(
             pd.DataFrame(X), impute_outliers=True
         ).to_numpy()[np.logical_or(W, np.isnan(X))]
-- 
2.43.0


From 09582c68ef759ded189d25ac6827b9888961dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 22/30] fix: rectified Yeo-Johnson with lambda 0 or 2 when the
 changepoint is on the other side of zero

---
 robpy/preprocessing/transfo.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 47f1157..da5492d 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -383,15 +383,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 xt[positive_mask] = ((1 + x[positive_mask]) ** my_lambda - 1.0) / my_lambda
                 if my_lambda == 2:
                     xt[mask_upper] = -np.log(1 - x[mask_upper])
-                    xt[mask_lower] = -np.log(1 - changepoint) + (
-                        x[mask_lower] - changepoint
-                    ) * 1 / (1 - changepoint)
                 else:
                     xt[mask_upper] = -((1 - x[mask_upper]) ** (2 - my_lambda) - 1) / (2 - my_lambda)
-                    changepoint_transf = self._transf_yeojohnson(changepoint, my_lambda)[0]
-                    xt[mask_lower] = changepoint_transf + (x[mask_lower] - changepoint) * (
-                        1 + np.abs(changepoint)
-                    ) ** (1 - my_lambda)
+                changepoint_transf = self._transf_yeojohnson(changepoint, my_lambda)[0]
+                xt[mask_lower] = changepoint_transf + (x[mask_lower] - changepoint) * (
+                    1 + np.abs(changepoint)
+                ) ** (1 - my_lambda)
             else:
                 mask_upper = x > changepoint
                 mask_lower = (x >= 0) & (x <= changepoint)
@@ -400,15 +397,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 )
                 if my_lambda == 0.0:
                     xt[mask_lower] = np.log(1 + x[mask_lower])
-                    xt[mask_upper] = np.log(1 + changepoint) + (x[mask_upper] - changepoint) * 1 / (
-                        1 + changepoint
-                    )
                 else:
                     xt[mask_lower] = ((1 + x[mask_lower]) ** my_lambda - 1) / my_lambda
-                    changepoint_transf = self._transf_yeojohnson(changepoint, my_lambda)[0]
-                    xt[mask_upper] = changepoint_transf + (x[mask_upper] - changepoint) * (
-                        1 + np.abs(changepoint)
-                    ) ** (my_lambda - 1)
+                changepoint_transf = self._transf_yeojohnson(changepoint, my_lambda)[0]
+                xt[mask_upper] = changepoint_transf + (x[mask_upper] - changepoint) * (
+                    1 + np.abs(changepoint)
+                ) ** (my_lambda - 1)
 
         if standardize_too:
             loc_scale = HuberOneStepM().fit(xt)
-- 
2.43.0


From 816bf68025c2ed264d38d59719db1377e7ba5931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 23/30] fix: Qn does not search forever when rounding orders y
 - trial differently from the differences

---
 robpy/univariate/qn.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/robpy/univariate/qn.py b/robpy/univariate/qn.py
index 949f7a5..344f3c8 100644
--- a/robpy/univariate/qn.py
+++ b/robpy/univariate/qn.py
@@ -60,8 +60,8 @@ class Qn(RobustScale):
             jhelp = (left + weight // 2).astype(int)
             work = y - y[n - jhelp]
             trial = weighted_median(work, weight)
-            P = np.searchsorted(-np.flip(y), trial - y, "left", np.arange(n))
-            Q = np.searchsorted(-np.flip(y), trial - y, "right", np.arange(n)) + 1
+            P = _count_differences(y, trial, np.less)
+            Q = _count_differences(y, trial, np.less_equal) + 1
             if knew <= np.sum(P):
                 right = P
                 nR = np.sum(P)
@@ -91,6 +91,22 @@ class Qn(RobustScale):
         self.location_ = self.location_func(X)
 
 
+def _count_differences(y: np.ndarray, trial: float, below: np.ufunc) -> np.ndarray:
+    """
+    For every element of the sorted array y, counts the differences with the elements of y that
+    are below trial by binary search. The differences themselves are compared, since y - trial can
+    be rounded differently, in which case the search in Qn might not terminate.
+    """
+    y_flipped = np.flip(y)
+    lower, upper = np.zeros(len(y), dtype=int), np.full(len(y), len(y))
+    while np.any(lower < upper):
+        middle = (lower + upper) // 2
+        is_below = (lower < upper) & below(y - y_flipped[np.minimum(middle, len(y) - 1)], trial)
+        upper = np.where(is_below, upper, middle)
+        lower = np.where(is_below, middle + 1, lower)
+    return lower
+
+
 def _get_small_sample_dn(n: int):
     """
     Calculates the correction factor for the Qn estimator at small samples.
-- 
2.43.0


From 04b546cbdbe882a7190e421d9803209ff86ad074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 24/30] fix: DetMCD with an observation equal to the
 coordinatewise median

---
 robpy/covariance/mcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index ae62c89..251f967 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -403,7 +403,7 @@ class DetMCD(RobustCovariance):
         S2 = np.corrcoef(R, rowvar=False)
         S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
-        w = 1 / znorm
+        w = np.divide(1, znorm, out=np.zeros_like(znorm), where=znorm > 0)
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
         S5 = np.cov(Z[idx, :], rowvar=False)
-- 
2.43.0


From d7118fb3b5b492dc77ddbe42bb06985f5c59a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 25/30] fix: DDC and CellMCD on data with a completely missing
 row

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 966d239..2402ea3 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -186,7 +186,7 @@ class DDC(OutlierMixin):
         """
         raw_t_values_ = np.nanmean(chi2.cdf(standardized_residuals**2, df=1), axis=1)
         if fit:
-            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_)
+            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_, ignore_nan=True)
         standardized_t_values_ = (
             raw_t_values_ - self.t_scale_est.location
         ) / self.t_scale_est.scale
-- 
2.43.0


From c0dab57e15eed5e380c18142ea22e3a35bb0ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 26/30] fix: DDC.impute refuses non-numeric data with a
 ValueError like fit and predict

---
 robpy/outliers/ddc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 2402ea3..6e6c5f4 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -201,6 +201,8 @@ class DDC(OutlierMixin):
                 f"Impute can only be called with the same data as fit. "
                 f"Received {X.shape[1]} columns, expected {self.cellwise_outliers_.shape[1]}"
             )
+        if X.select_dtypes(include=np.number).shape != X.shape:
+            raise ValueError("Only numerical data is supported.")
         X = X.replace([np.inf, -np.inf], np.nan)
         Z = self._standardize(X)
         # step 2: univariate outlier detection
-- 
2.43.0


From dab702a3490565b4005153466c1fdd144d2d2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 27/30] fix: CellMCD with a quantile above 0.9973 failed on
 columns with too many cells beyond 3

---
 robpy/covariance/cellmcd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 3bb66c7..c2514d2 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -643,7 +643,8 @@ class CellMCD(RobustCovariance):
 
         X = np.copy(X_scaled)
 
-        cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
+        # cells beyond 3 are never used, whatever the quantile (see calculate_covariance)
+        cutoff = min(np.sqrt(chi2.ppf(self.quantile, 1)), 3)
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
         if np.max(n_marginal_outliers) > 1 - self.alpha_:
             raise ValueError(
-- 
2.43.0


From 8a16c0798d0f94e9866da1e5f98af805bba67242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 28/30] fix: UnivariateMCD with alpha=1 gave another scale for
 a series than for an array

---
 robpy/univariate/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robpy/univariate/base.py b/robpy/univariate/base.py
index 39452d6..67a8560 100644
--- a/robpy/univariate/base.py
+++ b/robpy/univariate/base.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import numpy as np
+import pandas as pd
 from sklearn.exceptions import NotFittedError
 from abc import abstractmethod, ABC
 from typing import Protocol
@@ -22,6 +23,8 @@ class RobustScale(ABC):
         self.can_handle_nan = can_handle_nan
 
     def fit(self, X: np.ndarray, ignore_nan: bool = False) -> RobustScale:
+        if isinstance(X, pd.Series):
+            X = X.values  # np.var of a series divides by n - 1
         if len(X.shape) != 1:
             raise ValueError(
                 f"X must be univariate, but received a matrix with dimensions {X.shape}"
-- 
2.43.0


From ad5f047c0f3a856ab138572ba2a874955663a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 29/30] fix: small and unsigned integer data overflowed in the
 univariate estimators, the outlyingness and the power transform

---
 robpy/preprocessing/transfo.py | 4 ++++
 robpy/univariate/base.py       | 2 ++
 robpy/utils/outlyingness.py    | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index da5492d..eddea04 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -54,6 +54,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
+        if x.dtype.kind in "iu":
+            x = x.astype(float)  # small or unsigned integers overflow
         self._get_method(x)
         x_sorted = np.sort(x)
 
@@ -103,6 +105,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
+        if x.dtype.kind in "iu":
+            x = x.astype(float)  # small or unsigned integers overflow
         if self.method_ == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError(
diff --git a/robpy/univariate/base.py b/robpy/univariate/base.py
index 67a8560..5ad4c8b 100644
--- a/robpy/univariate/base.py
+++ b/robpy/univariate/base.py
@@ -29,6 +29,8 @@ class RobustScale(ABC):
             raise ValueError(
                 f"X must be univariate, but received a matrix with dimensions {X.shape}"
             )
+        if X.dtype.kind in "iu":
+            X = X.astype(float)  # differences of small or unsigned integers overflow
         if not self.can_handle_nan and not ignore_nan and np.isnan(X).any():
             raise ValueError("The data X contains NaN and estimator cannot handle missing values.")
         elif ignore_nan and np.isnan(X).any():
diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 1dc5c3e..60369ac 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -68,7 +68,7 @@ def _get_random_direction(
         np.ndarray: vector of shape (p, ) indicating the direction.
     """
     rng = np.random.default_rng(random_seed)
-    points = X[rng.choice(X.shape[0], n_points, replace=False)]
+    points = X[rng.choice(X.shape[0], n_points, replace=False)].astype(float)
 
     if n_points == 2:
         d = points[0] - points[1]
-- 
2.43.0


From c6d2e6686d3f3cbe72d8270316b6bef34f739a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 30/30] fix: DataCleaner.fit forgets what transform found in
 earlier data

---
 robpy/preprocessing/data_cleaner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 0833817..9368497 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -65,6 +65,10 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             X (pd.DataFrame): The input dataset.
         """
 
+        # what transform found in other data is not reported for this fit
+        for attribute in ("cols_rownumbers", "cols_missings", "rows_missings"):
+            self.__dict__.pop(attribute, None)
+
         self._get_non_numeric_columns_to_drop(X)
 
         self._get_discrete_columns_to_drop(X)
-- 
2.43.0

