From de59645a572e965d37d9f4e7f1327016e0bf05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 01/60] fix: include the linear term of the Tweedie deviance
 for negative targets

For power < 0 the targets may be negative; the term -y * mu^(1-p) / (1-p) was
only added for positive ones, so deviance() was not the sum of unit_deviance()
and fits minimised a wrong objective.
---
 src/glum/_functions.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_functions.pyx b/src/glum/_functions.pyx
index deab5ae..0fe838b 100644
--- a/src/glum/_functions.pyx
+++ b/src/glum/_functions.pyx
@@ -385,6 +385,8 @@ def tweedie_deviance(
         if y[i] > 0:
             yo1mp = y[i] / (1 - p)
             D += weights[i] * ((y[i] ** (1 - p)) * yo1mp / (2 - p) - yo1mp * mu1mp)
+        elif y[i] < 0:  # only possible for p <= 0
+            D += -weights[i] * y[i] / (1 - p) * mu1mp
 
     return 2 * D
 
-- 
2.43.0


From 36b8f814095fc1fea5a6c990c5312545614eee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 02/60] fix: derivative of the unit variance of a Tweedie with
 power 0 at mean 0

0 * mu ** -1 is NaN at mu = 0; the unit variance of the normal is constant.
---
 src/glum/_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index bb6f8a0..307f56d 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -620,6 +620,8 @@ class TweedieDistribution(ExponentialDispersionModel):
 
     def unit_variance_derivative(self, mu):  # noqa D
         p = self.power  # noqa: F841
+        if p == 0:  # `0 * mu ** -1` is undefined at `mu = 0`
+            return 0.0 if np.isscalar(mu) else np.zeros_like(mu)
         return numexpr.evaluate("p * mu ** (p - 1)")
 
     def deviance(self, y, mu, sample_weight=None) -> float:  # noqa D
-- 
2.43.0


From 2d7747e9c2ede3c907d5296ccd3b49012ff584a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 03/60] fix: do not serve information criteria of an earlier
 fit after refitting

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a7f0fd2..076f5b6 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2731,6 +2731,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
 
         self._validate_hyperparameters()
         self._align_info_logs_emitted: set[str] = set()
+        self.__dict__.pop("_info_criteria", None)  # belongs to an earlier fit
 
         # NOTE: This function checks if all the entries in X and y are
         # finite. That can be expensive. But probably worthwhile.
-- 
2.43.0


From 2013757248c5da09e461c85697ba2dc55b07a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 04/60] fix: wald_test(R=...) without r tests that the
 combinations are zero

---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 076f5b6..2dd8788 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1214,7 +1214,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         }
 
         if R is not None:
-            return self._wald_test_matrix(R=R, r=np.asarray(r), **kwargs)
+            r = np.asarray(r) if r is not None else None
+            return self._wald_test_matrix(R=R, r=r, **kwargs)
         if features is not None:
             return self._wald_test_feature_names(features=features, values=r, **kwargs)
         if terms is not None:
-- 
2.43.0


From d4fe0550b2ad387dbe57347fc081ff90423273f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 05/60] fix: accept cluster labels other than 0..G-1

---
 src/glum/_glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 2dd8788..d70e153 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3336,9 +3336,10 @@ def setup_p2(
 
 def _group_sum(groups: np.ndarray, data: tm.MatrixBase):
     """Sum over groups."""
-    ngroups = len(np.unique(groups))
+    labels, codes = np.unique(groups, return_inverse=True)
+    ngroups = len(labels)
     out = np.empty((ngroups, data.shape[1]))
-    eye_n = sps.eye(ngroups, format="csc")[:, groups]
+    eye_n = sps.eye(ngroups, format="csc")[:, codes]
     for i in range(data.shape[1]):
         out[:, i] = safe_toarray(eye_n @ data.getcol(i).unpack()).ravel()
     return out
-- 
2.43.0


From d76f92ffc77b4e3c4b78a6850f498ccd69d205b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 06/60] fix: account for the offset in the largest alpha of the
 automatic path

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index d70e153..11e7620 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -486,6 +486,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 sample_weight=w,
                 link=self._link_instance,
                 distribution=self._family_instance,
+                eta=offset,
             )
         else:
             intercept_offset = 0
-- 
2.43.0


From 3afe7fa738d05d330677a1be8b8600910e5763eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 07/60] fix: accept the documented P1=None and P2=None

---
 src/glum/_glm.py   | 3 ++-
 src/glum/_utils.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 11e7620..284aec1 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1931,7 +1931,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if self.check_input:
             # check if P1 has only non-negative values, negative values might
             # indicate group lasso in the future.
-            if not isinstance(self.P1, str):  # if self.P1 != 'identity':
+            # if self.P1 != 'identity':
+            if self.P1 is not None and not isinstance(self.P1, str):
                 if not np.all(np.asarray(self.P1) >= 0):
                     raise ValueError("P1 must not have negative values.")
 
diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 320cd52..42c121f 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -131,14 +131,14 @@ def add_missing_categories(
 
 def expand_categorical_penalties(
     penalty, X: nw.DataFrame, drop_first: bool, has_missing_category: dict[str, bool]
-) -> Union[np.ndarray, str]:
+) -> Union[np.ndarray, str, None]:
     """Determine penalty matrices ``P1`` or ``P2`` after expanding categorical columns.
 
     If ``P1`` or ``P2`` has the same shape as ``X`` before expanding categorical
     columns, we assume that the penalty at the location of categorical columns
     is the same for all levels.
     """
-    if isinstance(penalty, str):
+    if penalty is None or isinstance(penalty, str):
         return penalty
     if not sparse.issparse(penalty):
         penalty = np.asanyarray(penalty)
-- 
2.43.0


From 250d5b8689715986af390857771e704d76fe2c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 08/60] fix: forget the model specs and categories of an
 earlier fit when refitting

---
 src/glum/_glm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 284aec1..6638512 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1982,6 +1982,17 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         P1 = self.P1
         P2 = self.P2
 
+        # Forget how an earlier fit read its data.
+        for attr in (
+            "X_model_spec_",
+            "y_model_spec_",
+            "_categorical_levels_",
+            "_feature_dtypes_",
+            "has_missing_category_",
+            "_alphas",
+        ):
+            self.__dict__.pop(attr, None)
+
         copy_X = self._should_copy_X()
         drop_first = getattr(self, "drop_first", False)
 
-- 
2.43.0


From c9e50751b2d93e5ee4b387571f0831d298b086d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 09/60] fix: give weights and offsets the floating precision of
 the data

---
 src/glum/_validation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index a6b2c6d..e86b5c1 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -153,6 +153,11 @@ def check_inequality_constraints(
     return A_ineq, b_ineq
 
 
+def _float_dtype(dtype):
+    """Return ``dtype`` if it holds real numbers, and double precision otherwise."""
+    return dtype if np.issubdtype(dtype, np.floating) else np.float64
+
+
 def check_offset(
     offset: typing.Optional[typing.Union[VectorLike, float]], n_rows: int, dtype
 ) -> typing.Optional[np.ndarray]:
@@ -162,8 +167,9 @@ def check_offset(
     """
     if offset is None:
         return None
+    dtype = _float_dtype(dtype)
     if np.isscalar(offset):
-        return np.full(n_rows, offset)
+        return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
         offset,
@@ -190,6 +196,7 @@ def check_weights(
     force_all_finite: bool = True,
 ) -> np.ndarray:
     """Check that sample weights are non-negative and have the right shape."""
+    dtype = _float_dtype(dtype)
     if sample_weight is None:
         return np.ones(n_samples, dtype=dtype)
     if np.isscalar(sample_weight):
@@ -201,7 +208,7 @@ def check_weights(
         sample_weight,
         accept_sparse=False,
         ensure_2d=False,
-        dtype=[np.float64, np.float32],
+        dtype=dtype,
         **{keyword_finiteness: force_all_finite},
     )
 
-- 
2.43.0


From 4a2e4490862f5c38efa2ed8221330bfae5f0db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 10/60] fix: accept penalty weights P1 of any real type with
 single precision data

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 6638512..c7873fd 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3260,7 +3260,7 @@ def setup_p1(
     else:
         P1 = np.atleast_1d(P1)
         try:
-            P1 = P1.astype(dtype, casting="safe", copy=False)  # type: ignore
+            P1 = P1.astype(dtype, casting="same_kind", copy=False)  # type: ignore
         except TypeError as e:
             raise TypeError(
                 "The given P1 cannot be converted to a numeric array; "
-- 
2.43.0


From 2d6c981ebbc84e8fd252296991302755ac3cc21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 11/60] fix: express start values and warm starts in the scale
 of the solver

---
 src/glum/_glm.py    | 29 +++++++++++++++++++----------
 src/glum/_glm_cv.py | 12 +++++++++++-
 src/glum/_utils.py  | 21 +++++++++++++--------
 3 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index c7873fd..3aebfbe 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -254,14 +254,19 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         col_means: np.ndarray,
         col_stds: Optional[np.ndarray],
         dtype,
+        lower_bounds: Optional[np.ndarray] = None,
+        upper_bounds: Optional[np.ndarray] = None,
     ) -> np.ndarray:
+        """Start values for, and subject to bounds on, the standardized problem."""
         if self.warm_start and hasattr(self, "coef_"):
             coef = self.coef_  # type: ignore
             intercept = self.intercept_  # type: ignore
             if self.fit_intercept:
                 coef = np.concatenate((np.array([intercept]), coef))
-            if self._center_predictors:
-                standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            coef = np.array(coef, dtype=_float_itemsize_to_dtype[X.dtype.itemsize])
+            standardize_warm_start(
+                coef, col_means, col_stds, self.fit_intercept  # type: ignore
+            )
 
         elif self.start_params is None:
             if self.fit_intercept:
@@ -293,26 +298,28 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     f"({len(col_means) + self.fit_intercept},)."
                 )
 
-            if self._center_predictors:
-                standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            coef = coef.astype(_float_itemsize_to_dtype[X.dtype.itemsize])
+            standardize_warm_start(
+                coef, col_means, col_stds, self.fit_intercept  # type: ignore
+            )
 
         # If starting values are outside the specified bounds (if set),
         # bring the starting value exactly at the bound.
         idx = int(self.fit_intercept)
-        if self.lower_bounds is not None:
-            if np.any(coef[idx:] < self.lower_bounds):
+        if lower_bounds is not None:
+            if np.any(coef[idx:] < lower_bounds):
                 warnings.warn(
                     "lower_bounds above starting value. Setting the starting values "
                     "to max(start_params, lower_bounds)."
                 )
-                coef[idx:] = np.maximum(coef[idx:], self.lower_bounds)
-        if self.upper_bounds is not None:
-            if np.any(coef[idx:] > self.upper_bounds):
+                coef[idx:] = np.maximum(coef[idx:], lower_bounds)
+        if upper_bounds is not None:
+            if np.any(coef[idx:] > upper_bounds):
                 warnings.warn(
                     "upper_bounds below starting value. Setting the starting values "
                     "to min(start_params, upper_bounds)."
                 )
-                coef[idx:] = np.minimum(coef[idx:], self.upper_bounds)
+                coef[idx:] = np.minimum(coef[idx:], upper_bounds)
 
         return coef
 
@@ -2847,6 +2854,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             self.col_means_,
             self.col_stds_,
             dtype=[np.float64, np.float32],
+            lower_bounds=lower_bounds,
+            upper_bounds=upper_bounds,
         )
 
         #######################################################################
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 612ef4f..6b8030f 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -731,6 +731,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 self.col_means_,
                 self.col_stds_,
                 dtype=[np.float64, np.float32],
+                lower_bounds=lower_bounds,
+                upper_bounds=upper_bounds,
             )
 
             if self.check_input:
@@ -861,7 +863,15 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
         coef = self._get_start_coef(
-            X, y, sample_weight, offset, self.col_means_, self.col_stds_, dtype=X.dtype
+            X,
+            y,
+            sample_weight,
+            offset,
+            self.col_means_,
+            self.col_stds_,
+            dtype=X.dtype,
+            lower_bounds=lower_bounds,
+            upper_bounds=upper_bounds,
         )
 
         if len(l1_ratio) > 1:
diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 42c121f..0c89d6f 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -272,15 +272,20 @@ def standardize(
 
 
 def standardize_warm_start(  # noda D
-    coef: np.ndarray, col_means: np.ndarray, col_stds: Optional[np.ndarray]
+    coef: np.ndarray,
+    col_means: np.ndarray,
+    col_stds: Optional[np.ndarray],
+    fit_intercept: bool = True,
 ) -> None:
-    if col_stds is None:
-        coef[0] += np.squeeze(col_means).dot(coef[1:])
-    else:
-        coef[1:] *= col_stds
-        coef[0] += np.squeeze(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
-            coef[1:]
-        )
+    idx = int(fit_intercept)
+    inv_col_stds = (
+        np.ones_like(coef[idx:])
+        if col_stds is None
+        else _one_over_var_inf_to_val(col_stds, 1.0)
+    )
+    coef[idx:] /= inv_col_stds
+    if fit_intercept:
+        coef[0] += np.squeeze(col_means * inv_col_stds).dot(coef[idx:])
 
 
 def unstandardize(  # noda D
-- 
2.43.0


From f82ac8dda07fc29b66b600226e2733739ad13e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 12/60] fix: linear predictor with a series as offset is an
 array

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 3aebfbe..8a22174 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -918,11 +918,11 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if alpha_index is None:
             xb = X @ coef_path + intercept_path
             if offset is not None:
-                xb += offset
+                xb += np.asanyarray(offset)
         elif np.isscalar(alpha_index):  # `None` doesn't qualify
             xb = X @ coef_path[alpha_index] + intercept_path[alpha_index]  # type: ignore
             if offset is not None:
-                xb += offset
+                xb += np.asanyarray(offset)
         else:
             _xb = []
             for idx in alpha_index:  # type: ignore
-- 
2.43.0


From 50f42d2295075669c27343dda2287f9bbf2fd92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 13/60] fix: cross-validate with splitters that need data to
 count their folds

---
 src/glum/_glm_cv.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 6b8030f..259ddc5 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -804,24 +804,26 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         paths_data = joblib.Parallel(n_jobs=self.n_jobs, prefer="processes")(jobs)
 
+        n_folds = len(paths_data) // len(l1_ratio)
+
         self.intercept_path_ = np.reshape(
             [elmt[0] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_folds, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.coef_path_ = np.reshape(
             [elmt[1] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_folds, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.deviance_path_ = np.reshape(
             [elmt[2] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_folds, len(l1_ratio), len(alphas[0])),
         )
 
         self.train_deviance_path_ = np.reshape(
             [elmt[3] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_folds, len(l1_ratio), len(alphas[0])),
         )
 
         avg_deviance = self.deviance_path_.mean(axis=0)  # type: ignore
-- 
2.43.0


From 2e7dfe2a18157f66c9cb15a940060e62e0141b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 14/60] fix: cross-validation rejects malformed bounds and
 inequality constraints

---
 src/glum/_glm_cv.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 259ddc5..0ad5fcb 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -1,4 +1,3 @@
-import copy
 from collections.abc import Mapping, Sequence
 from typing import Any, Optional, Union
 
@@ -14,7 +13,7 @@ from ._linalg import _safe_lin_pred, is_pos_semidef
 from ._link import Link, LogLink
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
-from ._validation import check_bounds
+from ._validation import check_bounds, check_inequality_constraints
 
 
 class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
@@ -637,11 +636,18 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
         elif self.A_ineq is not None and self.b_ineq is not None:
-            A_ineq = copy.copy(self.A_ineq)
-            b_ineq = copy.copy(self.b_ineq)
+            A_ineq, b_ineq = self.A_ineq, self.b_ineq
         else:
             A_ineq, b_ineq = None, None
 
+        A_ineq, b_ineq = check_inequality_constraints(
+            A_ineq, b_ineq, n_features=X.shape[1], dtype=X.dtype
+        )
+
+        if (lower_bounds is not None) and (upper_bounds is not None):
+            if np.any(lower_bounds > upper_bounds):
+                raise ValueError("Upper bounds must be higher than lower bounds.")
+
         cv = skl.model_selection.check_cv(self.cv)
 
         def _fit_path(
-- 
2.43.0


From eb931c46130adf52b8144206e34c26c670260dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 15/60] fix: reject L1 penalties along a path with solvers that
 would ignore them

---
 src/glum/_glm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 8a22174..4519b5a 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -689,6 +689,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         A_ineq: Optional[np.ndarray],
         b_ineq: Optional[np.ndarray],
     ) -> np.ndarray:
+        if self._solver != "irls-cd" and np.any(P1_no_alpha * np.max(alphas) > 0):
+            raise ValueError(
+                f"The chosen solver (solver={self._solver}) can't deal "
+                "with L1 penalties."
+            )
+
         self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
-- 
2.43.0


From 021143d41bc58abb7d4f334752447447e6e96b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 16/60] fix: score accepts targets given as a list or polars
 series

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 4519b5a..3136d04 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1798,6 +1798,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         float
             D^2 of self.predict(X) w.r.t. y.
         """
+        y = np.asarray(y)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
         mu = self.predict(X, offset=offset, context=context)
-- 
2.43.0


From 722ffeea00c72951758dd2e7f7aa600c835ee4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 17/60] fix: no log-likelihood for Tweedie families with
 negative power

---
 src/glum/_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 307f56d..515f80f 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -749,7 +749,7 @@ class TweedieDistribution(ExponentialDispersionModel):
             return poisson_log_likelihood(y, sample_weight, mu, 1.0)
         elif p == 2:
             return gamma_log_likelihood(y, sample_weight, mu, float(dispersion))
-        elif p < 2:
+        elif 1 < p < 2:
             return tweedie_log_likelihood(
                 y, sample_weight, mu, float(p), float(dispersion)
             )
-- 
2.43.0


From c42dfae836b4d186adcf5370dff54f95967797b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 18/60] fix: recognise singular and large sparse penalty
 matrices as positive semi-definite

---
 src/glum/_linalg.py | 49 ++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 9ccb4ea..5cee5b9 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -1,9 +1,9 @@
-import typing
 from typing import Optional, Union
 
 import numpy as np
 import tabmat as tm
 from scipy import linalg, sparse
+from scipy.sparse.linalg import splu
 
 from ._utils import safe_toarray
 
@@ -22,30 +22,29 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
         return not any_negative
 
     # 2d case
-    # About -6e-7 for 32-bit, -1e-15 for 64-bit
-    epsneg = -10 * np.finfo(np.result_type(float, p.dtype)).epsneg
-
-    if sparse.issparse(p):
-        # Computing eigenvalues for sparse matrices is inefficient. If the matrix is
-        # not huge, convert to dense. Otherwise, calculate 10% of its eigenvalues.
-        p = typing.cast(sparse.spmatrix, p)
-        if p.shape[0] < 2000:
-            eigenvalues = linalg.eigvalsh(p.toarray())
-        else:
-            n_evals_to_compuate = p.shape[0] // 10 + 1
-            sigma = -1000 * epsneg  # start searching near this value
-            which = "SA"  # find smallest algebraic eigenvalues first
-            eigenvalues = linalg.eigsh(
-                p,
-                k=n_evals_to_compuate,
-                sigma=sigma,
-                which=which,
-                return_eigenvectors=False,
-            )
-    else:  # dense
-        eigenvalues = linalg.eigvalsh(p)
-
-    return np.all(eigenvalues >= epsneg)
+    if sparse.issparse(p) and p.shape[0] < 2000:
+        p = p.toarray()  # computing eigenvalues of sparse matrices is inefficient
+
+    dtype = p.dtype if np.issubdtype(p.dtype, np.floating) else np.dtype(float)
+    norm = abs(p).sum(axis=0).max()  # bounds the largest eigenvalue
+    tolerance = 10 * np.finfo(dtype).epsneg * max(1.0, p.shape[0] * norm)
+
+    if not sparse.issparse(p):
+        return np.all(linalg.eigvalsh(p) >= -tolerance)
+
+    # A symmetric matrix is positive definite if and only if all the pivots of its
+    # symmetric factorization are positive.
+    shifted = p.astype(float) + tolerance * sparse.eye(p.shape[0])
+    try:
+        lu = splu(
+            shifted.tocsc(),
+            permc_spec="MMD_AT_PLUS_A",
+            diag_pivot_thresh=0.0,
+            options={"SymmetricMode": True},
+        )
+    except RuntimeError:  # singular
+        return False
+    return np.array_equal(lu.perm_r, lu.perm_c) and np.all(lu.U.diagonal() > 0)
 
 
 def _safe_lin_pred(
-- 
2.43.0


From 5b8d92ec6c77b0058efb6364663b56cd55f8f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 19/60] fix: constrain ordered categories in their declared
 order

---
 src/glum/_formula.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 40c381c..5550136 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -111,15 +111,15 @@ def _group_columns_by_factor(
     return dict(groups)
 
 
-def _sort_key(member: tuple[int, str | None]) -> tuple[float, str]:
-    """Sort key for (col_idx, factor_idx): numeric first, then lexicographic."""
-    _, idx = member
+def _sort_key(member: tuple[int, str | None]) -> tuple[float, int]:
+    """Sort key for (col_idx, factor_idx): numeric first, then column order."""
+    col_idx, idx = member
     if idx is None:
-        return (0.0, "")
+        return (0.0, col_idx)
     try:
-        return (float(idx), "")
+        return (float(idx), col_idx)
     except ValueError:
-        return (float("inf"), idx)
+        return (float("inf"), col_idx)
 
 
 def _build_monotonic_constraints(
-- 
2.43.0


From e760a00a341bed14b809910af12048a5a9329608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 20/60] fix: do not report convergence when the score is not
 finite

---
 src/glum/_solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index d7e6d0c..fb1c770 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -611,7 +611,10 @@ def check_convergence(
         data.has_upper_bounds,
         data._upper_bounds,
     )
-    gradient_converged = norm_min_subgrad < state.data.gradient_tol
+    # Comparisons hide non-finite scores from the norm above.
+    gradient_converged = norm_min_subgrad < state.data.gradient_tol and bool(
+        np.isfinite(state.score).all()
+    )
 
     # Simple L2 step length convergence criteria
     step_size = linalg.norm(state.step)
-- 
2.43.0


From 0d3fe28e4e9118d4774ca00b6c511ec15380df46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 21/60] fix: recognise coefficients that a step takes to their
 bound up to rounding

---
 src/glum/_solvers.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index fb1c770..c9fe39c 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -755,6 +755,26 @@ def identify_active_set(state: IRLSState, data: IRLSData):
     return active_set
 
 
+def _snap_to_bounds(new_coef, old_coef, data: IRLSData):
+    """
+    Put coefficients on the bound that they reached up to rounding.
+
+    The inner solver stops coefficients exactly at their bounds, but adding the
+    step to the old coefficients can miss the bound by some rounding error. A
+    coefficient next to a bound would not be recognised as being constrained.
+    """
+    eps = 4 * np.finfo(new_coef.dtype).eps
+    coef = new_coef[data.intercept_offset :]
+    tol = eps * np.maximum(np.abs(coef), np.abs(old_coef[data.intercept_offset :]))
+    for has_bounds, bounds in (
+        (data.has_lower_bounds, data._lower_bounds),
+        (data.has_upper_bounds, data._upper_bounds),
+    ):
+        if has_bounds:
+            coef[:] = np.where(np.abs(coef - bounds) <= tol, bounds, coef)
+    return new_coef
+
+
 @timeit("line_search_runtime")
 def line_search(state: IRLSState, data: IRLSData, d: np.ndarray):
     """
@@ -801,7 +821,7 @@ def line_search(state: IRLSState, data: IRLSData, d: np.ndarray):
     factor = 1.0
     for _k in range(20):
         step = factor * d
-        coef_wd = state.coef + step
+        coef_wd = _snap_to_bounds(state.coef + step, state.coef, data)
         eta_wd, mu_wd, obj_val_wd, coef_wd_P2 = _update_predictions(
             state, data, coef_wd, X_dot_d, factor=factor
         )
@@ -847,7 +867,7 @@ def line_search(state: IRLSState, data: IRLSData, d: np.ndarray):
     # of iterations since we aren't calculating eta or mu from scratch but
     # instead adding the delta from the previous iteration. Maybe we should
     # completely recompute eta every N iterations?
-    return state.coef + step, step, eta_wd, mu_wd, obj_val_wd, coef_wd_P2
+    return coef_wd, step, eta_wd, mu_wd, obj_val_wd, coef_wd_P2
 
 
 def _get_obj_and_derivative(
-- 
2.43.0


From 05ff5309622bf50337810e37bb2415051af609f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 22/60] fix: monotonic solver releases constraints that do not
 bind before it converges

---
 src/glum/_solvers.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index c9fe39c..c7d39e4 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -1092,6 +1092,14 @@ def _monotonic_irls_solver(
 
             if penalty_changed:
                 state.hessian_initialized = False
+                # The objective and its gradient include the penalty.
+                state.eta = np.zeros_like(state.eta)
+                state.eta, state.mu, state.obj_val, coef_P2 = _update_predictions(
+                    state, data, state.coef
+                )
+                state.gradient_rows, state.score, state.hessian_rows = update_quadratic(
+                    state, data, coef_P2
+                )
 
             state.old_active_set = state.active_set
             state.active_set = identify_active_set(state, data)
@@ -1124,8 +1132,16 @@ def _monotonic_irls_solver(
             ) = check_convergence(state, data)
 
             if state.converged:
-                violations = A_ineq @ state.coef[idx:] - b_ineq
-                if np.any(violations > 1e-6):
+                new_violations = A_ineq @ state.coef[idx:] - b_ineq
+                # The quadratic penalty turns violated constraints into
+                # equalities. One that ends up on the feasible side, with a
+                # gradient that pulls it towards its bound, must be released.
+                pull = constraint_lam * new_violations[violations > 0]
+                if (
+                    np.any(new_violations > 1e-6)
+                    or np.any(pull < -data.gradient_tol)
+                    or (np.any(new_violations > 0) and constraint_lam < constraint_lam_max)
+                ):
                     state.converged = False
 
             state._record_iteration()
-- 
2.43.0


From f0d2e29ece3d7a4bda1ccb467f78e417573c83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 23/60] fix: Tweedie log-likelihood of tiny targets with large
 dispersion

---
 src/glum/_functions.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glum/_functions.pyx b/src/glum/_functions.pyx
index 0fe838b..a525ed9 100644
--- a/src/glum/_functions.pyx
+++ b/src/glum/_functions.pyx
@@ -1,7 +1,7 @@
 from cython cimport floating
 from cython.parallel import prange
 
-from libc.math cimport M_PI, ceil, exp, floor, lgamma, log
+from libc.math cimport M_PI, ceil, exp, floor, fmax, lgamma, log
 
 ctypedef fused numeric:
     short
@@ -425,7 +425,10 @@ cdef floating _tweedie_normalization(floating y, floating power, floating disper
 
     cdef int j, j_lower, j_upper
 
-    cdef floating j_max = exp((2 - power) * log(y) - log(dispersion) - log(2 - power))
+    # The summands are indexed by the integers from one onwards.
+    cdef floating j_max = fmax(
+        exp((2 - power) * log(y) - log(dispersion) - log(2 - power)), 1.0
+    )
     cdef floating w_max = _log_w_j(y, power, dispersion, j_max)
     cdef floating w_summand = 0.0
 
-- 
2.43.0


From eef64cbd10aaf21afcac7194fc9e4213d848f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 24/60] fix: binomial log-likelihood accepts lists and
 unaligned series

---
 src/glum/_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 515f80f..011dc5e 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -1329,6 +1329,8 @@ class BinomialDistribution(ExponentialDispersionModel):
         dispersion : float, optional (default=1)
             Ignored.
         """
+        y, mu, sample_weight = _as_float_arrays(y, mu, sample_weight)
+
         ll = special.xlogy(y, mu) + special.xlogy(1 - y, 1 - mu)
         return np.sum(ll) if sample_weight is None else np.dot(ll, sample_weight)
 
-- 
2.43.0


From f86a8b4ac58ca7428eda7c29bd11f73ff28a11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 25/60] fix: trust-constr with single precision sparse data

scipy evaluates the objective at double precision points, which tabmat
refuses to multiply with a single precision sparse matrix.
---
 src/glum/_solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index c7d39e4..994d7a6 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -880,6 +880,9 @@ def _get_obj_and_derivative(
     link: Link,
     offset: np.ndarray = None,
 ):
+    # scipy's optimizers may hand back double precision when X is single precision,
+    # and products with a sparse matrix need a common precision.
+    coef = np.asarray(coef, dtype=X.dtype)
     mu, devp = family._mu_deviance_derivative(coef, X, y, sample_weight, link, offset)
     dev = family.deviance(y, mu, sample_weight)
     intercept = coef.size == X.shape[1] + 1
-- 
2.43.0


From 821743c2f60ba91c77474a8d0c1c71457d60dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 26/60] fix: covariance matrix of integer data

covariance_matrix and std_errors did not convert X to floating point as fit
does, so they raised a TypeError for data that fit accepts.
---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 3136d04..3029fe7 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1646,7 +1646,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 X,
                 y,
                 accept_sparse=["csr", "csc", "coo"],
-                dtype="numeric",
+                dtype=[np.float64, np.float32],
                 copy=self._should_copy_X(),
                 ensure_2d=True,
                 allow_nd=False,
-- 
2.43.0


From aeb0ba85ab6424bfde487a21be3bbe03f3c7fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 27/60] fix: score accepts the targets that fit accepts

Targets of object dtype raised a TypeError in score, and a column vector was
broadcast against the vector of predictions.
---
 src/glum/_glm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 3029fe7..2d674e5 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1798,7 +1798,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         float
             D^2 of self.predict(X) w.r.t. y.
         """
-        y = np.asarray(y)
+        y = skl.utils.column_or_1d(y, warn=True)
+        if y.dtype.kind == "O":
+            y = y.astype(np.float64)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
         mu = self.predict(X, offset=offset, context=context)
-- 
2.43.0


From 03d329036d0aa8ebbac65e13d563ef3db5e0e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 28/60] fix: solver='auto' with an array of alphas and an L1
 penalty

The choice of the solver took the truth value of the whole array.
---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 2d674e5..1726639 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -401,8 +401,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                         np.all(np.asarray(self.l1_ratio) == 0)
                         or (
                             hasattr(self, "alpha")
-                            and self.alpha == 0
                             and not self.alpha_search
+                            and self.alpha == 0
                         )
                     )
                 ):
@@ -410,7 +410,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 elif np.all(np.asarray(self.l1_ratio) == 0):
                     self._solver = "irls-ls"
                 elif (
-                    hasattr(self, "alpha") and self.alpha == 0 and not self.alpha_search
+                    hasattr(self, "alpha") and not self.alpha_search and self.alpha == 0
                 ):
                     self._solver = "irls-ls"
                 else:
-- 
2.43.0


From e386ea764a4b9bd0f6ed1afbbcc5e60f8fe89e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 29/60] fix: cross-validation of a Tweedie(1.5) model with a
 link other than log

Two leftover assertions rejected a supported combination.
---
 src/glum/_glm_cv.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 0ad5fcb..340fbcf 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -10,7 +10,7 @@ from ._distribution import ExponentialDispersionModel
 from ._formula import capture_context
 from ._glm import GeneralizedLinearRegressorBase, setup_p1, setup_p2
 from ._linalg import _safe_lin_pred, is_pos_semidef
-from ._link import Link, LogLink
+from ._link import Link
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
 from ._validation import check_bounds, check_inequality_constraints
@@ -587,11 +587,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         #########
         # Checks
         self._set_up_for_fit(y)
-        if (
-            hasattr(self._family_instance, "_power")
-            and self._family_instance._power == 1.5  # type: ignore
-        ):
-            assert isinstance(self._link_instance, LogLink)
 
         l1_ratio = np.atleast_1d(self.l1_ratio)
 
@@ -691,12 +686,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 )
                 return self._family_instance.deviance(y_test, mu, sample_weight=w_test)
 
-            if (
-                hasattr(self._family_instance, "_power")
-                and self._family_instance._power == 1.5
-            ):
-                assert isinstance(self._link_instance, LogLink)
-
             P1_no_alpha = setup_p1(P1, X, X.dtype, 1, l1)
             P2_no_alpha = setup_p2(P2, X, _stype, X.dtype, 1, l1)
 
-- 
2.43.0


From c13f2b62876452531bb99f2c77b9ed6ccf9dfa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 30/60] fix: cross-validation with a threading backend

Concurrent folds wrote their column means, standard deviations and
coefficient paths to the same estimator.
---
 src/glum/_glm_cv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 340fbcf..1aa0383 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -1,3 +1,4 @@
+import copy
 from collections.abc import Mapping, Sequence
 from typing import Any, Optional, Union
 
@@ -660,6 +661,9 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             A_ineq,
             b_ineq,
         ):
+            # Folds may run in concurrent threads: do not share solver state.
+            self = copy.copy(self)
+
             x_train, y_train, w_train = (
                 X[train_idx, :],
                 y[train_idx],
-- 
2.43.0


From ada9149b81cb781dfed67878a6763ab576b46b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 31/60] fix: documented correction of clustered covariance
 matrices

The code applies (N - 1) / (N - p), as statsmodels and Stata do.
---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 1726639..d358fb3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1556,7 +1556,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         covariance matrix. However, instead of using :math:`\\mathbf{G}^{T}(
         \\hat{\\theta}\\mathbf{G}(\\hat{\\theta})` directly, we first sum over
         all the groups first. The finite-sample correction is affected as well,
-        becoming :math:`\\frac{M}{M-1}\\frac{N}{N-p}` where :math:`M` is the number
+        becoming :math:`\\frac{M}{M-1}\\frac{N-1}{N-p}` where :math:`M` is the number
         of groups.
 
         References
-- 
2.43.0


From 6276541d5ae2ef7f94a3223935a246b8e5f6a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 32/60] fix: wald_test detects redundant restrictions hidden by
 rounding

---
 src/glum/_glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index d358fb3..eccf369 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1263,8 +1263,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             raise ValueError("R and r must have the same number of rows")
         if R.shape[1] != beta.shape[0]:
             raise ValueError("R must have one column for each coefficient")
-        # There is no point in checking that R is full rank. If it is not, then
-        # solve(RVR, Rb_r) will raise an exception.
+        # Rounding can hide a rank deficiency from ``linalg.solve`` below.
+        if np.linalg.matrix_rank(R) < R.shape[0]:
+            raise linalg.LinAlgError("The restriction matrix is not full rank")
 
         beta = beta[:, np.newaxis]
         r = r[:, np.newaxis]
-- 
2.43.0


From 0716afe430c22e6a5e157c16a56f762713b5afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 33/60] fix: information criteria answer for the data and
 weights they are given

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index eccf369..a50a1c2 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3159,8 +3159,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
 
         context_: Optional[Mapping[str, Any]] = capture_context(context)
 
-        if not hasattr(self, "_info_criteria"):
-            self._compute_information_criteria(X, y, sample_weight, context=context_)
+        # Not cached: the caller may pass other weights this time.
+        self._compute_information_criteria(X, y, sample_weight, context=context_)
 
         if (
             self.alpha is None or (self.alpha is not None and self.alpha > 0)
-- 
2.43.0


From 54ae6e50ec8b98fb0623f818a7ba53be09c9a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 34/60] fix: drop the regularisation path of an earlier fit
 when refitting without one

---
 src/glum/_glm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a50a1c2..04b22d1 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2007,6 +2007,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             "_feature_dtypes_",
             "has_missing_category_",
             "_alphas",
+            "coef_path_",
+            "intercept_path_",
         ):
             self.__dict__.pop(attr, None)
 
-- 
2.43.0


From 2cb6fe7df24c9cd072c54bbe07e579eac67f454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 35/60] fix: information criteria of a model fitted along a
 list of alphas

---
 src/glum/_glm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 04b22d1..191d5b5 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3164,9 +3164,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         # Not cached: the caller may pass other weights this time.
         self._compute_information_criteria(X, y, sample_weight, context=context_)
 
-        if (
-            self.alpha is None or (self.alpha is not None and self.alpha > 0)
-        ) and self.l1_ratio < 1.0:
+        alpha = self._alphas[-1] if self.alpha_search else self.alpha
+        if (alpha is None or alpha > 0) and self.l1_ratio < 1.0:
             warnings.warn(
                 "There is no general definition for the model's degrees of "
                 + f"freedom under L2 (ridge) regularisation. The {crit} "
-- 
2.43.0


From f6515ec1fe15ee7060b3c65e6761dcd06461f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 36/60] fix: do not sort the indices of the caller's sparse
 matrix or add to the caller's formula context

---
 src/glum/_formula.py    | 2 ++
 src/glum/_glm.py        | 3 ++-
 src/glum/_validation.py | 9 ++++++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 5550136..123fb58 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -12,6 +12,8 @@ import numpy as np
 def capture_context(context) -> Mapping[str, Any] | None:
     if isinstance(context, int):
         context = context + 2
+    elif isinstance(context, dict):
+        context = context.copy()  # evaluating a formula adds to it
     return formulaic.utils.context.capture_context(context)
 
 
diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 191d5b5..c1effbf 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -72,6 +72,7 @@ from ._validation import (
     check_offset,
     check_weights,
     check_X_y_tabmat_compliant,
+    with_sorted_indices,
 )
 
 if packaging.version.parse(skl.__version__).release < (1, 6):
@@ -2189,7 +2190,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         sample_weight = sample_weight / weights_sum
 
         # Convert to wrapper matrix types
-        X = tm.as_tabmat(X)
+        X = tm.as_tabmat(with_sorted_indices(X))
 
         self.feature_names_ = X.get_names(type="column", missing_prefix="_col_")  # type: ignore
         self.term_names_ = X.get_names(type="term", missing_prefix="_col_")
diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index e86b5c1..d59f80c 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -17,6 +17,13 @@ else:
     keyword_finiteness = "ensure_all_finite"
 
 
+def with_sorted_indices(X):
+    """Copy a sparse ``X`` with unsorted indices, lest it be sorted in place later."""
+    if sparse.issparse(X) and X.format in ("csc", "csr") and not X.has_sorted_indices:
+        return X.sorted_indices()
+    return X
+
+
 def check_array_tabmat_compliant(mat: ArrayLike, drop_first: bool = False, **kwargs):
     to_copy = kwargs.get("copy", False)
 
@@ -47,7 +54,7 @@ def check_array_tabmat_compliant(mat: ArrayLike, drop_first: bool = False, **kwa
     if isinstance(mat, (tm.DenseMatrix, tm.SparseMatrix)):
         res = skl.utils.check_array(mat.unpack(), **kwargs)
     else:
-        res = skl.utils.check_array(mat, **kwargs)
+        res = with_sorted_indices(skl.utils.check_array(mat, **kwargs))
 
     if res is not mat and original_type in (tm.DenseMatrix, tm.SparseMatrix):
         res = original_type(
-- 
2.43.0


From cf4830c3316e8d97041047287a137ab75a7a6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 37/60] fix: match the levels of a polars Categorical to the
 columns of the design matrix

---
 src/glum/_glm.py   |  3 ++-
 src/glum/_utils.py | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index c1effbf..1d99c81 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -59,6 +59,7 @@ from ._utils import (
     add_missing_categories,
     align_df_categories,
     expand_categorical_penalties,
+    get_categorical_levels,
     is_contiguous,
     safe_toarray,
     standardize,
@@ -2086,7 +2087,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 X = cast(nw.DataFrame, nw.from_native(X))  # avoid inferring `Never`
 
                 self._categorical_levels_ = {
-                    col: X[col].cat.get_categories().to_list()
+                    col: get_categorical_levels(X[col])
                     for col, dtype in X.schema.items()
                     if isinstance(dtype, (nw.Categorical, nw.Enum))
                 }
diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 0c89d6f..473c197 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -11,6 +11,18 @@ from scipy import sparse
 _logger = logging.getLogger(__name__)
 
 
+def get_categorical_levels(column: nw.Series) -> list[str]:
+    """Levels of a categorical column, in the order of the columns of its design matrix.
+
+    The categories of a Polars Categorical are not per column and come in the order in
+    which they were first seen, whereas the design matrix has one column for each value
+    that is present, in sorted order.
+    """
+    if column.implementation.is_polars() and isinstance(column.dtype, nw.Categorical):
+        return column.drop_nulls().unique().sort().to_list()
+    return column.cat.get_categories().to_list()
+
+
 def align_df_categories(
     df: nw.DataFrame,
     categorical_levels: dict[str, list[str]],
-- 
2.43.0


From 9bc5e81ffbb74539d36c0b8d5df5378db73f849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 38/60] fix: evaluate formulas in the caller's context in every
 query, on both sides

---
 src/glum/_glm.py    | 29 ++++++++++++++++++-----------
 src/glum/_glm_cv.py |  1 +
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 1d99c81..4fc9d07 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -892,7 +892,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             alpha_index=alpha_index,
             coef_path=self.coef_path_ if use_path else self.coef_,
             intercept_path=self.intercept_path_ if use_path else self.intercept_,
-            context=context,
+            context=capture_context(context),
         )
 
     def _compute_linear_predictor(
@@ -1638,12 +1638,15 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     )
                 return self.covariance_matrix_
 
+            context = capture_context(context)
+
             if hasattr(self, "y_model_spec_"):
-                y = self.y_model_spec_.get_model_matrix(X).toarray().ravel()
+                y = self.y_model_spec_.get_model_matrix(X, context=context)
+                y = y.toarray().ravel()
                 # This has to go first because X is modified in the next line
 
             if nw.dependencies.is_into_dataframe(X):
-                X = self._convert_from_df(X, context=capture_context(context))
+                X = self._convert_from_df(X, context=context)
 
             X, y = check_X_y_tabmat_compliant(
                 X,
@@ -1806,7 +1809,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             y = y.astype(np.float64)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
-        mu = self.predict(X, offset=offset, context=context)
+        mu = self.predict(X, offset=offset, context=capture_context(context))
         y_mean: float = np.average(y, weights=sample_weight)
 
         dev = self.family_instance.deviance(y, mu, sample_weight=sample_weight)
@@ -3066,7 +3069,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("aic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "aic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def aicc(
         self,
@@ -3105,7 +3110,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        aicc = self._get_info_criteria("aicc", X, y, sample_weight, context=context)
+        aicc = self._get_info_criteria(
+            "aicc", X, y, sample_weight, context=capture_context(context)
+        )
 
         if not aicc:
             msg = "Model degrees of freedom should be more than training data points."
@@ -3149,7 +3156,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("bic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "bic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def _get_info_criteria(
         self,
@@ -3157,14 +3166,12 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         X: ArrayLike,
         y: VectorLike,
         sample_weight: Optional[ArrayLike] = None,
-        context: Optional[Union[int, Mapping[str, Any]]] = None,
+        context: Optional[Mapping[str, Any]] = None,
     ):
         skl.utils.validation.check_is_fitted(self, "coef_")
 
-        context_: Optional[Mapping[str, Any]] = capture_context(context)
-
         # Not cached: the caller may pass other weights this time.
-        self._compute_information_criteria(X, y, sample_weight, context=context_)
+        self._compute_information_criteria(X, y, sample_weight, context=context)
 
         alpha = self._alphas[-1] if self.alpha_search else self.alpha
         if (alpha is None or alpha > 0) and self.l1_ratio < 1.0:
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 1aa0383..d5a58e4 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -476,6 +476,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         skl.utils.validation.check_is_fitted(self, "coef_")
 
         alpha_index = self._resolve_alpha_index(alpha_index, alpha)
+        context = capture_context(context)
 
         if alpha_index is None:
             return super().linear_predictor(X, offset, context=context)
-- 
2.43.0


From 69fa91d4faf794ba743218767c70ff75040df7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 39/60] fix: validate the offset of a prediction instead of
 broadcasting it

---
 src/glum/_glm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 4fc9d07..1f7606b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -923,21 +923,23 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 f"is expecting {self.n_features_in_} features as input."
             )
 
+        offset = check_offset(offset, X.shape[0], np.float64)
+
         if alpha_index is None:
             xb = X @ coef_path + intercept_path
             if offset is not None:
-                xb += np.asanyarray(offset)
+                xb += offset
         elif np.isscalar(alpha_index):  # `None` doesn't qualify
             xb = X @ coef_path[alpha_index] + intercept_path[alpha_index]  # type: ignore
             if offset is not None:
-                xb += np.asanyarray(offset)
+                xb += offset
         else:
             _xb = []
             for idx in alpha_index:  # type: ignore
                 _xb.append(X @ coef_path[idx] + intercept_path[idx])  # type: ignore
             xb = np.stack(_xb, axis=1)
             if offset is not None:
-                xb += np.asanyarray(offset)[:, np.newaxis]
+                xb += offset[:, np.newaxis]
 
         return xb
 
-- 
2.43.0


From 510ab3c0ae845e64ff8feb7e1dcf0b739ac5b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 40/60] fix: weighted predictions for lists of alphas and
 array-likes without a shape

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 1f7606b..84954f1 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1007,9 +1007,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if sample_weight is None:
             return mu
 
-        sample_weight = check_weights(sample_weight, X.shape[0], X.dtype)
+        sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
 
-        return mu * sample_weight
+        return mu * (sample_weight if mu.ndim == 1 else sample_weight[:, np.newaxis])
 
     def coef_table(
         self,
-- 
2.43.0


From 983807e2dcda14bf79dfff6bd4bbfe7dd805c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 41/60] fix: lbfgs warned of no convergence when it converged
 in the last iteration of the budget

---
 src/glum/_solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 994d7a6..1c20ddb 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -929,7 +929,8 @@ def _lbfgs_solver(
         maxiter=max_iter,
         factr=1e2,
     )
-    if info["warnflag"] == 1:
+    # scipy looks at the budget before it looks at the gradient
+    if info["warnflag"] == 1 and np.max(np.abs(info["grad"])) > tol:
         warnings.warn(
             "lbfgs failed to converge. Increase the number of iterations.",
             ConvergenceWarning,
-- 
2.43.0


From 02a32438222dde426cc559455b0a5416e03d6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:51 +0000
Subject: [PATCH 42/60] fix: reject values outside their domain that slipped
 through validation

NaN passed every comparison (alpha, l1_ratio, tolerances, bounds, inequality
constraints, scalar weights and offsets), an infinite alpha or scalar offset
was accepted, and max_inner_iter, hessian_approx, n_alphas, min_alpha,
min_alpha_ratio, scale_predictors, drop_first, robust, expected_information and
cat_missing_method were not checked at all.
---
 src/glum/_glm.py        | 74 ++++++++++++++++++++++++++++++++++++-----
 src/glum/_glm_cv.py     | 13 +++++---
 src/glum/_validation.py | 10 ++++--
 3 files changed, 81 insertions(+), 16 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 84954f1..b9d1229 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -4,6 +4,7 @@ import time
 import typing
 import warnings
 from collections.abc import Iterable, Mapping, Sequence
+from numbers import Integral, Real
 from typing import Any, Optional, Union, cast
 
 import formulaic
@@ -1856,19 +1857,70 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if self.gradient_tol is not None:
             if (
                 not isinstance(self.gradient_tol, (float, int))
-                or self.gradient_tol <= 0
+                or not self.gradient_tol > 0
             ):
                 raise ValueError(
                     "Tolerance for the gradient stopping criteria must be positive; "
                     f"got (gradient_tol={self.gradient_tol})."
                 )
         if self.step_size_tol is not None and (
-            not isinstance(self.step_size_tol, (float, int)) or self.step_size_tol <= 0
+            not isinstance(self.step_size_tol, (float, int))
+            or not self.step_size_tol > 0
         ):
             raise ValueError(
                 "Tolerance for the step-size stopping criteria must be positive; "
                 f"got (step_size_tol={self.step_size_tol})."
             )
+        max_inner_iter = getattr(self, "max_inner_iter", 100_000)
+        if not isinstance(max_inner_iter, Integral) or max_inner_iter <= 0:
+            raise ValueError(
+                "Maximum number of inner iterations must be a positive integer; "
+                f"got (max_inner_iter={max_inner_iter})."
+            )
+        if not isinstance(self.hessian_approx, Real) or np.isnan(self.hessian_approx):
+            raise ValueError(
+                "The argument hessian_approx must be a number; "
+                f"got (hessian_approx={self.hessian_approx})."
+            )
+        if not isinstance(self.n_alphas, Integral) or self.n_alphas <= 0:
+            raise ValueError(
+                "The number of alphas must be a positive integer; "
+                f"got (n_alphas={self.n_alphas})."
+            )
+        if self.min_alpha_ratio is not None and (
+            not isinstance(self.min_alpha_ratio, Real)
+            or not 0 < self.min_alpha_ratio <= 1
+        ):
+            raise ValueError(
+                "min_alpha_ratio must be a number in interval (0, 1]; "
+                f"got (min_alpha_ratio={self.min_alpha_ratio})."
+            )
+        if self.min_alpha is not None and (
+            not isinstance(self.min_alpha, Real) or not 0 < self.min_alpha < np.inf
+        ):
+            raise ValueError(
+                "min_alpha must be a positive number; "
+                f"got (min_alpha={self.min_alpha})."
+            )
+        for name in ("drop_first", "robust", "expected_information"):
+            if not isinstance(getattr(self, name, False), bool):
+                raise TypeError(
+                    f"The argument {name} must be bool; got {getattr(self, name)}."
+                )
+        if not isinstance(self.scale_predictors, bool):
+            raise TypeError(
+                "The argument scale_predictors must be bool; "
+                f"got {self.scale_predictors}."
+            )
+        if getattr(self, "cat_missing_method", "fail") not in (
+            "fail",
+            "zero",
+            "convert",
+        ):
+            raise ValueError(
+                "The argument cat_missing_method must be 'fail', 'zero' or 'convert'; "
+                f"got {self.cat_missing_method}."
+            )
         if not isinstance(self.warm_start, bool):
             raise TypeError(
                 f"The argument warm_start must be bool; got {self.warm_start}."
@@ -1959,6 +2011,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             if self.P1 is not None and not isinstance(self.P1, str):
                 if not np.all(np.asarray(self.P1) >= 0):
                     raise ValueError("P1 must not have negative values.")
+                if not np.all(np.isfinite(self.P1)):
+                    raise ValueError("P1 must not have infinite values.")
 
     def _should_copy_X(self):
         # If self.copy_X is True, copy_X is True
@@ -2670,8 +2724,10 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                     "`alpha` should be an Iterable or None when `alpha_search` is True"
                 )
             if self.alpha is not None and (
-                (np.asarray(self.alpha) < 0).any()
+                np.size(self.alpha) == 0
                 or not np.issubdtype(np.asarray(self.alpha).dtype, np.number)
+                or not np.all(np.isfinite(self.alpha))
+                or (np.asarray(self.alpha) < 0).any()
             ):
                 raise ValueError("`alpha` must contain only non-negative numbers")
         if not self.alpha_search:
@@ -2680,7 +2736,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                     "`alpha` should be a scalar or None when `alpha_search` is False"
                 )
             if self.alpha is not None and (
-                not isinstance(self.alpha, (int, float)) or self.alpha < 0
+                not isinstance(self.alpha, (int, float))
+                or not 0 <= self.alpha < np.inf
             ):
                 raise ValueError(
                     "Penalty term must be a non-negative number;"
@@ -2691,8 +2748,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             not np.isscalar(self.l1_ratio)
             # check for numeric, i.e. not a string
             or not np.issubdtype(np.asarray(self.l1_ratio).dtype, np.number)
-            or self.l1_ratio < 0  # type: ignore
-            or self.l1_ratio > 1  # type: ignore
+            or not 0 <= self.l1_ratio <= 1  # type: ignore
         ):
             raise ValueError(
                 "l1_ratio must be a number in interval [0, 1];"
@@ -3206,12 +3262,12 @@ def get_family(
     if family in name_to_dist:
         return name_to_dist[family]
 
-    custom_tweedie = re.search(r"tweedie\s?\((.+)\)", family)
+    custom_tweedie = re.fullmatch(r"tweedie\s?\((.+)\)", family)
 
     if custom_tweedie:
         return TweedieDistribution(float(custom_tweedie.group(1)))
 
-    custom_negative_binomial = re.search(r"negative.binomial\s?\((.+)\)", family)
+    custom_negative_binomial = re.fullmatch(r"negative.binomial\s?\((.+)\)", family)
 
     if custom_negative_binomial:
         return NegativeBinomialDistribution(float(custom_negative_binomial.group(1)))
@@ -3260,7 +3316,7 @@ def get_link(link: Union[str, Link], family: ExponentialDispersionModel) -> Link
 
     if link in mapping:
         return mapping[link]
-    if custom_tweedie := re.search(r"tweedie\s?\((.+)\)", link):
+    if custom_tweedie := re.fullmatch(r"tweedie\s?\((.+)\)", link):
         return TweedieLink(float(custom_tweedie.group(1)))
 
     raise ValueError(
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index d5a58e4..45a2fbb 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -491,13 +491,18 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
     def _validate_hyperparameters(self) -> None:
-        if self.alphas is not None and np.any(np.asarray(self.alphas) < 0):
-            raise ValueError
+        if self.alphas is not None and (
+            np.size(self.alphas) == 0
+            or not np.issubdtype(np.asarray(self.alphas).dtype, np.number)
+            or not np.all(np.isfinite(self.alphas))
+            or np.any(np.asarray(self.alphas) < 0)
+        ):
+            raise ValueError("`alphas` must contain only non-negative numbers")
         l1_ratio = np.asarray(self.l1_ratio)
         if (
             not np.issubdtype(l1_ratio.dtype, np.number)
-            or np.any(l1_ratio < 0)
-            or np.any(l1_ratio > 1)
+            or l1_ratio.size == 0
+            or not np.all((l1_ratio >= 0) & (l1_ratio <= 1))
         ):
             raise ValueError(
                 "l1_ratio must be a number in interval [0, 1]; got "
diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index d59f80c..2046755 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -105,7 +105,7 @@ def check_bounds(
     if bounds is None:
         return None
     if np.isscalar(bounds):
-        return np.full(n_features, bounds, dtype=dtype)
+        bounds = np.full(n_features, bounds, dtype=dtype)
 
     bounds = skl.utils.check_array(
         bounds,
@@ -121,6 +121,8 @@ def check_bounds(
         raise ValueError("Bounds must be 1D array or scalar.")
     if bounds.shape[0] != n_features:  # type: ignore
         raise ValueError("Bounds must be the same length as X.shape[1].")
+    if np.any(np.isnan(bounds)):
+        raise ValueError("Bounds must not be NaN.")
 
     return bounds
 
@@ -157,6 +159,8 @@ def check_inequality_constraints(
             raise ValueError("A_ineq and b_ineq must have same number of rows.")
         if b_ineq.ndim > 1:  # type: ignore
             raise ValueError("b_ineq must be 1D array.")
+        if not np.all(np.isfinite(A_ineq)) or np.any(np.isnan(b_ineq)):
+            raise ValueError("A_ineq must be finite and b_ineq must not be NaN.")
     return A_ineq, b_ineq
 
 
@@ -176,7 +180,7 @@ def check_offset(
         return None
     dtype = _float_dtype(dtype)
     if np.isscalar(offset):
-        return np.full(n_rows, offset, dtype=dtype)
+        offset = np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
         offset,
@@ -209,7 +213,7 @@ def check_weights(
     if np.isscalar(sample_weight):
         if sample_weight <= 0:  # type: ignore
             raise ValueError("Sample weights must be non-negative.")
-        return np.full(n_samples, sample_weight, dtype=dtype)
+        sample_weight = np.full(n_samples, sample_weight, dtype=dtype)
 
     sample_weight = skl.utils.check_array(
         sample_weight,
-- 
2.43.0


From 527d36c68d7ad1981e8b5f9646f6671b9b58613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 43/60] fix: an indefinite P2 was accepted when l1_ratio is one

---
 src/glum/_glm.py    | 3 ++-
 src/glum/_glm_cv.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index b9d1229..45b7845 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2883,7 +2883,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         if self.check_input:
             # check if P2 is positive semidefinite
             if not isinstance(self.P2, str):  # self.P2 != 'identity'
-                if not is_pos_semidef(P2_no_alpha):
+                # whether or not l1_ratio leaves any of it
+                if not is_pos_semidef(setup_p2(P2, X, stype, X.dtype, 1, 0)):
                     if P2_no_alpha.ndim == 1 or P2_no_alpha.shape[0] == 1:
                         error = "1d array P2 must not have negative values."
                     else:
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 45a2fbb..f723c47 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -743,7 +743,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             if self.check_input:
                 # check if P2 is positive semidefinite
                 if not isinstance(self.P2, str):  # self.P2 != 'identity'
-                    if not is_pos_semidef(P2_no_alpha):
+                    # whether or not l1_ratio leaves any of it
+                    if not is_pos_semidef(setup_p2(P2, X, _stype, X.dtype, 1, 0)):
                         if P2_no_alpha.ndim == 1 or P2_no_alpha.shape[0] == 1:
                             error = "1d array P2 must not have negative values."
                         else:
-- 
2.43.0


From 5e79b7670fc92a50d0e02c15efcec64bdf2547be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:36 +0000
Subject: [PATCH 44/60] fix: a rejected fit broke the predictions of the
 earlier one

---
 src/glum/_glm.py    | 33 ++++++++++++++++++++++++++++++++-
 src/glum/_glm_cv.py | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 45b7845..4d27fe2 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2825,6 +2825,37 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         self
         """
 
+        context = capture_context(context)
+        state = self.__dict__.copy()
+        try:
+            return self._fit(
+                X,
+                y,
+                sample_weight,
+                offset,
+                store_covariance_matrix=store_covariance_matrix,
+                clusters=clusters,
+                weights_sum=weights_sum,
+                context=context,
+            )
+        except BaseException:
+            # A fit that fails leaves an earlier one as it was.
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    def _fit(
+        self,
+        X: ArrayLike,
+        y: Optional[ArrayLike],
+        sample_weight: Optional[ArrayLike],
+        offset: Optional[ArrayLike],
+        *,
+        store_covariance_matrix: bool,
+        clusters: Optional[np.ndarray],
+        weights_sum: Optional[float],
+        context: Optional[Mapping[str, Any]],
+    ):
         self._validate_hyperparameters()
         self._align_info_logs_emitted: set[str] = set()
         self.__dict__.pop("_info_criteria", None)  # belongs to an earlier fit
@@ -2845,7 +2876,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             sample_weight,
             offset,
             force_all_finite=self.force_all_finite,
-            context=capture_context(context),
+            context=context,
         )
 
         assert isinstance(X, tm.MatrixBase)
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index f723c47..361da1c 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -571,6 +571,35 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             available.
 
         """
+        context = capture_context(context)
+        state = self.__dict__.copy()
+        try:
+            return self._fit(
+                X,
+                y,
+                sample_weight,
+                offset,
+                store_covariance_matrix=store_covariance_matrix,
+                clusters=clusters,
+                context=context,
+            )
+        except BaseException:
+            # A fit that fails leaves an earlier one as it was.
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    def _fit(
+        self,
+        X: ArrayLike,
+        y: Optional[ArrayLike],
+        sample_weight: Optional[ArrayLike],
+        offset: Optional[ArrayLike],
+        *,
+        store_covariance_matrix: bool,
+        clusters: Optional[np.ndarray],
+        context: Optional[Mapping[str, Any]],
+    ):
         self._validate_hyperparameters()
         self._align_info_logs_emitted: set[str] = set()
 
@@ -588,7 +617,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             sample_weight,
             offset,
             force_all_finite=self.force_all_finite,
-            context=capture_context(context),
+            context=context,
         )
 
         #########
-- 
2.43.0


From dbcf46dafa626d33651a8fd26bfc95eebee69bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 45/60] fix: score and the information criteria answered for
 non-finite targets and negative weights, coef_table for levels outside (0, 1)

---
 src/glum/_glm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 4d27fe2..f9fe62f 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1080,6 +1080,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             names = self.feature_names_
             beta = self.coef_
 
+        if not 0 < confidence_level < 1:
+            raise ValueError(
+                "confidence_level must be a number between 0 and 1; "
+                f"got (confidence_level={confidence_level})."
+            )
+
         if (X is None) and (getattr(self, "covariance_matrix_", None) is None):
             return pd.Series(beta, index=names, name="coef")
 
@@ -1810,6 +1816,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         y = skl.utils.column_or_1d(y, warn=True)
         if y.dtype.kind == "O":
             y = y.astype(np.float64)
+        skl.utils.assert_all_finite(y)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
         mu = self.predict(X, offset=offset, context=capture_context(context))
@@ -3109,6 +3116,10 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                 "the computation of information criteria."
             )
 
+        skl.utils.assert_all_finite(np.asarray(y))
+        if sample_weight is not None:
+            sample_weight = check_weights(sample_weight, nobs, np.float64)
+
         mu = self.predict(X, context=context)
         ll = self.family_instance.log_likelihood(y, mu, sample_weight=sample_weight)
 
-- 
2.43.0


From c24238cf4103231297acc57f1b15c05c863a3ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 46/60] fix: Tweedie powers and negative binomial thetas that
 are nan or infinite were accepted

---
 src/glum/_distribution.py | 4 +++-
 src/glum/_link.py         | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 011dc5e..41f8f52 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -608,6 +608,8 @@ class TweedieDistribution(ExponentialDispersionModel):
     def power(self, power):
         if not isinstance(power, (int, float, np.number)):
             raise TypeError(f"The power parameter must be numeric; got {power}.")
+        if not np.isfinite(power):
+            raise ValueError(f"The power parameter must be finite; got {power}.")
         if (power > 0) and (power < 1):
             raise ValueError("For `0 < p < 1`, no distribution exists.")
 
@@ -1396,7 +1398,7 @@ class NegativeBinomialDistribution(ExponentialDispersionModel):
     def theta(self, theta):
         if not isinstance(theta, (int, float, np.number)):
             raise TypeError(f"Theta must be numeric; got {theta}.")
-        if not theta > 0:
+        if not (theta > 0 and np.isfinite(theta)):
             raise ValueError(f"Theta must be strictly positive; got was {theta}.")
 
         # Prevents upcasting when working with 32-bit data
diff --git a/src/glum/_link.py b/src/glum/_link.py
index 34f36cf..d970b60 100644
--- a/src/glum/_link.py
+++ b/src/glum/_link.py
@@ -121,6 +121,8 @@ class TweedieLink(Link):
     def power(self, power):
         if not isinstance(power, (int, float, np.number)):
             raise TypeError(f"The power parameter must be numeric; got {power}.")
+        if not np.isfinite(power):
+            raise ValueError(f"The power parameter must be finite; got {power}.")
         if (power > 0) and (power < 1):
             raise ValueError("For `0<p<1`, no distribution exists.")
 
-- 
2.43.0


From d998013ef44ebadff22c108ac10a23f25e14dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 47/60] fix: an unsatisfiable inequality constraint (b_ineq =
 -inf) was accepted

---
 src/glum/_validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 2046755..6e1b7a2 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -159,8 +159,10 @@ def check_inequality_constraints(
             raise ValueError("A_ineq and b_ineq must have same number of rows.")
         if b_ineq.ndim > 1:  # type: ignore
             raise ValueError("b_ineq must be 1D array.")
-        if not np.all(np.isfinite(A_ineq)) or np.any(np.isnan(b_ineq)):
-            raise ValueError("A_ineq must be finite and b_ineq must not be NaN.")
+        if not np.all(np.isfinite(A_ineq)) or not np.all(b_ineq > -np.inf):
+            raise ValueError(
+                "A_ineq must be finite and b_ineq must be neither NaN nor -inf."
+            )
     return A_ineq, b_ineq
 
 
-- 
2.43.0


From 90e65ce90988c4c278efd1ab242545329ea973c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 48/60] fix: an np.float64 alpha broke L1-penalised fits to
 float32 data

---
 src/glum/_glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index f9fe62f..e959470 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -701,6 +701,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
+            alpha = X.dtype.type(alpha)  # a float64 scalar would promote P1 and P2
             P1 = P1_no_alpha * alpha
             P2 = P2_no_alpha * alpha
 
@@ -3036,8 +3037,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                 X=X,
                 y=y,
                 sample_weight=sample_weight,
-                P2=P2_no_alpha * _alpha,
-                P1=P1_no_alpha * _alpha,
+                P2=P2_no_alpha * X.dtype.type(_alpha),
+                P1=P1_no_alpha * X.dtype.type(_alpha),
                 coef=coef,
                 offset=offset,
                 lower_bounds=lower_bounds,
-- 
2.43.0


From 783a513e00ac39923652a686f924ca606a30d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 49/60] fix: covariances and standard errors were refused for
 float32 data

---
 src/glum/_glm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e959470..2d51a86 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1697,8 +1697,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 method="pearson",
             )
 
+        # float64 values would promote float32 weights, which tabmat then refuses
+        y, mu = np.asarray(y, dtype=X.dtype), np.asarray(mu, dtype=X.dtype)
+        dispersion = X.dtype.type(dispersion)
+
         if (
-            np.linalg.cond(safe_toarray(X.sandwich(np.ones(X.shape[0]))))
+            np.linalg.cond(safe_toarray(X.sandwich(np.ones(X.shape[0], dtype=X.dtype))))
             > 1 / sys.float_info.epsilon**2
         ):
             raise np.linalg.LinAlgError(
-- 
2.43.0


From dbd91a6d822f3c2df4b236c7164962568fd2777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:37 +0000
Subject: [PATCH 50/60] fix: coef_table accepts the confidence levels zero and
 one again

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 2d51a86..87a786c 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1081,7 +1081,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             names = self.feature_names_
             beta = self.coef_
 
-        if not 0 < confidence_level < 1:
+        if not 0 <= confidence_level <= 1:
             raise ValueError(
                 "confidence_level must be a number between 0 and 1; "
                 f"got (confidence_level={confidence_level})."
-- 
2.43.0


From f180d8297f94f28e4fa5026460c4d884489d7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 51/60] fix: start values and warm starts of models with a
 single column failed

---
 src/glum/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 473c197..ba1f070 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -297,7 +297,7 @@ def standardize_warm_start(  # noda D
     )
     coef[idx:] /= inv_col_stds
     if fit_intercept:
-        coef[0] += np.squeeze(col_means * inv_col_stds).dot(coef[idx:])
+        coef[0] += np.ravel(col_means * inv_col_stds).dot(coef[idx:])
 
 
 def unstandardize(  # noda D
-- 
2.43.0


From cecfd044f568662fde45ca02690c90a139a688fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 52/60] fix: the information criteria of a shared estimator
 were exchanged between threads

---
 src/glum/_glm.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 87a786c..68de286 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2870,7 +2870,6 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
     ):
         self._validate_hyperparameters()
         self._align_info_logs_emitted: set[str] = set()
-        self.__dict__.pop("_info_criteria", None)  # belongs to an earlier fit
 
         # NOTE: This function checks if all the entries in X and y are
         # finite. That can be expensive. But probably worthwhile.
@@ -3085,8 +3084,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         context: Optional[Mapping[str, Any]] = None,
     ):
         """
-        Computes and stores the model's degrees of freedom, the 'aic', 'aicc'
-        and 'bic' information criteria.
+        Computes the model's 'aic', 'aicc' and 'bic' information criteria.
 
         The model's degrees of freedom are used to calculate the effective
         number of parameters. This uses the claim by [2] and [3] that, for
@@ -3136,9 +3134,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         else:
             aicc = None
 
-        self._info_criteria = {"aic": aic, "aicc": aicc, "bic": bic}
-
-        return True
+        # Returned rather than read back from the estimator, which another thread
+        # may be using for other data or weights.
+        return {"aic": aic, "aicc": aicc, "bic": bic}
 
     def aic(
         self,
@@ -3277,7 +3275,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         skl.utils.validation.check_is_fitted(self, "coef_")
 
         # Not cached: the caller may pass other weights this time.
-        self._compute_information_criteria(X, y, sample_weight, context=context)
+        criteria = self._compute_information_criteria(
+            X, y, sample_weight, context=context
+        )
 
         alpha = self._alphas[-1] if self.alpha_search else self.alpha
         if (alpha is None or alpha > 0) and self.l1_ratio < 1.0:
@@ -3287,7 +3287,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                 + "might not be well defined in these cases."
             )
 
-        return self._info_criteria[crit]
+        return criteria[crit]
 
 
 def get_family(
-- 
2.43.0


From fb11604e0e158604afea125bc5f7b3c7670fe7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:17 +0000
Subject: [PATCH 53/60] fix: trust-constr stopped far from the optimum without
 a warning

---
 src/glum/_solvers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 1c20ddb..b7a6236 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -1008,6 +1008,13 @@ def _trust_constr_solver(
             f"trust-constr failed with message: {res['message']}",
             ConvergenceWarning,
         )
+    elif res["status"] == 2 and gtol is not None and res["optimality"] > gtol:
+        # Its quasi-Newton approximation can shrink the steps far from the optimum.
+        warnings.warn(
+            "trust-constr stopped because its steps became small before the gradient "
+            f"reached its tolerance. Gradient: {res['optimality']:.1e}.",
+            ConvergenceWarning,
+        )
 
     return res["x"], res["nit"], -1, None
 
-- 
2.43.0


From a0039ee9a062c9bbd06f24bb19c7b9b270ec638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:35 +0000
Subject: [PATCH 54/60] fix: L1-penalised normal models stopped after one
 iteration although not converged

---
 src/glum/_glm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 68de286..393e851 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -586,11 +586,10 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             and self._solver != "irls-ls-monotonic"
         ):
             # IRLS-CD and IRLS-LS should converge in one iteration for any
-            # normal distribution problem with identity link.
+            # normal distribution problem with identity link, unless IRLS-CD left
+            # a coefficient out of its active set that has to move after all.
             fixed_inner_tol = (self._gradient_tol, self.step_size_tol)
-            max_iter = 1
-        else:
-            max_iter = self.max_iter
+        max_iter = self.max_iter
 
         # 4.1 IRLS #############################################################
         if "irls" in self._solver:
-- 
2.43.0


From 28db6f48a9ec3a0dfb383fc8ce19fbb7144ec182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:35 +0000
Subject: [PATCH 55/60] fix: formula models ignored cat_missing_name

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 393e851..7def8b3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2117,6 +2117,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     ensure_full_rank=self.drop_first,
                     categorical_format=self.categorical_format,
                     cat_missing_method=self.cat_missing_method,
+                    cat_missing_name=self.cat_missing_name,
                     interaction_separator=self.interaction_separator,
                     add_column_for_intercept=False,
                     context=context,
-- 
2.43.0


From 1113b9c369ef797396ef547f621b60b8686a362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:01 +0000
Subject: [PATCH 56/60] fix: monotonic constraints failed on labels with
 separators, bracketed factors and other formats

---
 src/glum/_formula.py | 54 ++++++++++++++++++++++++++++++++++++++++----
 src/glum/_glm.py     |  6 +++++
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 123fb58..b59d4b1 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -82,18 +82,60 @@ def _parse_column_name(col: str, separator: str = ":") -> list[tuple[str, str |
     return factors
 
 
+def _parse_columns_of_model_spec(
+    model_spec, categorical_format: str, separator: str = ":"
+) -> list[list[tuple[str, str | None]]]:
+    """Split the column names into factors as ``_parse_column_name`` does.
+
+    Knowing the factors of each term, this allows for any categorical format, and
+    for brackets and separators in category labels and factor names.
+    """
+
+    def pattern(name: str) -> str:
+        kind, _ = model_spec.encoder_state[name]
+        if kind.value != "categorical":
+            return rf"{re.escape(name)}(?:\[(.*)\])?"
+        prefix, suffix = (
+            re.escape(part.replace("\0", name))
+            for part in categorical_format.format(name="\0", category="\1").split("\1")
+        )
+        return f"{prefix}(.*){suffix}"
+
+    parsed = []
+    for _, scoped_terms, column_names in model_spec.structure:
+        candidates = []
+        for st in sorted(scoped_terms, key=lambda st: -len(st.factors)):
+            names = [f.factor.expr for f in st.factors]
+            regex = re.escape(separator).join(pattern(name) for name in names)
+            candidates.append((names, re.compile(regex, re.DOTALL)))
+        for col in column_names:
+            for names, regex in candidates:
+                m = regex.fullmatch(col)
+                if m is not None:
+                    parsed.append(list(zip(names, m.groups())))
+                    break
+            else:
+                raise ValueError(f"Cannot parse column {col!r}")
+    return parsed
+
+
 def _group_columns_by_factor(
     feature_names: Sequence[str],
     factor_name: str,
     separator: str = ":",
+    parsed_names: Sequence[list[tuple[str, str | None]]] | None = None,
 ) -> dict[tuple[tuple[str, str | None], ...], list[tuple[int, str | None]]]:
     """Group columns containing *factor_name*, keyed by the other factors."""
     groups: dict[tuple[tuple[str, str | None], ...], list[tuple[int, str | None]]] = (
         defaultdict(list)
     )
 
-    for col_idx, col in enumerate(feature_names):
-        factors = _parse_column_name(col, separator=separator)
+    if parsed_names is None:
+        parsed_names = [
+            _parse_column_name(col, separator=separator) for col in feature_names
+        ]
+
+    for col_idx, (col, factors) in enumerate(zip(feature_names, parsed_names)):
         matched = [
             (i, name, idx)
             for i, (name, idx) in enumerate(factors)
@@ -130,6 +172,7 @@ def _build_monotonic_constraints(
     n_features: int | None = None,
     *,
     separator: str = ":",
+    parsed_names: Sequence[list[tuple[str, str | None]]] | None = None,
 ) -> tuple[np.ndarray, np.ndarray]:
     """Build ``(A_ineq, b_ineq)`` enforcing monotonicity on ordered terms.
 
@@ -153,7 +196,10 @@ def _build_monotonic_constraints(
             )
 
         groups = _group_columns_by_factor(
-            feature_names, factor_name, separator=separator
+            feature_names,
+            factor_name,
+            separator=separator,
+            parsed_names=parsed_names,
         )
         if not groups:
             raise ValueError(f"Factor {factor_name!r} not found in feature_names.")
@@ -191,7 +237,7 @@ def _resolve_monotonic_constraints_from_model_spec(
     for _term, scoped_terms, column_names in model_spec.structure:
         for st in scoped_terms:
             for f in st.factors:
-                factor_name = str(f).rstrip("-+")
+                factor_name = f.factor.expr
                 data_vars = {
                     str(v)
                     for v in f.factor.variables
diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 7def8b3..bee16e4 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -33,6 +33,7 @@ from ._distribution import (
 )
 from ._formula import (
     _build_monotonic_constraints,
+    _parse_columns_of_model_spec,
     _resolve_monotonic_constraints_from_model_spec,
     capture_context,
     parse_formula,
@@ -2046,6 +2047,11 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             self.feature_names_,
             factor_constraints,
             separator=self.interaction_separator,
+            parsed_names=_parse_columns_of_model_spec(
+                self.X_model_spec_,
+                self.categorical_format,
+                separator=self.interaction_separator,
+            ),
         )
 
     def _set_up_and_check_fit_args(
-- 
2.43.0


From 439896d428e36f10dcce790f2492b6da9e61675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:20 +0000
Subject: [PATCH 57/60] fix: a start was reported as converged when the step
 tolerance rounds down in single precision

---
 src/glum/_solvers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index b7a6236..9170bd6 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -616,10 +616,13 @@ def check_convergence(
         np.isfinite(state.score).all()
     )
 
-    # Simple L2 step length convergence criteria
+    # Simple L2 step length convergence criteria. Before the first iteration
+    # (n_iter == -1), there is no step that could have converged.
     step_size = linalg.norm(state.step)
     step_size_converged = (
-        state.data.step_size_tol is not None and step_size < state.data.step_size_tol
+        state.data.step_size_tol is not None
+        and state.n_iter >= 0
+        and step_size < state.data.step_size_tol
     )
 
     converged = gradient_converged or step_size_converged
-- 
2.43.0


From 8f7c7b5f02611179662c919ef9375e1422f7035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:03 +0000
Subject: [PATCH 58/60] fix: models loaded from versions before 3.2 remembered
 their first data frame after later fits

---
 src/glum/_glm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index bee16e4..024f7d0 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -190,15 +190,17 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         self.__dict__.update(state)
 
         # Migrate from old feature_dtypes_ to new _categorical_levels_
-        if "feature_dtypes_" in state and "_categorical_levels_" not in state:
+        # (and do not keep the old entry, which a later fit would not replace)
+        feature_dtypes = self.__dict__.pop("feature_dtypes_", None)
+        if feature_dtypes is not None and "_categorical_levels_" not in state:
             # Extract categorical levels from feature_dtypes_
             self._categorical_levels_ = {
                 col: dtype.categories.tolist()
-                for col, dtype in state["feature_dtypes_"].items()
+                for col, dtype in feature_dtypes.items()
                 if isinstance(dtype, pd.CategoricalDtype)
             }
             # Keep feature_dtypes_ for the deprecated property
-            self._feature_dtypes_ = state["feature_dtypes_"]
+            self._feature_dtypes_ = feature_dtypes
 
         # Set default values for attributes that may be missing in old models
         # This handles models pickled with older versions of glum 3.x
-- 
2.43.0


From d66b663ddcd0f959a8d5365335d2f90775677c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:19 +0000
Subject: [PATCH 59/60] fix: Tweedie and negative-binomial deviances lost
 precision through the single-precision power and theta

---
 src/glum/_distribution.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 41f8f52..0fded92 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -654,12 +654,13 @@ class TweedieDistribution(ExponentialDispersionModel):
         elif self.power == 3:  # inverse Gaussian distribution
             return ((y / mu - 1) ** 2) / y
         else:
-            mu1mp = mu ** (1 - self.power)
+            # Python floats neither upcast 32-bit data nor round 64-bit results
+            p = float(self.power)
+            mu1mp = mu ** (1 - p)
             return 2 * (
-                (np.maximum(y, 0) ** (2 - self.power))
-                / ((1 - self.power) * (2 - self.power))
-                - y * mu1mp / (1 - self.power)
-                + mu * mu1mp / (2 - self.power)
+                (np.maximum(y, 0) ** (2 - p)) / ((1 - p) * (2 - p))
+                - y * mu1mp / (1 - p)
+                + mu * mu1mp / (2 - p)
             )
 
     def _rowwise_gradient_hessian(
@@ -1418,7 +1419,8 @@ class NegativeBinomialDistribution(ExponentialDispersionModel):
         return negative_binomial_deviance(y, sample_weight, mu, theta=float(theta))
 
     def unit_deviance(self, y, mu):  # noqa D
-        theta = self.theta
+        # a Python float neither upcasts 32-bit data nor rounds 64-bit results
+        theta = float(self.theta)
 
         r = 1.0 / theta
 
-- 
2.43.0


From eb861285e385ec6550e23e2da945518a15c8bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:19 +0000
Subject: [PATCH 60/60] fix: cross-validation selected the first alpha when a
 fold's held-out rows have no weight

---
 src/glum/_glm_cv.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 361da1c..6213e38 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -711,7 +711,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 y[test_idx],
                 sample_weight[test_idx],
             )
-            w_test /= w_test.sum()
+            with np.errstate(invalid="ignore"):  # no weight at all: no deviance
+                w_test /= w_test.sum()
 
             if offset is not None:
                 offset_train = offset[train_idx]
@@ -817,6 +818,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
             return intercept_path_, coef_path_, deviance_path_, train_deviance_path_
 
+        splits = list(cv.split(X, y))
+
         jobs = (
             joblib.delayed(_fit_path)(
                 self,
@@ -833,7 +836,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 A_ineq=A_ineq,
                 b_ineq=b_ineq,
             )
-            for train_idx, test_idx in cv.split(X, y)
+            for train_idx, test_idx in splits
             for this_l1_ratio, this_alphas in zip(l1_ratio, alphas)
         )
 
@@ -861,7 +864,9 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             (n_folds, len(l1_ratio), len(alphas[0])),
         )
 
-        avg_deviance = self.deviance_path_.mean(axis=0)  # type: ignore
+        # Folds whose held-out rows have no weight say nothing about the model.
+        has_weight = [sample_weight[test_idx].sum() > 0 for _, test_idx in splits]
+        avg_deviance = self.deviance_path_[has_weight].mean(axis=0)  # type: ignore
 
         best_l1, best_alpha = np.unravel_index(
             np.argmin(avg_deviance), avg_deviance.shape
-- 
2.43.0

