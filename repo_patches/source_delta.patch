From b5fb0615c305345d07d7ce811a78f1dfc0dd804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:23 +0000
Subject: [PATCH 01/24] fix: ECdfTransformer.transform no longer overwrites the
 caller's array

---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 723d05e..90d40ba 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -272,7 +272,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
         if check_frame_empty(X):
             return X
 
-        Xnp = np.asarray(X, dtype=float)
+        Xnp = np.array(X, dtype=float)
         Xt = Xnp
 
         for col, epsilon, bins_and_cdfs in self.bins_and_cdfs_:
-- 
2.43.0


From c2efe3a1818c4e2808fc4a22c099d2f98bdcb10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:21 +0000
Subject: [PATCH 02/24] fix: CBExponential.predict no longer keeps the
 request's price column on the model

---
 cyclic_boosting/price.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 56f3ea0..a5917cd 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -291,12 +291,14 @@ class CBExponential(CBNBinomRegressor):
             if any value in 'external_col' is smaller equal zero
 
         """
-        self.external_col = get_X_column(X, self.external_colname) - 1
-        is_finite = np.isfinite(self.external_col)
-        self.external_col[~is_finite] = 0
+        external_col = get_X_column(X, self.external_colname) - 1
+        is_finite = np.isfinite(external_col)
+        external_col[~is_finite] = 0
         if is_fit:
+            self.external_col = external_col
             self.weights_external = np.asarray(is_finite, dtype=np.float64)
             self.weights_external *= self.weights
+        return external_col
 
     def _get_prior_exponent(self, X):
         if self.prior_exponent_colname is None:
@@ -404,10 +406,10 @@ class CBExponential(CBNBinomRegressor):
 
     def predict_extended(self, X, influence_categories):
         self._check_fitted()
-        self._init_external_column(X, False)
+        external_col = self._init_external_column(X, False)
 
         prediction_link = self._get_prior_predictions(X)
-        pred = CBLinkPredictions(prediction_link, self._get_prior_exponent(X), self.external_col)
+        pred = CBLinkPredictions(prediction_link, self._get_prior_exponent(X), external_col)
 
         for feature in self.features:
             feature_predictions = self._pred_feature(X, feature, is_fit=False)
-- 
2.43.0


From f4dacd99735602d30b1305c2e79ee73d3b2e1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:55 +0000
Subject: [PATCH 03/24] fix: QPD_RegressorChain.fit with bound "B" masks the
 upper bound like the targets

The bound of the upper quantile model was passed for all samples while the
targets were already restricted to samples above the median, so every
bounded fit failed with a shape mismatch.
---
 cyclic_boosting/quantile_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 5c00597..c3b85de 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -801,7 +801,7 @@ class QPD_RegressorChain(BaseEstimator):
         if self.bound == "S":
             y_trans = transform_from_semibound_lower(y_trans, 0)
         elif self.bound == "B":
-            y_trans = transform_from_bounds(y_trans, 0, (self.u - pred_median) / (pred_median - pred_lowq))
+            y_trans = transform_from_bounds(y_trans, 0, ((self.u - pred_median) / (pred_median - pred_lowq))[mask])
         self.est_highq.fit(X[mask], y_trans)
 
         return self
-- 
2.43.0


From 0ffffe3fff96ee7b92eec1803e22cb4fc83aa29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 04/24] fix: feature importances no longer mix in features of
 earlier trainings

Retraining created new feature objects but kept the entries of the old ones,
so the reported relative importances depended on how often a model was fitted.
---
 cyclic_boosting/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 98d11f1..1f176ca 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -968,6 +968,7 @@ class CyclicBoostingBase(
             return [(feature.feature_id, feature.smoother) for feature in self.features]
 
     def set_feature_importances(self) -> None:
+        self.feature_importances = {}
         for feature in self.features:
             feature.prepare_feature()
             feature.set_feature_bin_deviations_from_neutral(self.neutral_factor_link)
-- 
2.43.0


From 26a0a62a7ce0c3d256f9f33bf73ce4951cd08abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 05/24] fix: training no longer overwrites feature_groups=None
 with the columns seen

The default feature groups of the first training were stored in the
constructor parameter and reused for every later training, even on data with
other columns.
---
 cyclic_boosting/base.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 1f176ca..a38f870 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -328,7 +328,7 @@ class CyclicBoostingBase(
             self.learn_rate = learn_rate
         if hierarchical_feature_groups is not None:
             self.learn_rate = learning_rate.constant_learn_rate_one
-        self._init_features()
+        self._init_features(self.feature_groups)
 
     def loss(self, prediction: np.ndarray, y: np.ndarray, weights: np.ndarray) -> np.ndarray:
         if not len(y) > 0:
@@ -378,9 +378,9 @@ class CyclicBoostingBase(
            are we called in fit() ?
         """
 
-    def _init_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> None:
+    def _init_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> list:
         """
-        Initializes the ``feature_groups`` to be a list of all
+        Returns the default ``feature_groups``, a list of all
         columns available in ``X`` except the ``prior_prediction_column`` and
         the ``weight_column``.
         """
@@ -390,7 +390,7 @@ class CyclicBoostingBase(
         if self.weight_column is not None:
             exclude_columns.append(self.weight_column)
 
-        self.feature_groups = get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
+        return get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """
@@ -436,12 +436,12 @@ class CyclicBoostingBase(
         if self.weights is None:
             raise RuntimeError("The weights have to be initialized.")
 
-    def _init_features(self) -> None:
+    def _init_features(self, feature_groups) -> None:
         """
         Initializes the ``features`` and binds the data belonging to a feature
         to it.
         """
-        self.features = create_features(self.feature_groups, self.feature_properties, self.smoother_choice)
+        self.features = create_features(feature_groups, self.feature_properties, self.smoother_choice)
 
     def _get_prior_predictions(self, X: Union[pd.DataFrame, np.ndarray]) -> np.ndarray:
         if self.prior_prediction_column is None:
@@ -703,11 +703,12 @@ class CyclicBoostingBase(
         self._init_weight_column(X)
         self._init_external_column(X, True)
 
-        if self.feature_groups is None:
-            self._init_default_feature_groups(X)
+        feature_groups = self.feature_groups
+        if feature_groups is None:
+            feature_groups = self._init_default_feature_groups(X)
 
         self._check_weights()
-        self._init_features()
+        self._init_features(feature_groups)
         self._init_global_scale(X, y)
 
     def _fit_main(self, X: np.ndarray, y: np.ndarray, pred: CBLinkPredictionsFactors) -> np.ndarray:
-- 
2.43.0


From 202c78fdc6eb49599b61d949dc7cf212317b7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 06/24] fix: CBNBinomC no longer clips the caller's prior
 prediction column in place

---
 cyclic_boosting/nbinom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 7b7e798..f1c5185 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -144,7 +144,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
         else:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-            np.clip(prior_pred, 0, 1, prior_pred)
+            prior_pred = np.clip(prior_pred, 0, 1)
             prior_prediction_link = self.link_func(prior_pred)
             finite = np.isfinite(prior_prediction_link)
             prior_prediction_link[~finite] = self.neutral_factor_link
-- 
2.43.0


From 9a798297501e9057e64e9c6d2c84e3f107b23fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 07/24] fix: OrthogonalPolynomialSmoother.predict no longer
 clips its input in place

For single column float arrays the contiguous view shared memory with the
array passed in.
---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index a050b7d..b03960b 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -257,7 +257,7 @@ class OrthogonalPolynomialSmoother(AbstractBinSmoother):
         assert X.ndim == 2
         if not hasattr(self, "pp_"):
             raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
-        x = np.ascontiguousarray(X[:, 0], dtype=np.float64)
+        x = np.array(X[:, 0], dtype=np.float64)
         x[x < self.minimal_x] = self.minimal_x
         x[x > self.maximal_x] = self.maximal_x
         y = cy_apply_orthogonal_poly_fit_equidistant(x, self.pp_, self.n_degrees_)
-- 
2.43.0


From 6ec3fff60074cc36e9299fea807fc3b090be2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 08/24] fix: SeasonalSmoother uses its fallback value when
 curve_fit does not converge

scipy reports non-convergence as RuntimeError, which was not handled.
---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index b03960b..0eb1d79 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -379,7 +379,7 @@ class SeasonalSmoother(AbstractBinSmoother):
             self.par_, _ = scipy.optimize.curve_fit(self.fit_function, xdata=xdata, ydata=y, sigma=X_for_smoother[:, 2])
             if self.offset_tozero:
                 self.par_[0] = 0.0
-        except TypeError:
+        except (TypeError, RuntimeError):
             warnings.warn("Seasonal Smoother did not converge. Fallback value is used")
             self.converged = False
         else:
-- 
2.43.0


From d54c8863ac798ad3af67a939b03e6302fd6fcf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 09/24] fix: plotting a 2d feature no longer changes the
 observer's bin weights

---
 cyclic_boosting/plots/_2dplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/plots/_2dplots.py b/cyclic_boosting/plots/_2dplots.py
index 9b6a9b4..9629df8 100644
--- a/cyclic_boosting/plots/_2dplots.py
+++ b/cyclic_boosting/plots/_2dplots.py
@@ -166,7 +166,7 @@ def plot_factor_2d(n_bins_finite, feature, grid_item=None):
     )
 
     def plot_marginal(axis):
-        w1 = np.reshape(weights[:-1], n_bins_finite)
+        w1 = np.reshape(weights[:-1], n_bins_finite).copy()
         w1[w1 == 0.0] = 1.0
         w = np.sum(w1, axis=axis)
 
-- 
2.43.0


From b75247e2dad3e7f8d9c305d777d78be0fb9dfb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 10/24] fix: BaseObserver.observe_iterations accepts the
 arguments passed in training

Observers inheriting the default implementation failed in every training.
---
 cyclic_boosting/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 8328b7b..54d5100 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -16,7 +16,7 @@ class BaseObserver(object):
     order to make predictions.
     """
 
-    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state):
+    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
         """
         Called after each iteration of the algorithm.
 
-- 
2.43.0


From 58e3eb9c1380b8ebab7932f90ed42095aba085c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 11/24] fix: PlottingObserver starts from scratch when a new
 training begins

Losses and factor changes of earlier trainings were kept and plotted together
with those of the current one.
---
 cyclic_boosting/observers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 54d5100..fc8f973 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -142,6 +142,10 @@ class PlottingObserver(BaseObserver):
         """
         features = estimator_state["features"]
 
+        if iteration == 0:
+            # a new training starts: forget everything recorded before
+            self.__init__(iteration=self.iteration)
+
         if (iteration <= self.iteration and iteration != -1) or self.iteration == -1:
             self.loss.append(estimator_state["insample_loss"])
             if iteration != 0:
-- 
2.43.0


From 580f868f0c3b9ea8d961e860fa7d546bf311688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 12/24] fix: bare except clauses no longer swallow
 KeyboardInterrupt and SystemExit

---
 cyclic_boosting/binning/ecdf_transformer.py | 4 ++--
 cyclic_boosting/plots/_1dplots.py           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 90d40ba..0c841f3 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -396,12 +396,12 @@ def get_weight_column(X, weight_column=None):
         if isinstance(X, pd.DataFrame):
             try:
                 return np.asarray(X[weight_column])
-            except:
+            except Exception:
                 raise ValueError("Weight column {} not found in X.".format(str(weight_column)))
         else:
             try:
                 return X[:, weight_column]
-            except:
+            except Exception:
                 raise ValueError("Index {} defining weight column not found in X.".format(str(weight_column)))
     else:
         return np.ones(X.shape[0], dtype=np.float64)
diff --git a/cyclic_boosting/plots/_1dplots.py b/cyclic_boosting/plots/_1dplots.py
index fec019a..d574857 100644
--- a/cyclic_boosting/plots/_1dplots.py
+++ b/cyclic_boosting/plots/_1dplots.py
@@ -308,7 +308,7 @@ def plot_factor_1d(
         else:
             plt.plot(p, ".-", label="prediction", alpha=0.5)
             plt.plot(y, ".-", label="truth", alpha=0.5)
-    except:
+    except Exception:
         pass
 
     from cyclic_boosting.plots import _format_groupname_with_type
-- 
2.43.0


From 891874531d479be4be3d9d53dcef55348cd27409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 13/24] fix: plot_analysis closes its figures when it fails

---
 cyclic_boosting/plots/__init__.py | 78 ++++++++++++++++---------------
 1 file changed, 40 insertions(+), 38 deletions(-)

diff --git a/cyclic_boosting/plots/__init__.py b/cyclic_boosting/plots/__init__.py
index 3858b81..5a73953 100644
--- a/cyclic_boosting/plots/__init__.py
+++ b/cyclic_boosting/plots/__init__.py
@@ -185,46 +185,48 @@ def plot_analysis(
     """
     filepath_or_object = append_extension(file_obj, ".pdf")
     dpi = 200
-    with contextlib.closing(PdfPages(filepath_or_object)) as pdf_pages:
-        plot_observer.check_fitted()
-
-        # do not show for nbinom width mode
-        if plot_observer.link_function.__class__ != CBNBinomC:
-            plt.figure(figsize=figsize)
-            plot_in_sample_diagonal_plot(plot_observer)
-            plt.savefig(pdf_pages, format="pdf", dpi=dpi)
-
-        for feature in plot_observer.features:
+    try:
+        with contextlib.closing(PdfPages(filepath_or_object)) as pdf_pages:
+            plot_observer.check_fitted()
+
+            # do not show for nbinom width mode
+            if plot_observer.link_function.__class__ != CBNBinomC:
+                plt.figure(figsize=figsize)
+                plot_in_sample_diagonal_plot(plot_observer)
+                plt.savefig(pdf_pages, format="pdf", dpi=dpi)
+
+            for feature in plot_observer.features:
+                plt.figure(figsize=figsize)
+                grid = gridspec.GridSpec(1, 1)
+                _plot_one_feature_group(
+                    plot_observer,
+                    grid[0],
+                    feature,
+                    binners,
+                    use_tightlayout,
+                    plot_yp=plot_yp,
+                )
+                plt.savefig(pdf_pages, format="pdf", dpi=dpi)
+
+            # plt.figure(figsize=figsize)
+            # plot_factor_change(plot_observer)
+            # plt.savefig(pdf_pages, format="pdf", dpi=dpi)
             plt.figure(figsize=figsize)
-            grid = gridspec.GridSpec(1, 1)
-            _plot_one_feature_group(
-                plot_observer,
-                grid[0],
-                feature,
-                binners,
-                use_tightlayout,
-                plot_yp=plot_yp,
-            )
+            plot_loss(plot_observer)
             plt.savefig(pdf_pages, format="pdf", dpi=dpi)
-
-        # plt.figure(figsize=figsize)
-        # plot_factor_change(plot_observer)
-        # plt.savefig(pdf_pages, format="pdf", dpi=dpi)
-        plt.figure(figsize=figsize)
-        plot_loss(plot_observer)
-        plt.savefig(pdf_pages, format="pdf", dpi=dpi)
-        # for feature in plot_observer.features:
-        #     plt.figure(figsize=figsize)
-        #     f_sum = feature.factor_sum
-        #     # f_sum /= f_sum[-1]
-        #     plt.plot(f_sum)
-        #     plt.title(
-        #         "absolute factor sum for {} over iterations".format(
-        #             feature.feature_group
-        #         )
-        #     )
-        #     plt.savefig(pdf_pages, format="pdf", dpi=dpi)
-    plt.close("all")
+            # for feature in plot_observer.features:
+            #     plt.figure(figsize=figsize)
+            #     f_sum = feature.factor_sum
+            #     # f_sum /= f_sum[-1]
+            #     plt.plot(f_sum)
+            #     plt.title(
+            #         "absolute factor sum for {} over iterations".format(
+            #             feature.feature_group
+            #         )
+            #     )
+            #     plt.savefig(pdf_pages, format="pdf", dpi=dpi)
+    finally:
+        plt.close("all")
 
 
 @nbpy_style
-- 
2.43.0


From 3a2bae3b14076bb6a020827f1d16b83285b77324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 14/24] fix: diverging loss in iterations restricted to
 hierarchical features

Feature groups that had not been fitted yet made the training fail with a
TypeError.
---
 cyclic_boosting/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index a38f870..faaf15f 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -566,7 +566,8 @@ class CyclicBoostingBase(
 
             pred.remove_predictions(feature_predictions, feature)
 
-            feature.fitted_aggregated -= feature.factors_link
+            if feature.fitted_aggregated is not None:
+                feature.fitted_aggregated -= feature.factors_link
             feature.unbind_data()
 
     def _set_factors_per_feature(self, feature: Feature) -> Tuple[float, int]:
@@ -625,7 +626,10 @@ class CyclicBoostingBase(
                             feature.feature_group
                         )
                         warnings.warn(msg)
-                        feature.factors_link = -feature.fitted_aggregated
+                        if feature.is_fitted:
+                            feature.factors_link = -feature.fitted_aggregated
+                        else:
+                            feature.factors_link = np.zeros_like(feature.factors_link)
                         feature.smoother = ZeroSmoother()
                 elif check_diverged():
                     msg = "Feature factors for {} will be clipped due to diverging loss".format(feature.feature_group)
-- 
2.43.0


From 80f04d3e0822a418d23e0d1fbaea0bfb8538fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 15/24] fix: without aggregation, factors of a diverged
 iteration are taken back only once

remove_preds subtracted the factors and the next iteration subtracted them
again, so the in-sample prediction no longer matched the model.
---
 cyclic_boosting/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index faaf15f..1678189 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -568,6 +568,9 @@ class CyclicBoostingBase(
 
             if feature.fitted_aggregated is not None:
                 feature.fitted_aggregated -= feature.factors_link
+            if not self.aggregate:
+                # feature_iteration takes back the current factors itself
+                feature.factors_link = np.zeros_like(feature.factors_link)
             feature.unbind_data()
 
     def _set_factors_per_feature(self, feature: Feature) -> Tuple[float, int]:
-- 
2.43.0


From c1c233494e1fc5ca1eeebac60ace1b13f86454e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:23 +0000
Subject: [PATCH 16/24] fix: overlapping trainings with plotting observers
 restore the warning filters

warnings.catch_warnings saves and restores process-wide state. When two
calls overlapped, the later one restored the filters of the earlier one and
all warnings stayed ignored.
---
 cyclic_boosting/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index d82e56e..8fa1972 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1,5 +1,6 @@
 import copy
 import logging
+import threading
 import warnings
 
 import decorator
@@ -14,6 +15,8 @@ from dataclasses import dataclass
 
 _logger = logging.getLogger(__name__)
 
+_warning_filters_lock = threading.RLock()
+
 
 LOWER_1_SIGMA_QUANTILE = (1.0 - 0.6827) / 2
 LOWER_2_SIGMA_QUANTILE = (1.0 - 0.9545) / 2
@@ -492,7 +495,8 @@ def calc_means_medians(binnumbers, y, weights=None):
     3.0    2
     dtype: int64
     """
-    with warnings.catch_warnings(record=False):
+    # warning filters are process-wide, overlapping changes would not be undone
+    with _warning_filters_lock, warnings.catch_warnings(record=False):
         warnings.simplefilter("ignore")
         if weights is None or len(np.unique(weights)) == 1:
             return _calc_means_medians_evenly_weighted(binnumbers, y)
-- 
2.43.0


From bf61140670a2c82feaad5c6d0725d82aca99ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:23 +0000
Subject: [PATCH 17/24] fix: PlottingObserver reset does not call constructors
 of subclasses

---
 cyclic_boosting/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index fc8f973..df1c346 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -144,7 +144,7 @@ class PlottingObserver(BaseObserver):
 
         if iteration == 0:
             # a new training starts: forget everything recorded before
-            self.__init__(iteration=self.iteration)
+            PlottingObserver.__init__(self, iteration=self.iteration)
 
         if (iteration <= self.iteration and iteration != -1) or self.iteration == -1:
             self.loss.append(estimator_state["insample_loss"])
-- 
2.43.0


From 41d3129477a64d0b76d3c0de928fc38adca3580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:48 +0000
Subject: [PATCH 18/24] fix: overlapping trainings restore the pandas options
 changed by groupby-apply

---
 cyclic_boosting/generic_loss.py       | 12 +++++++-----
 cyclic_boosting/smoothing/multidim.py |  4 +++-
 cyclic_boosting/utils.py              | 10 ++++++----
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index c8963fa..bc5d8a7 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -13,7 +13,7 @@ from scipy.stats import beta
 
 from cyclic_boosting.base import CyclicBoostingBase, gaussian_matching_by_quantiles, Feature, CBLinkPredictionsFactors
 from cyclic_boosting.link import LogLinkMixin, IdentityLinkMixin, LogitLinkMixin
-from cyclic_boosting.utils import continuous_quantile_from_discrete_pdf, get_X_column
+from cyclic_boosting.utils import continuous_quantile_from_discrete_pdf, get_X_column, process_state_lock
 from cyclic_boosting.classification import get_beta_priors
 
 from typing import Tuple, Union
@@ -278,11 +278,13 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
             def df_continuous_quantile_from_discrete_pdf(df, quantile):
                 return continuous_quantile_from_discrete_pdf(df["y"], quantile, df["weights"])
 
-            mean_target_binned = np.asarray(
-                df.groupby("binnumbers")[["y", "weights"]].apply(
-                    df_continuous_quantile_from_discrete_pdf, quantile=self.quantile
+            # DataFrameGroupBy.apply changes pandas options temporarily
+            with process_state_lock:
+                mean_target_binned = np.asarray(
+                    df.groupby("binnumbers")[["y", "weights"]].apply(
+                        df_continuous_quantile_from_discrete_pdf, quantile=self.quantile
+                    )
                 )
-            )
 
             mean_prediction_binned = sum_pw / sum_w
             mean_prediction_binned = np.where(np.isfinite(mean_prediction_binned), mean_prediction_binned, 1.0)
diff --git a/cyclic_boosting/smoothing/multidim.py b/cyclic_boosting/smoothing/multidim.py
index 14e0198..9007856 100644
--- a/cyclic_boosting/smoothing/multidim.py
+++ b/cyclic_boosting/smoothing/multidim.py
@@ -329,7 +329,9 @@ class GroupBySmoother(AbstractBinSmoother):
             y = y[mask]
         X = pd.DataFrame(np.c_[X_for_smoother, y])
         self.group_cols = list(range(self.n_group_columns))
-        self.gb = X.groupby(self.group_cols, sort=False).apply(_fit_est_on_group, self.n_group_columns, self.est)
+        # DataFrameGroupBy.apply changes pandas options temporarily
+        with utils.process_state_lock:
+            self.gb = X.groupby(self.group_cols, sort=False).apply(_fit_est_on_group, self.n_group_columns, self.est)
 
     def predict(self, X):
         X = pd.DataFrame(X)
diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index 8fa1972..da134b2 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -15,7 +15,7 @@ from dataclasses import dataclass
 
 _logger = logging.getLogger(__name__)
 
-_warning_filters_lock = threading.RLock()
+process_state_lock = threading.RLock()
 
 
 LOWER_1_SIGMA_QUANTILE = (1.0 - 0.6827) / 2
@@ -495,8 +495,9 @@ def calc_means_medians(binnumbers, y, weights=None):
     3.0    2
     dtype: int64
     """
-    # warning filters are process-wide, overlapping changes would not be undone
-    with _warning_filters_lock, warnings.catch_warnings(record=False):
+    # warning filters and the pandas options changed in DataFrameGroupBy.apply are process-wide,
+    # overlapping changes would not be undone
+    with process_state_lock, warnings.catch_warnings(record=False):
         warnings.simplefilter("ignore")
         if weights is None or len(np.unique(weights)) == 1:
             return _calc_means_medians_evenly_weighted(binnumbers, y)
@@ -506,7 +507,8 @@ def calc_means_medians(binnumbers, y, weights=None):
 
 def calc_weighted_quantile(binnumbers, y, weights, quantile):
     df = pd.DataFrame({"y": y, "weights": weights, "binnumbers": binnumbers})
-    return df.groupby("binnumbers").apply(_weighted_quantile_of_dataframe(quantile))
+    with process_state_lock:
+        return df.groupby("binnumbers").apply(_weighted_quantile_of_dataframe(quantile))
 
 
 def _calc_means_medians_evenly_weighted(binnumbers, y):
-- 
2.43.0


From 2f4946492506168a4221b1551e64800485c9f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:45 +0000
Subject: [PATCH 19/24] fix: plot_analysis reports the write error itself and
 closes its file

---
 cyclic_boosting/plots/__init__.py | 83 ++++++++++++++++---------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/cyclic_boosting/plots/__init__.py b/cyclic_boosting/plots/__init__.py
index 5a73953..fd35ccf 100644
--- a/cyclic_boosting/plots/__init__.py
+++ b/cyclic_boosting/plots/__init__.py
@@ -185,48 +185,51 @@ def plot_analysis(
     """
     filepath_or_object = append_extension(file_obj, ".pdf")
     dpi = 200
-    try:
-        with contextlib.closing(PdfPages(filepath_or_object)) as pdf_pages:
-            plot_observer.check_fitted()
-
-            # do not show for nbinom width mode
-            if plot_observer.link_function.__class__ != CBNBinomC:
-                plt.figure(figsize=figsize)
-                plot_in_sample_diagonal_plot(plot_observer)
-                plt.savefig(pdf_pages, format="pdf", dpi=dpi)
-
-            for feature in plot_observer.features:
-                plt.figure(figsize=figsize)
-                grid = gridspec.GridSpec(1, 1)
-                _plot_one_feature_group(
-                    plot_observer,
-                    grid[0],
-                    feature,
-                    binners,
-                    use_tightlayout,
-                    plot_yp=plot_yp,
-                )
-                plt.savefig(pdf_pages, format="pdf", dpi=dpi)
-
-            # plt.figure(figsize=figsize)
-            # plot_factor_change(plot_observer)
-            # plt.savefig(pdf_pages, format="pdf", dpi=dpi)
+    with contextlib.ExitStack() as stack:
+        stack.callback(plt.close, "all")
+        if not hasattr(filepath_or_object, "write"):
+            filepath_or_object = stack.enter_context(open(filepath_or_object, "wb"))
+        pdf_pages = PdfPages(filepath_or_object)
+        plot_observer.check_fitted()
+
+        # do not show for nbinom width mode
+        if plot_observer.link_function.__class__ != CBNBinomC:
             plt.figure(figsize=figsize)
-            plot_loss(plot_observer)
+            plot_in_sample_diagonal_plot(plot_observer)
             plt.savefig(pdf_pages, format="pdf", dpi=dpi)
-            # for feature in plot_observer.features:
-            #     plt.figure(figsize=figsize)
-            #     f_sum = feature.factor_sum
-            #     # f_sum /= f_sum[-1]
-            #     plt.plot(f_sum)
-            #     plt.title(
-            #         "absolute factor sum for {} over iterations".format(
-            #             feature.feature_group
-            #         )
-            #     )
-            #     plt.savefig(pdf_pages, format="pdf", dpi=dpi)
-    finally:
-        plt.close("all")
+
+        for feature in plot_observer.features:
+            plt.figure(figsize=figsize)
+            grid = gridspec.GridSpec(1, 1)
+            _plot_one_feature_group(
+                plot_observer,
+                grid[0],
+                feature,
+                binners,
+                use_tightlayout,
+                plot_yp=plot_yp,
+            )
+            plt.savefig(pdf_pages, format="pdf", dpi=dpi)
+
+        # plt.figure(figsize=figsize)
+        # plot_factor_change(plot_observer)
+        # plt.savefig(pdf_pages, format="pdf", dpi=dpi)
+        plt.figure(figsize=figsize)
+        plot_loss(plot_observer)
+        plt.savefig(pdf_pages, format="pdf", dpi=dpi)
+        # for feature in plot_observer.features:
+        #     plt.figure(figsize=figsize)
+        #     f_sum = feature.factor_sum
+        #     # f_sum /= f_sum[-1]
+        #     plt.plot(f_sum)
+        #     plt.title(
+        #         "absolute factor sum for {} over iterations".format(
+        #             feature.feature_group
+        #         )
+        #     )
+        #     plt.savefig(pdf_pages, format="pdf", dpi=dpi)
+        # not done after an error, which would be replaced by consequential ones
+        pdf_pages.close()
 
 
 @nbpy_style
-- 
2.43.0


From 71657dc6102002bc9585b0ad6042169f98af67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:02 +0000
Subject: [PATCH 20/24] fix: factor plots do not silently drop curves when
 drawing them fails

---
 cyclic_boosting/plots/_1dplots.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cyclic_boosting/plots/_1dplots.py b/cyclic_boosting/plots/_1dplots.py
index d574857..f8de244 100644
--- a/cyclic_boosting/plots/_1dplots.py
+++ b/cyclic_boosting/plots/_1dplots.py
@@ -301,15 +301,13 @@ def plot_factor_1d(
             x_axis_range = (x_axis_range + np.append(x_axis_range, x_axis_range[-1] + 1)[1:]) / 2
         _plot_factors(factors, x_axis_range, label, uncertainties if with_errorbars else None)
 
-    try:
+    if y is not None and p is not None:
         if len(factors) > 1:
             plt.plot(p[:-1], ".-", label="prediction", alpha=0.5)
             plt.plot(y[:-1], ".-", label="truth", alpha=0.5)
         else:
             plt.plot(p, ".-", label="prediction", alpha=0.5)
             plt.plot(y, ".-", label="truth", alpha=0.5)
-    except Exception:
-        pass
 
     from cyclic_boosting.plots import _format_groupname_with_type
 
-- 
2.43.0


From ce9ea99183b819f0e4b994820a6bda0fcba9713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:18 +0000
Subject: [PATCH 21/24] fix: an aborted binning fit does not leave some of the
 new bins behind

---
 cyclic_boosting/binning/ecdf_transformer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 0c841f3..c9e1ff8 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -206,7 +206,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
 
     def fit(self, X, y=None):
         self._nbins_per_feature = self._normalize_bins(self.n_bins)
-        self.bins_and_cdfs_ = []
+        fitted_bins_and_cdfs = []
 
         if check_frame_empty(X):
             raise ValueError("Your input matrix for the binning is empty.")
@@ -226,7 +226,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
             bins_x, cdf_x, _wsum, _n_nan = calculate_cdf_from_weighted_data(x_col.astype(float), weights)
 
             if len(bins_x) == 0 or len(cdf_x) == 0:
-                self.bins_and_cdfs_.append((col, self.epsilon, None))
+                fitted_bins_and_cdfs.append((col, self.epsilon, None))
                 continue
 
             if flags.is_ordered_set(feature_prop) or flags.is_unordered_set(feature_prop):
@@ -248,7 +248,8 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
 
             epsilon = self.epsilon * minimal_difference(bin_boundaries)
 
-            self.bins_and_cdfs_.append((col, epsilon, bins_and_cdfs))
+            fitted_bins_and_cdfs.append((col, epsilon, bins_and_cdfs))
+        self.bins_and_cdfs_ = fitted_bins_and_cdfs
         return self
 
     def _check_input_for_transform(self, X):
-- 
2.43.0


From 1df04d22cefc318d535f7c96b4ece661aa4ae348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:25 +0000
Subject: [PATCH 22/24] fix: concurrent calls no longer evaluate each other's
 numexpr expressions

numexpr.evaluate hands the compiled expression over in a module variable.
Two threads predicting or training at the same time could therefore get the
result of the other thread's expression, or a KeyError.
---
 cyclic_boosting/base.py       |  6 +++---
 cyclic_boosting/link.py       | 13 +++++++------
 cyclic_boosting/location.py   |  5 ++---
 cyclic_boosting/price.py      |  3 +--
 cyclic_boosting/regression.py |  6 +++---
 cyclic_boosting/utils.py      | 14 ++++++++++++++
 6 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 1678189..ae3b917 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -4,7 +4,6 @@ import abc
 import logging
 import warnings
 
-import numexpr
 import numpy as np
 import pandas as pd
 from pandas.api.extensions import ExtensionArray
@@ -18,6 +17,7 @@ from cyclic_boosting.common_smoothers import SmootherChoice
 from cyclic_boosting.features import create_features, Feature, FeatureList, FeatureTypes, create_feature_id
 from cyclic_boosting.link import IdentityLinkMixin, LogLinkMixin
 from cyclic_boosting.utils import (
+    evaluate,
     slice_finite_semi_positive,
     nans,
     get_X_column,
@@ -334,8 +334,8 @@ class CyclicBoostingBase(
         if not len(y) > 0:
             raise ValueError("Loss cannot be computed on empty data")
         else:
-            sum_weighted_error = numexpr.evaluate("sum((prediction - y) * (prediction - y) * weights)")
-            sum_weights = numexpr.evaluate("sum(weights)")
+            sum_weighted_error = evaluate("sum((prediction - y) * (prediction - y) * weights)")
+            sum_weights = evaluate("sum(weights)")
             return sum_weighted_error / sum_weights
 
     @property
diff --git a/cyclic_boosting/link.py b/cyclic_boosting/link.py
index 8a2844d..496fa70 100644
--- a/cyclic_boosting/link.py
+++ b/cyclic_boosting/link.py
@@ -8,10 +8,11 @@ from __future__ import absolute_import, division, print_function
 
 import abc
 
-import numexpr
 import numpy as np
 import six
 
+from cyclic_boosting.utils import evaluate
+
 
 @six.add_metaclass(abc.ABCMeta)
 class LinkFunction(object):
@@ -46,7 +47,7 @@ class LogLinkMixin(LinkFunction):
 
            \mu = \exp(l)
         """
-        return numexpr.evaluate("exp(l)")
+        return evaluate("exp(l)")
 
     def is_in_range(self, m: np.ndarray) -> bool:
         return np.all(m > 0.0)
@@ -58,7 +59,7 @@ class LogLinkMixin(LinkFunction):
 
            l = \log(\mu)
         """
-        return numexpr.evaluate("log(m)")
+        return evaluate("log(m)")
 
 
 class LogitLinkMixin(LinkFunction):
@@ -68,7 +69,7 @@ class LogitLinkMixin(LinkFunction):
     """
 
     def is_in_range(self, p: np.ndarray) -> bool:
-        return np.all(numexpr.evaluate("(p >= 0.0) & (p <= 1.0)"))
+        return np.all(evaluate("(p >= 0.0) & (p <= 1.0)"))
 
     def link_func(self, p: np.ndarray) -> np.ndarray:
         r"""Calculates the logit-link
@@ -77,7 +78,7 @@ class LogitLinkMixin(LinkFunction):
 
            l = \log(\frac{p}{1-p})
         """
-        return numexpr.evaluate("log(p / (1. - p))")
+        return evaluate("log(p / (1. - p))")
 
     def unlink_func(self, l: np.ndarray) -> np.ndarray:
         r"""Inverse of logit-link
@@ -86,7 +87,7 @@ class LogitLinkMixin(LinkFunction):
 
            p = \frac{1}{1+ \exp(-l)}
         """
-        return numexpr.evaluate("1. / (1. + exp(-l))")
+        return evaluate("1. / (1. + exp(-l))")
 
 
 class IdentityLinkMixin(LinkFunction):
diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 15e2ad8..4cf00dd 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -6,13 +6,12 @@ from __future__ import absolute_import, division, print_function
 
 import logging
 
-import numexpr
 import numpy as np
 import sklearn.base
 
 from cyclic_boosting.base import CyclicBoostingBase, calc_factors_generic
 from cyclic_boosting.link import IdentityLinkMixin
-from cyclic_boosting.utils import weighted_stddev
+from cyclic_boosting.utils import evaluate, weighted_stddev
 
 _logger = logging.getLogger(__name__)
 
@@ -56,7 +55,7 @@ class CBLocPoissonRegressor(CyclicBoostingBase, sklearn.base.RegressorMixin, Ide
         y_sum, bincount, global_std = prefit_data
         weights = self.weights
 
-        variance = numexpr.evaluate("where(prediction <= 0., 1, prediction)")
+        variance = evaluate("where(prediction <= 0., 1, prediction)")
 
         factor_numerator = np.bincount(
             lex_binnumbers,
diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index a5917cd..d1c98f7 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -8,14 +8,13 @@ import logging
 
 import numpy as np
 import pandas as pd
-from numexpr import evaluate
 from six.moves import range
 
 from cyclic_boosting import CBNBinomRegressor
 from cyclic_boosting.features import FeatureTypes, create_feature_id
 from cyclic_boosting.base import UpdateMixin
 from cyclic_boosting.regression import _calc_factors_and_uncertainties
-from cyclic_boosting.utils import get_X_column
+from cyclic_boosting.utils import evaluate, get_X_column
 
 _logger = logging.getLogger(__name__)
 
diff --git a/cyclic_boosting/regression.py b/cyclic_boosting/regression.py
index 5493553..39f6440 100644
--- a/cyclic_boosting/regression.py
+++ b/cyclic_boosting/regression.py
@@ -3,7 +3,6 @@ from __future__ import absolute_import, division, print_function
 import abc
 import logging
 
-import numexpr
 import numpy as np
 import six
 import sklearn.base
@@ -12,6 +11,7 @@ import scipy.special
 from cyclic_boosting.base import CyclicBoostingBase, CBLinkPredictionsFactors
 from cyclic_boosting.features import Feature
 from cyclic_boosting.link import LogLinkMixin
+from cyclic_boosting.utils import evaluate
 
 from typing import Tuple
 
@@ -152,8 +152,8 @@ class CBNBinomRegressor(CBBaseRegressor):
         prediction_link = pred.predict_link()
         prediction = self.unlink_func(prediction_link)  # noqa: F841
 
-        alpha_w = numexpr.evaluate("weights * y / (a + c * prediction)")
-        beta_w = numexpr.evaluate("weights * prediction / (a + c * prediction)")
+        alpha_w = evaluate("weights * y / (a + c * prediction)")
+        beta_w = evaluate("weights * prediction / (a + c * prediction)")
 
         lex_binnumbers = feature.lex_binned_data
         minlength = feature.n_bins
diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index da134b2..609833b 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1,10 +1,12 @@
 import copy
 import logging
+import sys
 import threading
 import warnings
 
 import decorator
 import numba as nb
+import numexpr
 import numpy as np
 import pandas as pd
 import six
@@ -16,6 +18,18 @@ from dataclasses import dataclass
 _logger = logging.getLogger(__name__)
 
 process_state_lock = threading.RLock()
+numexpr_lock = threading.RLock()
+
+
+def evaluate(expression):
+    """Thread-safe :func:`numexpr.evaluate` on the local variables of the caller.
+
+    Some versions of numexpr pass the compiled expression on in a module
+    variable, so that concurrent calls would evaluate each other's expressions.
+    """
+    variables = sys._getframe(1).f_locals
+    with numexpr_lock:
+        return numexpr.evaluate(expression, local_dict=variables, global_dict={})
 
 
 LOWER_1_SIGMA_QUANTILE = (1.0 - 0.6827) / 2
-- 
2.43.0


From 644706efcabbdb10dc47b63fa2297ae50a70352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:03:34 +0000
Subject: [PATCH 23/24] fix: concurrent trainings with generic losses leave the
 warning filters as they were

---
 cyclic_boosting/generic_loss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index bc5d8a7..110ec50 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -121,7 +121,9 @@ class CBGenericLoss(CyclicBoostingBase):
             estimated parameter and its uncertainty
         """
         neutral_factor = self.unlink_func(np.array(self.neutral_factor_link))
-        res = minimize(self.objective_function, neutral_factor, args=(yhat_others, y, weights))
+        # the line search of the solver temporarily changes the process-wide warning filters
+        with process_state_lock:
+            res = minimize(self.objective_function, neutral_factor, args=(yhat_others, y, weights))
         return res.x, self.uncertainty(y, weights)
 
     def objective_function(self, param: float, yhat_others: np.ndarray, y: np.ndarray, weights: np.ndarray) -> float:
-- 
2.43.0


From 59868eead3c9a05dd7cc71646ad53aad04d41886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:52 +0000
Subject: [PATCH 24/24] fix: smoothers and interaction selection leave the
 warning filters as they were when calls overlap

---
 cyclic_boosting/interaction_selection.py |  6 ++++--
 cyclic_boosting/smoothing/onedim.py      | 14 ++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/cyclic_boosting/interaction_selection.py b/cyclic_boosting/interaction_selection.py
index f6cd227..feca692 100644
--- a/cyclic_boosting/interaction_selection.py
+++ b/cyclic_boosting/interaction_selection.py
@@ -5,7 +5,7 @@ import pandas as pd
 from sklearn.feature_selection import SelectKBest, f_regression, f_classif
 
 from cyclic_boosting.binning import BinNumberTransformer
-from cyclic_boosting.utils import multidim_binnos_to_lexicographic_binnos
+from cyclic_boosting.utils import multidim_binnos_to_lexicographic_binnos, process_state_lock
 
 from typing import List, Tuple, Dict, Optional
 
@@ -106,5 +106,7 @@ def select_interaction_terms_anova(
         anova_est = SelectKBest(f_classif, k=k_best)
     else:
         anova_est = SelectKBest(f_regression, k=k_best)
-    anova_est.fit(interaction_term_features, y)
+    # scikit-learn temporarily changes the process-wide warning filters
+    with process_state_lock:
+        anova_est.fit(interaction_term_features, y)
     return list(anova_est.get_feature_names_out(input_features=interaction_term_features.columns))
diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index 0eb1d79..0251403 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -453,7 +453,9 @@ class SeasonalLassoSmoother(AbstractBinSmoother):
             if not self.est:
                 raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
             Xt = self.prepare_X(X[:, 0])
-            return self.est.predict(Xt)
+            # scikit-learn temporarily changes the process-wide warning filters
+            with utils.process_state_lock:
+                return self.est.predict(Xt)
         else:
             return self._fallback_predict(X)
 
@@ -469,7 +471,8 @@ class SeasonalLassoSmoother(AbstractBinSmoother):
             self.fallback_mode = False
             X = self.prepare_X(X_for_smoother[:, 0].copy())
             self.est = LassoLarsIC(positive=True, fit_intercept=False)
-            self.est.fit(X, y)
+            with utils.process_state_lock:
+                self.est.fit(X, y)
         return self
 
 
@@ -753,13 +756,16 @@ class IsotonicRegressor(AbstractBinSmoother):
         sigma = np.where(sigma > 0, sigma, 1e12)
         w = 1.0 / (sigma * sigma)
         self.est_ = sklearn.isotonic.IsotonicRegression(increasing=self.increasing, out_of_bounds="clip")
-        self.est_.fit(X[:, 0], y.astype(np.float64), sample_weight=w)
+        # scikit-learn temporarily changes the process-wide warning filters
+        with utils.process_state_lock:
+            self.est_.fit(X[:, 0], y.astype(np.float64), sample_weight=w)
         return self
 
     def predict(self, X):
         if self.est_ is None:
             raise ValueError("IsotonicRegressor has not been fitted!")
-        return self.est_.predict(X.astype(np.float64)[:, 0])
+        with utils.process_state_lock:
+            return self.est_.predict(X.astype(np.float64)[:, 0])
 
 
 __all__ = [
-- 
2.43.0

