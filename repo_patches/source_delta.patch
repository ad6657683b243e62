From b8e2ac5c02c8f6d46c3a3603fe4d86479eac7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:38 +0000
Subject: [PATCH 01/55] fix: repeated observation corrupts recorded original
 value (in-place add on a view)

---
 pyvbmc/function_logger/function_logger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 29cda8b..ee6ee1b 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -385,9 +385,12 @@ class FunctionLogger:
                     N + 1
                 )
 
-            f_val = self.y_orig[idx]
+            # Scalar copy (a view would change the recorded y_orig below)
+            f_val = self.y_orig[idx, 0]
             if self.transform_parameters:
-                f_val += self.parameter_transformer.log_abs_det_jacobian(x)
+                f_val += self.parameter_transformer.log_abs_det_jacobian(
+                    np.reshape(x, (1, x.shape[0]))
+                )[0]
             self.y[idx] = f_val
             self.fun_eval_time[idx] = (
                 N * self.fun_eval_time[idx] + fun_eval_time
-- 
2.43.0


From d2a3d4e094f1fd84778bf94c07bb5112548a2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:38 +0000
Subject: [PATCH 02/55] fix: best recorded value not updated when a point is
 observed again

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index ee6ee1b..1d0af6c 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -396,6 +396,7 @@ class FunctionLogger:
                 N * self.fun_eval_time[idx] + fun_eval_time
             ) / (N + 1)
             self.n_evals[idx] += 1
+            self.y_max = np.nanmax(self.y[self.X_flag])
             return f_val, idx
         else:
             self.Xn += 1
-- 
2.43.0


From 0ae924d8c0411dd1b8bb4e4b9f92c772aaa42bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:38 +0000
Subject: [PATCH 03/55] fix: evaluation time of repeated observations missing
 from the total

---
 pyvbmc/function_logger/function_logger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 1d0af6c..da1f738 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -395,6 +395,8 @@ class FunctionLogger:
             self.fun_eval_time[idx] = (
                 N * self.fun_eval_time[idx] + fun_eval_time
             ) / (N + 1)
+            if not np.isnan(fun_eval_time):
+                self.total_fun_eval_time += fun_eval_time
             self.n_evals[idx] += 1
             self.y_max = np.nanmax(self.y[self.X_flag])
             return f_val, idx
-- 
2.43.0


From 981cd03c7c27d88f4a67369222939a35ed17a245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:38 +0000
Subject: [PATCH 04/55] fix: FunctionLogger.finalize leaves n_evals out of step
 with the record

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index da1f738..0f65f6f 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -288,6 +288,7 @@ class FunctionLogger:
             self.S = self.S[: self.Xn + 1]
         self.X_flag = self.X_flag[: self.Xn + 1]
         self.fun_eval_time = self.fun_eval_time[: self.Xn + 1]
+        self.n_evals = self.n_evals[: self.Xn + 1]
 
     def _expand_arrays(self, resize_amount: int = None):
         """
-- 
2.43.0


From ef87cdfe7a1cdf640e306e6192917249682036fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:02 +0000
Subject: [PATCH 05/55] fix: complex value with zero imaginary part leaves a
 half-recorded evaluation

---
 pyvbmc/function_logger/function_logger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 0f65f6f..9082739 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -154,6 +154,8 @@ class FunctionLogger:
             The returned function value must be a finite real-valued scalar
             (returned value {})"""
             raise ValueError(error_message.format(str(f_val_orig)))
+        # A complex number passing the check has no imaginary part
+        f_val_orig = np.real(f_val_orig)
 
         # Check returned function SD
         if self.noise_flag and (
@@ -255,6 +257,8 @@ class FunctionLogger:
             The returned function value must be a finite real-valued scalar
             (returned value {})"""
             raise ValueError(error_message.format(str(f_val_orig)))
+        # A complex number passing the check has no imaginary part
+        f_val_orig = np.real(f_val_orig)
 
         # Check returned function SD
         if self.noise_flag and (
-- 
2.43.0


From c87917eb6a65d9f373459bfd3cf19f996d6450eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:04 +0000
Subject: [PATCH 06/55] fix: a target that modifies its argument corrupts the
 record

---
 pyvbmc/function_logger/function_logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 9082739..94b62e5 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -116,12 +116,14 @@ class FunctionLogger:
         else:
             x_orig = x
 
+        # Pass a copy, so that a target that modifies its input in place does
+        # not modify the recorded point
         timer.start_timer("fun_time")
         try:
             if self.noise_flag and self.uncertainty_handling_level == 2:
-                f_val_orig, f_sd = self.fun(x_orig)
+                f_val_orig, f_sd = self.fun(x_orig.copy())
             else:
-                f_val_orig = self.fun(x_orig)
+                f_val_orig = self.fun(x_orig.copy())
                 if self.noise_flag:
                     f_sd = 1
                 else:
-- 
2.43.0


From 2dd741dcf0e946afae1b6c52c049f73fff08bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:04 +0000
Subject: [PATCH 07/55] fix: GP training timer left running during active
 sampling without GP updates

---
 pyvbmc/vbmc/active_sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 1dac2c0..40e33e6 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -531,12 +531,12 @@ def active_sample(
                                 optim_state["plb_tran"],
                                 optim_state["pub_tran"],
                             )
-                            timer.stop_timer("gp_train")
                         else:
                             if gptmp is None:
                                 gp = reupdate_gp(function_logger, gp)
                             else:
                                 gp = gptmp
+                        timer.stop_timer("gp_train")
 
                         if options["active_sample_vp_update"]:
                             # Quick variational optimization
-- 
2.43.0


From e042d3ef9b6f8fbeb54dba9d9e04453ecc94ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:13 +0000
Subject: [PATCH 08/55] fix: entropy_switch crashes (option looked up in the
 optimization state)

---
 pyvbmc/vbmc/vbmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index d8d6118..ff1d2fc 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -877,8 +877,8 @@ class VBMC:
             # deterministic.
             if self.optim_state.get("entropy_switch") and (
                 self.function_logger.func_count
-                >= self.optim_state.get("entropy_force_switch")
-                * self.optim_state.get("max_fun_evals")
+                >= self.options.get("entropy_force_switch")
+                * self.options.get("max_fun_evals")
             ):
                 self.optim_state["entropy_switch"] = False
                 self.logging_action.append("entropy switch")
-- 
2.43.0


From 91d61ab30dad41103e25c0df616bff9222f59d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:51 +0000
Subject: [PATCH 09/55] fix: search cache unusable (crash while empty and when
 warped)

---
 pyvbmc/vbmc/active_sample.py  | 11 ++++++-----
 pyvbmc/whitening/whitening.py |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 40e33e6..b96c15c 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -715,11 +715,12 @@ def _get_search_points(
         )
         if N_search_cache > 0:  # Take points from search cache
             search_cache = optim_state.get("search_cache")
-            random_Xs = np.append(
-                random_Xs,
-                search_cache[: min(len(search_cache), N_search_cache)],
-                axis=0,
-            )
+            # The cache is empty until the first search
+            N_search_cache = min(len(search_cache), N_search_cache)
+            if N_search_cache > 0:
+                random_Xs = np.append(
+                    random_Xs, search_cache[:N_search_cache], axis=0
+                )
 
         N_heavy = round(
             options.get("heavy_tail_search_frac") * N_random_points
diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 2cbcd9e..c0dc9a5 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -219,7 +219,7 @@ def warp_input(vp, optim_state, function_logger, options):
     optim_state["ub_search"] = np.atleast_2d(yyMax + delta / Nrnd)
 
     # If search cache is not empty, update it
-    if optim_state.get("search_cache"):
+    if len(optim_state.get("search_cache", [])) > 0:
         optim_state["search_cache"] = warpfun(optim_state["search_cache"])
 
     # Update other state fields
-- 
2.43.0


From 642fdd479acea2157814793151bbe3d26bd2a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:14 +0000
Subject: [PATCH 10/55] fix: separate_search_gp crashes (search GP overwrites
 the main GP's hyperparameters)

---
 pyvbmc/vbmc/vbmc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index ff1d2fc..1e36ebe 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1064,8 +1064,12 @@ class VBMC:
                         meantemp = self.optim_state.get("gp_mean_fun")
                         self.optim_state["gp_mean_fun"] = "const"
                         timer.start_timer("separate_gp_train")
-                        gp_search, Ns_gp, sn2_hpd, self.hyp_dict = train_gp(
-                            self.hyp_dict,
+                        # Work on a copy: the hyperparameters of the search GP
+                        # (constant mean) do not fit those of the main GP
+                        hyp_dict_search = copy.deepcopy(self.hyp_dict)
+                        hyp_dict_search["run_cov"] = None
+                        gp_search, Ns_gp, sn2_hpd, __ = train_gp(
+                            hyp_dict_search,
                             self.optim_state,
                             self.function_logger,
                             self.iteration_history,
-- 
2.43.0


From c4a3c93548435573a0d8e009854498fe8fa6486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:14 +0000
Subject: [PATCH 11/55] fix: small tol_stable_warmup crashes the warm-up
 stability check

---
 pyvbmc/vbmc/vbmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 1e36ebe..9e66f11 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1605,7 +1605,8 @@ class VBMC:
         )
 
         # MATLAB has +1 on the right side due to different indexing.
-        if iteration > tol_stable_warmup_iters:
+        # (At least one iteration is needed past those ignored below.)
+        if iteration > max(tol_stable_warmup_iters, 2):
             # Vector of ELCBO (ignore first two iterations, ELCBO is unreliable)
             elcbo_vec = self.iteration_history.get("elbo") - self.options.get(
                 "elcbo_impro_weight"
-- 
2.43.0


From 840c73cde6580e4988909813fb95865b957e3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 12/55] fix: loss of precision in the deterministic-entropy
 optimization aborts inference

---
 pyvbmc/vbmc/variational_optimization.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 665ae47..c4140f9 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -202,8 +202,12 @@ def optimize_vp(
         if ns_ent_K == 0:
             # Fast optimization via deterministic entropy approximation
 
+            # Best point evaluated so far, in case the optimizer stops early
+            theta_best, f_best = None, np.inf
+
             # Objective function
             def vb_train_fun(theta_):
+                nonlocal theta_best, f_best
                 res = _neg_elcbo(
                     theta_,
                     gp,
@@ -214,6 +218,8 @@ def optimize_vp(
                     compute_var=compute_var,
                     theta_bnd=theta_bnd,
                 )
+                if res[0] < f_best:
+                    theta_best, f_best = np.copy(theta_), res[0]
                 if compute_grad:
                     return res[0], res[1]
                 return res[0]
@@ -225,14 +231,18 @@ def optimize_vp(
                 tol=options["det_entropy_tol_opt"],
             )
 
-            if not res.success:
+            if res.success:
+                theta_opt = res.x
+            elif theta_best is not None:
+                # SciPy minimize stopped early (e.g., because of a loss of
+                # precision in the line search), keep the best point
+                theta_opt = theta_best
+            else:
                 # SciPy minimize failed
                 raise RuntimeError(
                     "Cannot optimize variational parameters with",
                     "scipy.optimize.minimize.",
                 )
-            else:
-                theta_opt = res.x
         else:
             # Objective function, should only return value and gradient.
             def vb_train_mc_fun(theta_):
-- 
2.43.0


From ed9bafe49d391aab96cf44b9f4267f7765793f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 13/55] fix: overflow when reweighting warped components gives
 invalid weights

---
 pyvbmc/whitening/whitening.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index c0dc9a5..2c77acd 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -369,7 +369,9 @@ def warp_gp_and_vp(parameter_transformer, gp_old, vp_old, vbmc):
     dy_old = vp_old.parameter_transformer.log_abs_det_jacobian(mu)
     dy = parameter_transformer.log_abs_det_jacobian(muw)
 
-    ww = vp_old.w * np.exp((dy - dy_old) / T)
+    # (the constant keeps the exponential from overflowing)
+    ddy = (dy - dy_old) / T
+    ww = vp_old.w * np.exp(ddy - np.max(ddy))
     vp.w = ww / np.sum(ww)
 
     return vp, hyp_warped
-- 
2.43.0


From 45a7a4ef1e2626815ec9d75bf0c99d739e6a38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 14/55] fix: warped components of zero width give an invalid
 posterior

---
 pyvbmc/whitening/whitening.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 2c77acd..354f97e 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -352,6 +352,9 @@ def warp_gp_and_vp(parameter_transformer, gp_old, vp_old, vbmc):
     sigmalambda = (vp_old.lambd * vp_old.sigma).T
 
     (muw, sigmalambdaw, __) = unscent_warp(warpfun, mu, sigmalambda)
+    # Components deep in the tails of a bounded transform can collapse to zero
+    # width, keep scales positive
+    sigmalambdaw = np.maximum(sigmalambdaw, np.finfo(np.float64).eps)
 
     vp.mu = muw.T
     lambdaw = np.sqrt(
-- 
2.43.0


From 18c7e4518b166b64c9475b1b0dbab29615ded052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:31 +0000
Subject: [PATCH 15/55] fix: underflow when reweighting warped components gives
 zero weights

---
 pyvbmc/whitening/whitening.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 354f97e..78e9a20 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -375,6 +375,8 @@ def warp_gp_and_vp(parameter_transformer, gp_old, vp_old, vbmc):
     # (the constant keeps the exponential from overflowing)
     ddy = (dy - dy_old) / T
     ww = vp_old.w * np.exp(ddy - np.max(ddy))
+    # Keep weights strictly positive (their logarithm is optimized)
+    ww = np.maximum(ww, np.finfo(np.float64).eps * np.max(ww))
     vp.w = ww / np.sum(ww)
 
     return vp, hyp_warped
-- 
2.43.0


From 4badafce65edda45761a31852404dede3a6b1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 16/55] fix: arrays and options passed to VBMC stay shared with
 the caller

---
 pyvbmc/vbmc/vbmc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 9e66f11..cfcf7d2 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -160,6 +160,15 @@ class VBMC:
             else:
                 x0 = np.full((plausible_lower_bounds.shape), np.nan)
 
+        # Work on copies, do not share arrays or options with the caller
+        x0, lower_bounds, upper_bounds = map(
+            copy.deepcopy, (x0, lower_bounds, upper_bounds)
+        )
+        plausible_lower_bounds, plausible_upper_bounds, options = map(
+            copy.deepcopy,
+            (plausible_lower_bounds, plausible_upper_bounds, options),
+        )
+
         if x0.ndim == 1:
             logging.warning("Reshaping x0 to row vector.")
             x0 = x0.reshape((1, -1))
-- 
2.43.0


From 83553dcda68d60cde0905f83f4f11a4bccb25f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 17/55] fix: record_iteration records part of its values when
 one key is unknown

---
 pyvbmc/vbmc/iteration_history.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/iteration_history.py b/pyvbmc/vbmc/iteration_history.py
index 0e4ba5b..14932e3 100644
--- a/pyvbmc/vbmc/iteration_history.py
+++ b/pyvbmc/vbmc/iteration_history.py
@@ -144,14 +144,16 @@ class IterationHistory(MutableMapping, dict):
         if iteration < 0:
             raise ValueError("The iteration must be >= 0.")
 
-        for key, value in key_value.items():
+        # Check all keys first, so that nothing is recorded on error
+        for key in key_value:
             if key not in self:
                 raise ValueError(
                     """The key has not been specified
                 on initialization of the object"""
                 )
-            else:
-                self.record(key, value, iteration)
+
+        for key, value in key_value.items():
+            self.record(key, value, iteration)
 
     def __str__(self):
         """Construct a string summary.
-- 
2.43.0


From d4340beb964ad4a42eaf8257186f74837ec4dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 18/55] fix: parameter transformers of different scale compare
 equal

---
 pyvbmc/parameter_transformer/parameter_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/parameter_transformer/parameter_transformer.py b/pyvbmc/parameter_transformer/parameter_transformer.py
index 5b4e428..e8f1d22 100644
--- a/pyvbmc/parameter_transformer/parameter_transformer.py
+++ b/pyvbmc/parameter_transformer/parameter_transformer.py
@@ -404,7 +404,7 @@ class ParameterTransformer:
 
     def __eq__(self, other):
         return (
-            np.all(self.scale == self.scale)
+            np.all(self.scale == other.scale)
             and np.all(self.R_mat == other.R_mat)
             and np.all(self.lb_orig == other.lb_orig)
             and np.all(self.ub_orig == other.ub_orig)
-- 
2.43.0


From 9f08f628db4a1fcd8966cf7324579b94995c4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 19/55] fix: continued or loaded runs modify iterations already
 recorded

---
 pyvbmc/vbmc/vbmc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index cfcf7d2..fa2c2a1 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -866,8 +866,11 @@ class VBMC:
         if self.is_finished:
             self.logger.warning("Continuing optimization from previous state.")
             self.is_finished = False
-            self.vp = self.iteration_history["vp"][-1]
-            self.optim_state = self.iteration_history["optim_state"][-1]
+            # Copies, the recorded iterations must not change from here on
+            self.vp = copy.deepcopy(self.iteration_history["vp"][-1])
+            self.optim_state = copy.deepcopy(
+                self.iteration_history["optim_state"][-1]
+            )
         self._log_column_headers()
         while not self.is_finished:
             self.iteration += 1
@@ -2261,8 +2264,11 @@ class VBMC:
             # Handle instances saved before running vbmc.optimize()
             for attr in ["gp", "vp", "function_logger", "optim_state"]:
                 if vbmc.iteration_history[attr] is not None:
+                    # Copies, the recorded iterations must not change later
                     setattr(
-                        vbmc, attr, vbmc.iteration_history[attr][iteration]
+                        vbmc,
+                        attr,
+                        copy.deepcopy(vbmc.iteration_history[attr][iteration]),
                     )
             if vbmc.optim_state.get("hyp_dict") is not None:
                 vbmc.hyp_dict = vbmc.optim_state["hyp_dict"]
-- 
2.43.0


From 30b4f8ada3ed832360a4e76cad400e60902ae448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 20/55] fix: iterations without active sampling record outdated
 GP hyperparameters

---
 pyvbmc/vbmc/vbmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index fa2c2a1..9c5f98e 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1497,6 +1497,8 @@ class VBMC:
                 plt.show()
 
             # Record optim_state and random state
+            # (active sampling, which may have been skipped, stores hyp_dict)
+            self.optim_state["hyp_dict"] = self.hyp_dict
             self.random_state = np.random.get_state()
             self.iteration_history.record_iteration(
                 {
-- 
2.43.0


From dba9230ccf6b97d5a65a19d2b8a544ecc7c9d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 21/55] fix: runs resumed from the iteration that trimmed data
 ignore the trimming

---
 pyvbmc/vbmc/vbmc.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 9c5f98e..4a21a73 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -871,6 +871,7 @@ class VBMC:
             self.optim_state = copy.deepcopy(
                 self.iteration_history["optim_state"][-1]
             )
+            self._set_vp_flags_after_warmup()
         self._log_column_headers()
         while not self.is_finished:
             self.iteration += 1
@@ -1334,10 +1335,7 @@ class VBMC:
                     # Re-update GP after trimming
                     self.gp = reupdate_gp(self.function_logger, self.gp)
                 if not self.optim_state.get("warmup"):
-                    self.vp.optimize_mu = self.options.get("variable_means")
-                    self.vp.optimize_weights = self.options.get(
-                        "variable_weights"
-                    )
+                    self._set_vp_flags_after_warmup()
 
                     # Switch to main algorithm options
                     # options = options_main
@@ -1504,6 +1502,8 @@ class VBMC:
                 {
                     "optim_state": self.optim_state,
                     "random_state": self.random_state,
+                    # Again, as data may have been trimmed above
+                    "function_logger": self.function_logger,
                 },
                 self.iteration,
             )
@@ -1751,6 +1751,15 @@ class VBMC:
         # Fully recompute variational posterior
         self.optim_state["recompute_var_post"] = True
 
+    def _set_vp_flags_after_warmup(self):
+        """
+        Private method to set which parameters of the variational posterior are
+        optimized, once warmup is over.
+        """
+        if not self.optim_state.get("warmup"):
+            self.vp.optimize_mu = self.options.get("variable_means")
+            self.vp.optimize_weights = self.options.get("variable_weights")
+
     def _check_termination_conditions(self):
         """
         Private method to determine the status of termination conditions.
@@ -2274,6 +2283,13 @@ class VBMC:
                     )
             if vbmc.optim_state.get("hyp_dict") is not None:
                 vbmc.hyp_dict = vbmc.optim_state["hyp_dict"]
+            # The GP and the variational posterior are recorded before the
+            # changes made at the end of the warm-up
+            vbmc._set_vp_flags_after_warmup()
+            if vbmc.gp is not None and vbmc.gp.X.shape[0] != np.sum(
+                vbmc.function_logger.X_flag
+            ):
+                vbmc.gp = reupdate_gp(vbmc.function_logger, vbmc.gp)
             vbmc.iteration = iteration
             for k, v in vbmc.iteration_history.items():
                 if v is not None:
-- 
2.43.0


From ff22ea13101bc26a275636fb4613e9437fc19ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 22/55] fix: interrupted iterations count as completed when
 optimizing or loading again

---
 pyvbmc/vbmc/vbmc.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 4a21a73..194bb2d 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -872,6 +872,9 @@ class VBMC:
                 self.iteration_history["optim_state"][-1]
             )
             self._set_vp_flags_after_warmup()
+        # If the previous call was interrupted (e.g. by an error of the target)
+        # resume from the last complete iteration
+        self._discard_incomplete_iteration()
         self._log_column_headers()
         while not self.is_finished:
             self.iteration += 1
@@ -1751,6 +1754,20 @@ class VBMC:
         # Fully recompute variational posterior
         self.optim_state["recompute_var_post"] = True
 
+    def _discard_incomplete_iteration(self):
+        """
+        Private method to set the iteration counter to the last complete
+        iteration, and drop what later ones may have recorded.
+        """
+        # The optimization state is recorded at the very end of an iteration
+        recorded = self.iteration_history["optim_state"]
+        n_complete = 0 if recorded is None else len(recorded)
+        if self.iteration >= n_complete:
+            self.iteration = n_complete - 1
+            for key, value in self.iteration_history.items():
+                if value is not None:
+                    self.iteration_history[key] = value[:n_complete]
+
     def _set_vp_flags_after_warmup(self):
         """
         Private method to set which parameters of the variational posterior are
@@ -2262,6 +2279,8 @@ class VBMC:
             vbmc = dill.load(f)
 
         # Set/check iteration
+        if hasattr(vbmc, "iteration_history"):
+            vbmc._discard_incomplete_iteration()
         if iteration is None:
             iteration = vbmc.iteration
         else:
@@ -2274,7 +2293,7 @@ class VBMC:
         if hasattr(vbmc, "iteration_history"):
             # Handle instances saved before running vbmc.optimize()
             for attr in ["gp", "vp", "function_logger", "optim_state"]:
-                if vbmc.iteration_history[attr] is not None:
+                if iteration >= 0:
                     # Copies, the recorded iterations must not change later
                     setattr(
                         vbmc,
@@ -2305,7 +2324,11 @@ class VBMC:
 
         # Optionally set random state for reproducibility
         if set_random_state:
-            random_state = vbmc.iteration_history["random_state"][iteration]
+            random_state = vbmc.random_state
+            if iteration >= 0:
+                random_state = vbmc.iteration_history["random_state"][
+                    iteration
+                ]
             np.random.set_state(random_state)
 
         return vbmc
-- 
2.43.0


From 06dcd8ed1ef4eeae28a322fceac63ba5a5329650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 23/55] fix: failure during the initial design loses supplied
 starting points

---
 pyvbmc/vbmc/active_sample.py | 30 ++++++++++++++++--------------
 pyvbmc/vbmc/vbmc.py          |  6 +++++-
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index b96c15c..6049e13 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -87,11 +87,12 @@ def active_sample(
         # this is also not implemented in MATLAB yet.
 
         x0 = optim_state["cache"]["x_orig"]
+        y0 = optim_state["cache"]["y_orig"]
         provided_sample_count, D = x0.shape
 
         if provided_sample_count <= sample_count:
             Xs = np.copy(x0)
-            ys = np.copy(optim_state["cache"]["y_orig"])
+            ys = np.copy(y0)
 
             if provided_sample_count < sample_count:
                 pub_tran = optim_state.get("pub_tran")
@@ -107,7 +108,11 @@ def active_sample(
                     )
 
                 elif options.get("init_design") == "narrow":
-                    start_Xs = parameter_transformer(Xs[0])
+                    if function_logger.Xn >= 0:
+                        # Resuming an interrupted initial design
+                        start_Xs = function_logger.X[0]
+                    else:
+                        start_Xs = parameter_transformer(Xs[0])
                     random_Xs = (
                         np.random.rand(sample_count - provided_sample_count, D)
                         - 0.5
@@ -134,16 +139,13 @@ def active_sample(
                     axis=0,
                 )
 
-            idx_remove = np.full(provided_sample_count, True)
-
         else:
             # In the MATLAB implementation there is a cluster algorithm being
             # used to pick the best points, but we decided not to implement that
             # yet and just pick the first sample_count points
 
             Xs = np.copy(x0[:sample_count])
-            ys = np.copy(optim_state["cache"]["y_orig"][:sample_count])
-            idx_remove = np.full(provided_sample_count, True)
+            ys = np.copy(y0[:sample_count])
             logger.info(
                 "More than sample_count=%s initial points have been "
                 "provided, using only the first %s points.",
@@ -151,14 +153,6 @@ def active_sample(
                 sample_count,
             )
 
-        # Remove points from starting cache
-        optim_state["cache"]["x_orig"] = np.delete(
-            optim_state["cache"]["x_orig"], np.where(idx_remove), 0
-        )
-        optim_state["cache"]["y_orig"] = np.delete(
-            optim_state["cache"]["y_orig"], np.where(idx_remove), 0
-        )
-
         Xs = parameter_transformer(Xs)
 
         for idx in range(sample_count):
@@ -166,6 +160,14 @@ def active_sample(
                 function_logger(Xs[idx])
             else:
                 function_logger.add(Xs[idx], ys[idx])
+            # Remove points from starting cache once they are recorded (they
+            # are still needed if an evaluation fails and is tried again)
+            optim_state["cache"]["x_orig"] = x0[idx + 1 :]
+            optim_state["cache"]["y_orig"] = y0[idx + 1 :]
+
+        # Remove provided points that were not used as well
+        optim_state["cache"]["x_orig"] = x0[provided_sample_count:]
+        optim_state["cache"]["y_orig"] = y0[provided_sample_count:]
 
     else:
         # active uncertainty sampling
diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 194bb2d..e74a77c 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1053,7 +1053,11 @@ class VBMC:
             )
 
             if self.iteration == 0:
-                new_funevals = self.options.get("fun_eval_start")
+                # Do not count again the points of an interrupted initial design
+                new_funevals = self.options.get("fun_eval_start") - (
+                    self.function_logger.func_count
+                    + self.function_logger.cache_count
+                )
             else:
                 new_funevals = self.options.get("fun_evals_per_iter")
 
-- 
2.43.0


From a3c40c33902965082049ad8e3028eef96e7caa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 24/55] fix: final boost crashes when function values are
 supplied (log line format)

---
 pyvbmc/vbmc/vbmc.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index e74a77c..e7d876c 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1545,7 +1545,21 @@ class VBMC:
             if self.options.get("plot"):
                 self._log_column_headers()
 
-            if (
+            if self.optim_state["cache_active"]:
+                self.logger.info(
+                    display_format.format(
+                        np.inf,
+                        self.function_logger.func_count,
+                        self.function_logger.cache_count,
+                        elbo,
+                        elbo_sd,
+                        sKL,
+                        self.vp.K,
+                        self.iteration_history.get("r_index")[idx_best],
+                        "finalize",
+                    )
+                )
+            elif (
                 self.optim_state["uncertainty_handling_level"] > 0
                 and self.options.get("max_repeated_observations") > 0
             ):
-- 
2.43.0


From b13436148f958ad038b8ab0929a84ba08098066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 25/55] fix: failed save destroys the existing file or leaves a
 partial one

---
 pyvbmc/safe_save.py                           | 61 +++++++++++++++++++
 .../variational_posterior.py                  | 12 +---
 pyvbmc/vbmc/vbmc.py                           | 12 +---
 3 files changed, 65 insertions(+), 20 deletions(-)
 create mode 100644 pyvbmc/safe_save.py

diff --git a/pyvbmc/safe_save.py b/pyvbmc/safe_save.py
new file mode 100644
index 0000000..2995094
--- /dev/null
+++ b/pyvbmc/safe_save.py
@@ -0,0 +1,61 @@
+import contextlib
+import os
+import shutil
+import threading
+from pathlib import Path
+
+import dill
+
+
+def safe_save(obj, file, overwrite=False):
+    """Save an object to a file, completely or not at all.
+
+    If saving fails for any reason, a previously existing file is left as it
+    was, and no new file is left behind.
+
+    Parameters
+    ----------
+    obj : object
+        The object to save.
+    file : path-like
+        The file name or path to write to. Default file extension `.pkl` will
+        be added if no extension is specified.
+    overwrite : bool
+        Whether to allow overwriting existing files. Default `False`.
+
+    Raises
+    ------
+    FileExistsError
+        If the file already exists and ``overwrite`` is `False`.
+    OSError
+        If the file cannot be written for other reasons (e.g., the directory
+        is not found, the disk is full, etc.).
+    """
+    filepath = Path(file)
+    if filepath.suffix == "":
+        filepath = filepath.with_suffix(".pkl")
+
+    if overwrite:
+        # Write a new file next to the old one, and replace that only at the
+        # end. Links are followed, to replace the file they point to.
+        filepath = os.path.realpath(filepath)
+        newpath = f"{filepath}.{os.getpid()}-{threading.get_ident()}.tmp"
+        mode = "wb"
+    else:
+        newpath = filepath
+        mode = "xb"
+
+    f = open(newpath, mode=mode)
+    try:
+        with f:
+            dill.dump(obj, f, recurse=True)
+            f.flush()
+            os.fsync(f.fileno())
+        if overwrite:
+            if os.path.exists(filepath):
+                shutil.copymode(filepath, newpath)
+            os.replace(newpath, filepath)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(newpath)
+        raise
diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 6334d36..3eaef4b 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -18,6 +18,7 @@ from scipy.special import gammaln
 from pyvbmc.decorators import handle_0D_1D_input
 from pyvbmc.formatting import format_dict, full_repr, summarize
 from pyvbmc.parameter_transformer import ParameterTransformer
+from pyvbmc.safe_save import safe_save
 from pyvbmc.stats import kde_1d, kl_div_mvn
 
 
@@ -1303,16 +1304,7 @@ class VariationalPosterior:
             If the file cannot be opened for other reasons (e.g., the directory
             is not found, the disk is full, etc.).
         """
-        filepath = Path(file)
-        if filepath.suffix == "":
-            filepath = filepath.with_suffix(".pkl")
-
-        if overwrite:
-            mode = "wb"
-        else:
-            mode = "xb"
-        with open(filepath, mode=mode) as f:
-            dill.dump(self, f, recurse=True)
+        safe_save(self, file, overwrite=overwrite)
 
     @classmethod
     def load(cls, file):
diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index e7d876c..0f1f2f8 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -18,6 +18,7 @@ from pyvbmc.formatting import full_repr, summarize
 from pyvbmc.function_logger import FunctionLogger
 from pyvbmc.parameter_transformer import ParameterTransformer
 from pyvbmc.priors import Prior, SciPy, convert_to_prior
+from pyvbmc.safe_save import safe_save
 from pyvbmc.stats import kl_div_mvn
 from pyvbmc.timer import main_timer as timer
 from pyvbmc.variational_posterior import VariationalPosterior
@@ -2235,16 +2236,7 @@ class VBMC:
             If the file cannot be opened for other reasons (e.g., the directory
             is not found, the disk is full, etc.).
         """
-        filepath = Path(file)
-        if filepath.suffix == "":
-            filepath = filepath.with_suffix(".pkl")
-
-        if overwrite:
-            mode = "wb"
-        else:
-            mode = "xb"
-        with open(filepath, mode=mode) as f:
-            dill.dump(self, f, recurse=True)
+        safe_save(self, file, overwrite=overwrite)
 
     @classmethod
     def load(
-- 
2.43.0


From 20a03c876ed98a7d10c4ba37ae925386b637a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:50 +0000
Subject: [PATCH 26/55] fix: posterior mode crashes for one-dimensional
 problems

---
 pyvbmc/variational_posterior/variational_posterior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 3eaef4b..1480c93 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -890,9 +890,9 @@ class VariationalPosterior:
             if orig_flag:
                 bounds = np.stack(
                     (
-                        self.parameter_transformer.lb_orig.squeeze()
+                        self.parameter_transformer.lb_orig.ravel()
                         + np.sqrt(np.finfo(float).eps),
-                        self.parameter_transformer.ub_orig.squeeze()
+                        self.parameter_transformer.ub_orig.ravel()
                         - np.sqrt(np.finfo(float).eps),
                     ),
                     axis=1,
@@ -901,7 +901,7 @@ class VariationalPosterior:
                     self.parameter_transformer.ub_orig,
                     np.maximum(x0, self.parameter_transformer.lb_orig),
                 )
-                x0 = x0.squeeze()
+                x0 = x0.ravel()
 
             # fun provides gradient (jac=True) when orig_flag is False:
             res = minimize(
-- 
2.43.0


From 302f579070eaaaa5924663cdd0ebb9b807f1a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 27/55] fix: cached mode and options given to load stay shared
 with the caller

---
 pyvbmc/variational_posterior/variational_posterior.py | 4 ++--
 pyvbmc/vbmc/vbmc.py                                   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 1480c93..d188001 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -847,7 +847,7 @@ class VariationalPosterior:
         locations (even after applying the appropriate transformations).
         """
         if orig_flag and self._mode is not None:
-            return self._mode
+            return self._mode.copy()
 
         def neg_log_pdf(x0, orig_flag=orig_flag):
             if orig_flag:
@@ -915,7 +915,7 @@ class VariationalPosterior:
         x = x_min[idx_min]
 
         if orig_flag:
-            self._mode = x
+            self._mode = x.copy()
 
         return x
 
diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 0f1f2f8..1009a83 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2329,7 +2329,8 @@ class VBMC:
         # Update with new options (e.g. higher number of max iterations)
         if new_options is not None:
             vbmc.options.is_initialized = False
-            vbmc.options.update(new_options)
+            # Copy, not to share the values with the caller
+            vbmc.options.update(copy.deepcopy(new_options))
             vbmc.options.is_initialized = True
 
         # Optionally set random state for reproducibility
-- 
2.43.0


From 23392d1e21fc34fa20d7538cbc92892d71da5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 28/55] fix: log files shared between instances (lines in other
 runs' files, files never closed)

---
 pyvbmc/vbmc/vbmc.py | 59 ++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 1009a83..7cb9f20 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1,3 +1,4 @@
+import contextlib
 import copy
 import logging
 import math
@@ -31,6 +32,20 @@ from .options import Options
 from .variational_optimization import optimize_vp, update_K
 
 
+class _InstanceLogger(logging.Logger):
+    """
+    Logger of a single ``VBMC`` instance, passing its messages on to the common
+    logger of the same name. Copies and loaded instances get a new one.
+    """
+
+    def __init__(self, name):
+        super().__init__(name)
+        self.parent = logging.getLogger(name)
+
+    def __reduce__(self):
+        return _InstanceLogger, (self.name,)
+
+
 class VBMC:
     """
     Posterior and model inference via Variational Bayesian Monte Carlo (VBMC).
@@ -2462,17 +2477,27 @@ class VBMC:
         logger : logging.Logger
             The main logging interface.
         """
+        # Close the log file opened by a previous call, if any
+        if isinstance(getattr(self, "logger", None), _InstanceLogger):
+            for handler in list(self.logger.handlers):
+                self.logger.removeHandler(handler)
+                # Trouble with the log file should not interrupt the inference
+                with contextlib.suppress(OSError):
+                    handler.close()
+
         # set up VBMC logger
-        logger = logging.getLogger("VBMC" + substring)
-        logger.setLevel(logging.INFO)
-        if self.options.get("display") == "off":
-            logger.setLevel(logging.WARN)
-        elif self.options.get("display") == "iter":
-            logger.setLevel(logging.INFO)
-        elif self.options.get("display") == "full":
-            logger.setLevel(logging.DEBUG)
+        # Each instance has its own level and log file
+        logger = _InstanceLogger("VBMC" + substring)
         # Add a special logger for sending messages only to the default stream:
-        logger.stream_only = logging.getLogger("VBMC.stream_only")
+        logger.stream_only = _InstanceLogger("VBMC.stream_only")
+        for log in (logger, logger.stream_only):
+            log.setLevel(logging.INFO)
+            if self.options.get("display") == "off":
+                log.setLevel(logging.WARN)
+            elif self.options.get("display") == "iter":
+                log.setLevel(logging.INFO)
+            elif self.options.get("display") == "full":
+                log.setLevel(logging.DEBUG)
 
         # Options and special handling for writing to a file:
 
@@ -2484,16 +2509,6 @@ class VBMC:
         else:
             log_file_mode = "a"
 
-        # Avoid duplicating a handler for the same log file
-        # (remove duplicates, re-add below)
-        for handler in logger.handlers:
-            log_file_name = self.options.get("log_file_name")
-            if (
-                log_file_name is not None
-                and handler.baseFilename == os.path.abspath(log_file_name)
-            ):
-                logger.removeHandler(handler)
-
         if self.options.get("log_file_name") and self.options.get(
             "log_file_level"
         ):
@@ -2517,12 +2532,6 @@ class VBMC:
                     + "string or logging level."
                 )
 
-            # Add a filter to ignore messages sent to logger.stream_only:
-            def log_file_filter(record):
-                return record.name != "VBMC.stream_only"
-
-            file_handler.addFilter(log_file_filter)
-
             logger.addHandler(file_handler)
 
         return logger
-- 
2.43.0


From 276407b39ee9655a2a51abfa97eeb4e3f29329d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 29/55] fix: documented log file levels final and notify
 rejected with an error

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 7cb9f20..e12c1dc 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2518,7 +2518,7 @@ class VBMC:
 
             # Set file logger level according to string or logging level:
             log_file_level = self.options.get("log_file_level", logging.INFO)
-            if log_file_level == "off":
+            if log_file_level in ("off", "final", "notify"):
                 file_handler.setLevel(logging.WARN)
             elif log_file_level == "iter":
                 file_handler.setLevel(logging.INFO)
-- 
2.43.0


From f6e013ec14bbe62231b4070962e8fd5d38b6a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 30/55] fix: final posterior shared with the recorded iteration

---
 pyvbmc/vbmc/vbmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index e12c1dc..e396209 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1533,6 +1533,8 @@ class VBMC:
 
         # Pick "best" variational solution to return
         self.vp, elbo, elbo_sd, idx_best = self.determine_best_vp()
+        # Copy, the recorded iteration must not change with it
+        self.vp = copy.deepcopy(self.vp)
 
         if self.options.get("do_final_boost"):
             # Last variational optimization with large number of components
-- 
2.43.0


From 1f5f97cab7688c4f1700eabef6fb612397e970b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 31/55] fix: repeated observations of single-precision values
 fused in single precision

---
 pyvbmc/function_logger/function_logger.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 94b62e5..b5b4b6e 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -156,8 +156,9 @@ class FunctionLogger:
             The returned function value must be a finite real-valued scalar
             (returned value {})"""
             raise ValueError(error_message.format(str(f_val_orig)))
-        # A complex number passing the check has no imaginary part
-        f_val_orig = np.real(f_val_orig)
+        # A complex number passing the check has no imaginary part; recorded
+        # values are combined in double precision whatever the target returns
+        f_val_orig = float(np.real(f_val_orig))
 
         # Check returned function SD
         if self.noise_flag and (
@@ -171,6 +172,8 @@ class FunctionLogger:
                 must be a finite, positive real-valued scalar
                 (returned SD: {})"""
             raise ValueError(error_message.format(str(f_sd)))
+        if f_sd is not None:
+            f_sd = float(f_sd)
 
         # record timer stats
         funtime = timer.get_duration("fun_time")
@@ -259,8 +262,9 @@ class FunctionLogger:
             The returned function value must be a finite real-valued scalar
             (returned value {})"""
             raise ValueError(error_message.format(str(f_val_orig)))
-        # A complex number passing the check has no imaginary part
-        f_val_orig = np.real(f_val_orig)
+        # A complex number passing the check has no imaginary part; recorded
+        # values are combined in double precision whatever the target returns
+        f_val_orig = float(np.real(f_val_orig))
 
         # Check returned function SD
         if self.noise_flag and (
@@ -274,6 +278,8 @@ class FunctionLogger:
                 must be a finite, positive real-valued scalar
                 (returned SD:{})"""
             raise ValueError(error_message.format(str(f_sd)))
+        if f_sd is not None:
+            f_sd = float(f_sd)
 
         self.cache_count += 1
         f_val, idx = self._record(x_orig, x, f_val_orig, f_sd, fun_eval_time)
-- 
2.43.0


From 9e0e1003ffd428975079e711f72432c0533a4dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 32/55] fix: log-prior evaluated at the wrong point when the
 likelihood modifies its argument

---
 pyvbmc/vbmc/vbmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index e396209..6365886 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2555,16 +2555,18 @@ class VBMC:
             # Combine log-prior and log-likelihood:
             log_prior = prior.log_pdf
             log_likelihood = log_density
+            # The prior is evaluated at the same point even if the
+            # log-likelihood modifies its argument in place
             if self.optim_state["uncertainty_handling_level"] == 2:
 
                 def log_joint(theta):
-                    ll, noise_est = log_likelihood(theta)
+                    ll, noise_est = log_likelihood(np.copy(theta))
                     return ll + log_prior(theta), noise_est
 
             else:
 
                 def log_joint(theta):
-                    return log_likelihood(theta) + log_prior(theta)
+                    return log_likelihood(np.copy(theta)) + log_prior(theta)
 
         else:
             # Otherwise just use provided log-joint
-- 
2.43.0


From 528a201efdbebf75f392b3a51c2ce8e4a9f99db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 33/55] fix: crash with integer variables when the acquisition
 search is refined

---
 pyvbmc/vbmc/active_sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 6049e13..861a110 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -417,8 +417,8 @@ def active_sample(
                     raise NotImplementedError("Not implemented yet")
 
                 if f_val_optim < f_val_old:
-                    X_acq[0, :] = AbstractAcqFcn._real2int(
-                        xsearch_optim,
+                    X_acq[[0], :] = AbstractAcqFcn._real2int(
+                        np.atleast_2d(xsearch_optim),
                         parameter_transformer,
                         optim_state["integer_vars"],
                     )
-- 
2.43.0


From 97eb99df42ca8b71dadce31ab157236466a79cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 34/55] fix: noisy run interrupted between evaluations cannot
 be continued (outdated GP)

---
 pyvbmc/vbmc/vbmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 6365886..ff96e34 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1803,6 +1803,10 @@ class VBMC:
             for key, value in self.iteration_history.items():
                 if value is not None:
                     self.iteration_history[key] = value[:n_complete]
+            # The GP may not know the last evaluations of the interrupted
+            # iteration yet
+            if self.gp is not None:
+                self.gp = reupdate_gp(self.function_logger, self.gp)
 
     def _set_vp_flags_after_warmup(self):
         """
-- 
2.43.0


From 81d2fb39e6bd2bad25ed1dfbc7ac6c635ec9ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 35/55] fix: a run resetting the shared timer can crash another
 run (KeyError)

---
 pyvbmc/timer/timer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyvbmc/timer/timer.py b/pyvbmc/timer/timer.py
index ac3f2cb..6da687b 100644
--- a/pyvbmc/timer/timer.py
+++ b/pyvbmc/timer/timer.py
@@ -41,13 +41,12 @@ class Timer:
             The name of the timer that should be started.
         """
 
-        if name in self._start_times:
-            end_time = time.time()
-            if self._durations.get(name) is not None:
-                self._durations[name] += end_time - self._start_times[name]
-            else:
-                self._durations[name] = end_time - self._start_times[name]
-            self._start_times.pop(name)
+        # The main timer is shared by all runs of the process: another run may
+        # reset it at any point
+        start_time = self._start_times.pop(name, None)
+        if start_time is not None:
+            duration = time.time() - start_time
+            self._durations[name] = self._durations.get(name, 0) + duration
         else:
             logging.getLogger("timer").warning(
                 "Timer start not found for key '%s'.", name
-- 
2.43.0


From dad96133e67efa6566163ae1fb8698ef77909446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 36/55] fix: integer variables not rounded after a rotation of
 the space

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index b49ad19..512cd6c 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -187,7 +187,12 @@ class AbstractAcqFcn(ABC):
             X_temp = parameter_transformer.inverse(X)
             X_temp[:, integer_vars] = np.around(X_temp[:, integer_vars])
             X_temp = parameter_transformer(X_temp)
-            X[:, integer_vars] = X_temp[:, integer_vars]
+            if parameter_transformer.R_mat is None:
+                X[:, integer_vars] = X_temp[:, integer_vars]
+            else:
+                # With a rotation, all coordinates of a point depend on all
+                # its original variables
+                X[:, :] = X_temp
 
         return X
 
-- 
2.43.0


From 187d9133f531522650cd13e984b48ea138d80c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 37/55] fix: narrow initial design collapses to one point at
 the edge of the plausible box

---
 pyvbmc/vbmc/active_sample.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 861a110..1580908 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -113,12 +113,16 @@ def active_sample(
                         start_Xs = function_logger.X[0]
                     else:
                         start_Xs = parameter_transformer(Xs[0])
+                    # Sample from the part of the narrow box that is in the
+                    # plausible box (clipping the samples instead makes them
+                    # coincide when starting from the edge of the box)
+                    half_width = 0.05 * (pub_tran - plb_tran)
+                    narrow_lb = np.maximum(start_Xs - half_width, plb_tran)
+                    narrow_ub = np.minimum(start_Xs + half_width, pub_tran)
                     random_Xs = (
                         np.random.rand(sample_count - provided_sample_count, D)
-                        - 0.5
-                    ) * 0.1 * (pub_tran - plb_tran) + start_Xs
-                    random_Xs = np.minimum(
-                        (np.maximum(random_Xs, plb_tran)), pub_tran
+                        * (narrow_ub - narrow_lb)
+                        + narrow_lb
                     )
 
                 else:
-- 
2.43.0


From 4d9f4cff9f4f5b8f88b88d377bb397c614688c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 38/55] fix: initial posterior placed at the original-space
 starting point (invalid posterior far from the data)

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index ff96e34..8f662ca 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -267,7 +267,7 @@ class VBMC:
         self.vp = VariationalPosterior(
             D=self.D,
             K=self.options.get("k_warmup"),
-            x0=self.x0,
+            x0=self.parameter_transformer(self.x0),
             parameter_transformer=self.parameter_transformer,
         )
         if not self.options.get("warmup"):
-- 
2.43.0


From 6372ac3f90fd31d3f1d480c15fef3a87f435ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 39/55] fix: budgets close to the initial design crash or stall
 GP training

---
 pyvbmc/vbmc/gaussian_process_train.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index 6894fdb..55d7fa9 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -597,9 +597,14 @@ def _get_gp_training_options(
     b = -3 * a
     c = 3 * a
     d = options["gp_train_n_init"]
-    x = (optim_state["n_eff"] - options["fun_eval_start"]) / (
-        min(options["max_fun_evals"], 1e3) - options["fun_eval_start"]
-    )
+    n_range = min(options["max_fun_evals"], 1e3) - options["fun_eval_start"]
+    if n_range > 0:
+        # Fraction of the budget used (outside of [0, 1] the cubic explodes)
+        x = (optim_state["n_eff"] - options["fun_eval_start"]) / n_range
+        x = min(max(x, 0.0), 1.0)
+    else:
+        # The initial design uses up the whole budget
+        x = 1.0
     f = lambda x_: a * x_**3 + b * x**2 + c * x + d
     init_N = max(round(f(x)), 9)
 
-- 
2.43.0


From 1b653601c53e56c3251c7d685ed5b0912e956863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 40/55] fix: running GP hyperparameter covariance undefined
 with a single sample (crash)

---
 pyvbmc/vbmc/gaussian_process_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index 55d7fa9..1fee6d1 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -178,7 +178,7 @@ def train_gp(
         # end
 
     # Update running average of GP hyperparameter covariance (coarse)
-    if hyp_dict["full"] is not None and hyp_dict["full"].shape[1] > 1:
+    if hyp_dict["full"] is not None and hyp_dict["full"].shape[0] > 1:
         hyp_cov = np.cov(hyp_dict["full"].T)
         if hyp_dict["run_cov"] is None or options["hyp_run_weight"] == 0:
             hyp_dict["run_cov"] = hyp_cov
-- 
2.43.0


From 9b348d22e7f84f9047d3838838b5acbf367ebb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:39 +0000
Subject: [PATCH 41/55] fix: search bounds and cached points warped from the
 wrong coordinates after an earlier reparameterisation

---
 pyvbmc/whitening/whitening.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 78e9a20..9048082 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -115,6 +115,9 @@ def warp_input(vp, optim_state, function_logger, options):
     parameter_transformer = copy.deepcopy(vp.parameter_transformer)
     optim_state = copy.deepcopy(optim_state)
     function_logger = copy.deepcopy(function_logger)
+    # Current transformation (`vp` may come from an iteration before the last
+    # warp, and have a different one)
+    current_transformer = function_logger.parameter_transformer
 
     if options.get("warp_nonlinear"):
         raise NotImplementedError("Non-linear warping is not supported.")
@@ -203,7 +206,7 @@ def warp_input(vp, optim_state, function_logger, options):
     # Invert points to original space with old transform,
     # then map to new space with new transform
     def warpfun(x):
-        return parameter_transformer(vp.parameter_transformer.inverse(x))
+        return parameter_transformer(current_transformer.inverse(x))
 
     Nrnd = 1000
     xx = (
-- 
2.43.0


From a3276fea4bd3efb912efd159653041ef55aad7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:21 +0000
Subject: [PATCH 42/55] fix: statistics of pruned components kept in the
 covariance of the expected log joint

---
 pyvbmc/vbmc/variational_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index c4140f9..f27ad59 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -383,6 +383,7 @@ def optimize_vp(
                 pruned += 1
                 already_checked = np.delete(already_checked, idx)
                 I_sk = np.delete(I_sk, idx, axis=1)
+                J_sjk = np.delete(J_sjk, idx, axis=1)
                 J_sjk = np.delete(J_sjk, idx, axis=2)
             else:
                 already_checked[idx] = True
-- 
2.43.0


From 81fa32033d9d6acdccd859919fe4ce02975e701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 43/55] fix: trimming could leave fewer points than the minimum
 when points had been removed before

---
 pyvbmc/vbmc/vbmc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 8f662ca..fcd860f 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1769,9 +1769,12 @@ class VBMC:
         y_max = max(self.function_logger.y_orig[: self.function_logger.Xn + 1])
         n_keep_min = self.D + 1
         idx_keep = (y_max - self.function_logger.y_orig) < threshold
-        if np.sum(idx_keep) < n_keep_min:
+        # Points removed previously stay out and do not count
+        X_flag = self.function_logger.X_flag
+        if np.sum(idx_keep[X_flag]) < n_keep_min:
             y_temp = np.copy(self.function_logger.y_orig)
             y_temp[~np.isfinite(y_temp)] = -np.inf
+            y_temp[~X_flag] = -np.inf
             order = np.argsort(y_temp * -1, axis=0)
             idx_keep[
                 order[: min(n_keep_min, self.function_logger.Xn + 1)]
@@ -1779,7 +1782,7 @@ class VBMC:
         # Note that using idx_keep[:, 0] is necessary since X_flag
         # is a 1D array and idx_keep a 2D array.
         self.function_logger.X_flag = np.logical_and(
-            idx_keep[:, 0], self.function_logger.X_flag
+            idx_keep[:, 0], X_flag
         )
 
         # Skip adaptive sampling for next iteration
-- 
2.43.0


From cc757470d133a256c2b786ac4fb17e7a71f24b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 44/55] fix: the log file lost the lines that the display
 option hides

---
 pyvbmc/vbmc/vbmc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index fcd860f..ab0d3ec 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -41,6 +41,13 @@ class _InstanceLogger(logging.Logger):
     def __init__(self, name):
         super().__init__(name)
         self.parent = logging.getLogger(name)
+        # Lowest level of the messages passed on (those written to the log
+        # file are chosen by the level of its handler)
+        self.display_level = logging.NOTSET
+
+    def callHandlers(self, record):
+        self.propagate = record.levelno >= self.display_level
+        super().callHandlers(record)
 
     def __reduce__(self):
         return _InstanceLogger, (self.name,)
@@ -2507,6 +2514,7 @@ class VBMC:
                 log.setLevel(logging.INFO)
             elif self.options.get("display") == "full":
                 log.setLevel(logging.DEBUG)
+            log.display_level = log.level
 
         # Options and special handling for writing to a file:
 
@@ -2542,6 +2550,8 @@ class VBMC:
                 )
 
             logger.addHandler(file_handler)
+            # The log file has its own level, whatever the display level
+            logger.setLevel(min(logger.level, file_handler.level))
 
         return logger
 
-- 
2.43.0


From 81ce9159e7e14c2501d1a1879643bd8924c84ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 45/55] fix: setting untransformed parameters fails or goes
 unchecked (wrong entries tested for their sign)

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index d188001..edcc4de 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -712,7 +712,7 @@ class VariationalPosterior:
                 check_idx -= self.D
             if self.optimize_sigma:
                 check_idx -= self.K
-            if np.any(theta[-check_idx:] < 0.0):
+            if check_idx < 0 and np.any(theta[check_idx:] < 0.0):
                 raise ValueError(
                     """sigma, lambda and weights must be positive
                     when raw_flag = False"""
-- 
2.43.0


From 339414ce392a8beec2c0601d8bdf35f57c6d42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 46/55] fix: posterior compared with itself after an undone
 reparameterisation (convergence diagnostics of that iteration)

---
 pyvbmc/vbmc/vbmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index ab0d3ec..2322787 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1054,8 +1054,9 @@ class VBMC:
                             + self.options["warp_tol_sd_base"]
                         )
                     ):
-                        # Undo input warping:
-                        self.vp = vp_old
+                        # Undo input warping (`vp_old` is still compared with
+                        # the new posterior at the end of the iteration):
+                        self.vp = copy.deepcopy(vp_old)
                         self.gp = gp_old
                         self.optim_state = optim_state_old
                         self.function_logger = function_logger_old
-- 
2.43.0


From 83a5c25f5f1cf41fd7975792649fe00cc354c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 47/55] fix: warp_cov_reg given as a function crashed the run
 at the first warping

---
 pyvbmc/whitening/whitening.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 9048082..723eb9c 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -147,13 +147,7 @@ def warp_input(vp, optim_state, function_logger, options):
             vp_cov[mask_idx] = 0
 
         # Regularization of covariance matrix towards diagonal
-        if (
-            type(options["warp_cov_reg"]) == float
-            or type(options["warp_cov_reg"]) == int
-        ):
-            w_reg = options["warp_cov_reg"]
-        else:
-            w_reg = options.warp_cov_reg[optim_state["N"]]
+        w_reg = options.eval("warp_cov_reg", {"N": optim_state["N"]})
         w_reg = np.max([0, np.min([1, w_reg])])
         vp_cov = (1 - w_reg) * vp_cov + w_reg * np.diag(np.diag(vp_cov))
 
-- 
2.43.0


From 56cba5348f3de0c6c10d2018dae458e06eddf4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 48/55] fix: no or few sieve starting points (ns_elbo,
 ns_elbo_incr, elbo_starts) crashed the run

---
 pyvbmc/vbmc/variational_optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index f27ad59..1f36fdd 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -733,6 +733,10 @@ def _sieve(
     # Number of initial starting points
     if init_N is None:
         init_N = math.ceil(options.eval("ns_elbo", {"K": K}))
+    # (at least as many of each type as will be needed)
+    init_N = max(init_N, best_N)
+    while best_N > 1 and init_N - 2 * math.ceil(init_N / 3) < best_N // 3:
+        init_N += 1
     nelcbo_fill = np.zeros((init_N,))
 
     # Number of samples per component for MC approximation of the entropy.
-- 
2.43.0


From 11ac64010b4cabaed75d02aa31a91112b8031bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 49/55] fix: final boost added components whose means cannot
 move when variable_means is off

---
 pyvbmc/vbmc/vbmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 2322787..1962746 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2059,6 +2059,9 @@ class VBMC:
         changed_flag = False
 
         K_new = max(vp.K, self.options.get("min_final_components"))
+        if not self.options.get("variable_means"):
+            # No new components, the means cannot be optimized
+            K_new = vp.K
 
         # Current entropy samples during variational optimization
         n_sent = self.options.eval("ns_ent", {"K": K_new})
-- 
2.43.0


From 37fa9abd359d4126bb16794aacb47735fe067827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 50/55] fix: warp_cov_reg given as a function: a constant needs
 no training set size

---
 pyvbmc/whitening/whitening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 723eb9c..078b6c6 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -147,7 +147,7 @@ def warp_input(vp, optim_state, function_logger, options):
             vp_cov[mask_idx] = 0
 
         # Regularization of covariance matrix towards diagonal
-        w_reg = options.eval("warp_cov_reg", {"N": optim_state["N"]})
+        w_reg = options.eval("warp_cov_reg", {"N": optim_state.get("N")})
         w_reg = np.max([0, np.min([1, w_reg])])
         vp_cov = (1 - w_reg) * vp_cov + w_reg * np.diag(np.diag(vp_cov))
 
-- 
2.43.0


From c42063f9f1de17202aa32918bf20b9848be29a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 51/55] fix: iteration interrupted outside the target resumed
 from half-changed coordinates, options or warm-up state

---
 pyvbmc/vbmc/vbmc.py | 50 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 1962746..0910f42 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1810,14 +1810,54 @@ class VBMC:
         recorded = self.iteration_history["optim_state"]
         n_complete = 0 if recorded is None else len(recorded)
         if self.iteration >= n_complete:
-            self.iteration = n_complete - 1
+            if n_complete > 0:
+                self._restore_last_iteration(n_complete - 1)
             for key, value in self.iteration_history.items():
                 if value is not None:
                     self.iteration_history[key] = value[:n_complete]
-            # The GP may not know the last evaluations of the interrupted
-            # iteration yet
-            if self.gp is not None:
-                self.gp = reupdate_gp(self.function_logger, self.gp)
+            self.iteration = n_complete - 1
+
+    def _restore_last_iteration(self, iteration: int):
+        """
+        Private method to go back to the state at the end of a complete
+        iteration, but keep all evaluations recorded since.
+        """
+        # Copies, the recorded iterations must not change later
+        vp, gp, optim_state = (
+            copy.deepcopy(self.iteration_history[key][iteration])
+            for key in ("vp", "gp", "optim_state")
+        )
+        recorded = self.iteration_history["function_logger"][iteration]
+        function_logger = copy.deepcopy(self.function_logger)
+
+        # Go back to the coordinates of that iteration
+        flags = recorded.X_flag[: recorded.Xn + 1]
+        function_logger.X_flag[: recorded.Xn + 1] = flags
+        if function_logger.parameter_transformer != vp.parameter_transformer:
+            transformer = copy.deepcopy(vp.parameter_transformer)
+            function_logger.parameter_transformer = transformer
+            active = function_logger.X_flag
+            X = transformer(function_logger.X_orig[active])
+            X[: np.sum(flags)] = recorded.X[: recorded.Xn + 1][flags]
+            dy = transformer.log_abs_det_jacobian(X).reshape(-1, 1)
+            function_logger.X[active] = X
+            function_logger.y[active] = function_logger.y_orig[active] + dy
+        function_logger.y_max = np.nanmax(
+            function_logger.y[function_logger.X_flag]
+        )
+
+        # The GP must know the evaluations recorded since
+        gp = reupdate_gp(function_logger, gp)
+
+        self.vp = vp
+        self.gp = gp
+        self.optim_state = optim_state
+        self.function_logger = function_logger
+        self.parameter_transformer = vp.parameter_transformer
+        if optim_state.get("hyp_dict") is not None:
+            self.hyp_dict = optim_state["hyp_dict"]
+        # The posterior is recorded before the end of the warm-up
+        self._set_vp_flags_after_warmup()
 
     def _set_vp_flags_after_warmup(self):
         """
-- 
2.43.0


From 6b7bb7639b68738c984e1575c3ee89ccee792e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 52/55] fix: options that depend on the noise declared in an
 options file

---
 pyvbmc/vbmc/options.py | 20 +++++++++++++++++---
 pyvbmc/vbmc/vbmc.py    |  4 +++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/vbmc/options.py b/pyvbmc/vbmc/options.py
index 822e788..bd0d2a6 100644
--- a/pyvbmc/vbmc/options.py
+++ b/pyvbmc/vbmc/options.py
@@ -65,8 +65,22 @@ class Options(MutableMapping, dict):
             self.update(user_options)
             self["useroptions"].update(user_options.keys())
 
-    def update_defaults(self):
-        """Change defaults as needed based on values of other options."""
+    def update_defaults(self, user_options_path: str = None):
+        """
+        Change defaults as needed based on values of other options.
+
+        Parameters
+        ----------
+        user_options_path : str, optional
+            The path to an ini file of options set by the user, which are not
+            changed (like ``useroptions``). By default `None`.
+        """
+        user_options = set(self["useroptions"])
+        if user_options_path is not None:
+            user_options.update(
+                _read_config_file(user_options_path)[:, 0].flatten()
+            )
+
         if self.get("specify_target_noise"):
             updates = {
                 "max_fun_evals": ceil(self["max_fun_evals"] * 1.5),
@@ -76,7 +90,7 @@ class Options(MutableMapping, dict):
                 "search_acq_fcn": [AcqFcnVIQR()],
             }
             for key, val in updates.items():
-                if key not in self["useroptions"]:
+                if key not in user_options:
                     self[key] = val
 
     @classmethod
diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 0910f42..0fc3c82 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -209,17 +209,19 @@ class VBMC:
             advanced_options_path,
             evaluation_parameters={"D": self.D},
         )
-        self.options.update_defaults()
         if options_path is not None:
             # Update with user-specified config file
             self.options.load_options_file(
                 options_path,
                 evaluation_parameters={"D": self.D},
             )
+            # The defaults depend on the options from the file as well
+            self.options.update_defaults(options_path)
             self.options.validate_option_names(
                 [basic_options_path, advanced_options_path, options_path]
             )
         else:
+            self.options.update_defaults()
             self.options.validate_option_names(
                 [basic_options_path, advanced_options_path]
             )
-- 
2.43.0


From d859fe2f867857d3a5e9a22c9566d059ab5c2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 53/55] fix: constant ns_elbo and ns_ent_fine_active crash full
 updates in active sampling

---
 pyvbmc/vbmc/active_sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 1580908..e1a25ed 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -550,7 +550,7 @@ def active_sample(
                             # Decide number of fast optimizations
                             N_fastopts = math.ceil(
                                 options_update["ns_elbo_incr"]
-                                * options_update["ns_elbo"](vp.K)
+                                * options_update.eval("ns_elbo", {"K": vp.K})
                             )
                             if options["update_random_alpha"]:
                                 optim_state["entropy_alpha"] = 1 - np.sqrt(
@@ -638,7 +638,7 @@ def active_sample(
                 np.any(theta0 != theta)
             ):
                 NSentFineK = math.ceil(
-                    options["ns_ent_fine_active"](vp0.K) / vp0.K
+                    options.eval("ns_ent_fine_active", {"K": vp0.K}) / vp0.K
                 )
                 elbo0 = -_neg_elcbo(
                     theta0, gp, vp0, 0.0, NSentFineK, False, True
-- 
2.43.0


From a5746f8c9843ffebce8d9e87d0c4bbb70324c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 54/55] fix: fewer components than before crash the starting
 points of the variational optimization

---
 pyvbmc/vbmc/variational_optimization.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 1f36fdd..298387f 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -910,6 +910,13 @@ def _vb_init(
             if i == 0:
                 add_jitter = False
 
+            if K_new < K:
+                # Fewer components than before (with fixed means, when
+                # training inputs have been removed)
+                sigma = sigma[:, :K_new]
+                if vp.optimize_weights:
+                    w = w[:, :K_new] / np.sum(w[:, :K_new])
+
             if K_new > vp.K:
                 # Spawn a new component near an existing one
                 for i_new in range(K, K_new):
-- 
2.43.0


From 7796fca183389d91cc07656f73a376fc7008b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 55/55] fix: rounding integer variables changes the points of
 the acquisition optimizer in place

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index 512cd6c..e7a5d0f 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -184,6 +184,8 @@ class AbstractAcqFcn(ABC):
         """
 
         if np.any(integer_vars):
+            # The given points (e.g., an optimizer's) must not change
+            X = np.copy(X)
             X_temp = parameter_transformer.inverse(X)
             X_temp[:, integer_vars] = np.around(X_temp[:, integer_vars])
             X_temp = parameter_transformer(X_temp)
-- 
2.43.0

