From 76970122f1dbf94d322dac123d1567ca9484bffa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 01/23] fix: thompson sampling returns the minimizer of the
 sampled function, not the first candidate

---
 bayeso/thompson_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/thompson_sampling.py b/bayeso/thompson_sampling.py
index 7ce05b9..2711aba 100644
--- a/bayeso/thompson_sampling.py
+++ b/bayeso/thompson_sampling.py
@@ -98,7 +98,7 @@ def thompson_sampling_gp_iteration(range_X: np.ndarray,
     if Y_sampled is None: # pragma: no cover
         raise ValueError('jitter_cov is not large enough.')
 
-    ind_min = np.argmin(Y_sampled[:, 0])
+    ind_min = np.argmin(Y_sampled[0])
     next_point = X_test[ind_min]
 
     return next_point
-- 
2.43.0


From fe1185b9fd7309d18483b37b8ef4b39fc92e6272 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 02/23] fix: sample_functions returns shape (num_samples, n)
 for a single test point

---
 bayeso/gp/gp.py | 2 +-
 bayeso/tp/tp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp.py b/bayeso/gp/gp.py
index b6db27d..831135e 100644
--- a/bayeso/gp/gp.py
+++ b/bayeso/gp/gp.py
@@ -49,7 +49,7 @@ def sample_functions(mu: np.ndarray, Sigma: np.ndarray,
 
     rv = scipy.stats.multivariate_normal(mean=mu, cov=Sigma)
     list_rvs = [rv.rvs() for _ in range(0, num_samples)]
-    return np.array(list_rvs)
+    return np.reshape(list_rvs, (num_samples, mu.shape[0]))
 
 @utils_common.validate_types
 def predict_with_cov(X_train: np.ndarray, Y_train: np.ndarray, X_test: np.ndarray,
diff --git a/bayeso/tp/tp.py b/bayeso/tp/tp.py
index d31c37b..ac00c89 100644
--- a/bayeso/tp/tp.py
+++ b/bayeso/tp/tp.py
@@ -56,7 +56,7 @@ def sample_functions(nu: float, mu: np.ndarray, Sigma: np.ndarray,
     rv = scipy.stats.multivariate_normal(mean=np.zeros(mu.shape[0]), cov=Sigma)
     list_samples = [rv.rvs() for _ in range(0, num_samples)]
 
-    samples = np.array(list_samples)
+    samples = np.reshape(list_samples, (num_samples, mu.shape[0]))
     samples = mu[np.newaxis, ...] + samples / np.sqrt(x)[..., np.newaxis]
     assert samples.shape == (num_samples, mu.shape[0])
 
-- 
2.43.0


From aedecf116f50e5f8802ef34d902ddf4a296bb4ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:18 +0000
Subject: [PATCH 03/23] fix: Student-t marginal likelihood no longer overflows
 for many data points

---
 bayeso/tp/tp_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/tp/tp_likelihood.py b/bayeso/tp/tp_likelihood.py
index 0c6aadc..9d2f038 100644
--- a/bayeso/tp/tp_likelihood.py
+++ b/bayeso/tp/tp_likelihood.py
@@ -87,7 +87,7 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 
     second_term = -0.5 * second_term
 
-    third_term = np.log(scipy.special.gamma((nu + num_X) / 2.0) / scipy.special.gamma(nu / 2.0))
+    third_term = scipy.special.gammaln((nu + num_X) / 2.0) - scipy.special.gammaln(nu / 2.0)
     fourth_term = -0.5 * (nu + num_X) * np.log(1.0 + beta / (nu - 2.0))
 
     log_ml_ = np.squeeze(first_term + second_term + third_term + fourth_term)
-- 
2.43.0


From ae99083be98c6b26c759024b97880c5eef8c1678 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:18 +0000
Subject: [PATCH 04/23] fix: leave-one-out model selection works without
 automatic relevance determination

---
 bayeso/gp/gp_kernel.py     | 4 ++--
 bayeso/gp/gp_likelihood.py | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bayeso/gp/gp_kernel.py b/bayeso/gp/gp_kernel.py
index a738bf0..0f2a973 100644
--- a/bayeso/gp/gp_kernel.py
+++ b/bayeso/gp/gp_kernel.py
@@ -93,9 +93,9 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
             use_ard=use_ard, fix_noise=fix_noise,
             use_gradient=use_gradient, debug=debug)
     elif str_modelselection_method == 'loocv':
-        # TODO: add use_ard.
         neg_log_ml_ = lambda hyps: gp_likelihood.neg_log_pseudo_l_loocv(X_train, Y_train,
-            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug)
+            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug,
+            use_ard=use_ard)
         use_gradient = False
     else: # pragma: no cover
         raise ValueError('get_optimized_kernel: missing conditions for str_modelselection_method.')
diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index 7e89fda..d2ce720 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -118,7 +118,8 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
     str_cov: str, prior_mu_train: np.ndarray,
     fix_noise: bool=constants.FIX_GP_NOISE,
-    debug: bool=False
+    debug: bool=False,
+    use_ard: bool=constants.USE_ARD
 ) -> float:
     """
     It computes a negative log pseudo-likelihood using leave-one-out cross-validation.
@@ -137,6 +138,8 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     :type fix_noise: bool., optional
     :param debug: flag for printing log messages.
     :type debug: bool., optional
+    :param use_ard: flag for automatic relevance determination.
+    :type use_ard: bool., optional
 
     :returns: negative log pseudo-likelihood.
     :rtype: float
@@ -145,17 +148,17 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 
     """
 
-    # TODO: add use_ard.
     utils_gp.validate_common_args(X_train, Y_train, str_cov, None, debug)
     assert isinstance(hyps, np.ndarray)
     assert isinstance(prior_mu_train, np.ndarray)
     assert isinstance(fix_noise, bool)
+    assert isinstance(use_ard, bool)
     assert len(prior_mu_train.shape) == 2
     assert X_train.shape[0] == Y_train.shape[0] == prior_mu_train.shape[0]
     utils_covariance.check_str_cov('neg_log_pseudo_l_loocv', str_cov, X_train.shape)
 
     num_data = X_train.shape[0]
-    hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
+    hyps = utils_covariance.restore_hyps(str_cov, hyps, use_ard=use_ard, fix_noise=fix_noise)
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
         str_cov, fix_noise=fix_noise, debug=debug)
-- 
2.43.0


From 80a5fa0201f75a691de655a595024f7527844af0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:18 +0000
Subject: [PATCH 05/23] fix: leave-one-out pseudo-likelihood takes the prior
 mean into account

---
 bayeso/gp/gp_likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index d2ce720..df52fb6 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -158,6 +158,7 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     utils_covariance.check_str_cov('neg_log_pseudo_l_loocv', str_cov, X_train.shape)
 
     num_data = X_train.shape[0]
+    Y_train = Y_train - prior_mu_train
     hyps = utils_covariance.restore_hyps(str_cov, hyps, use_ard=use_ard, fix_noise=fix_noise)
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
-- 
2.43.0


From e77afffa1c119d5bcc7ac243b7bf79eeacc121e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:16 +0000
Subject: [PATCH 06/23] fix: saving legends of plots works with current
 matplotlib

---
 bayeso/utils/utils_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/utils/utils_plotting.py b/bayeso/utils/utils_plotting.py
index a03b966..fadbf92 100644
--- a/bayeso/utils/utils_plotting.py
+++ b/bayeso/utils/utils_plotting.py
@@ -494,7 +494,7 @@ def plot_minimum_vs_iter(minima: np.ndarray, list_str_label: constants.TYPING_LI
         _save_figure(path_save, str_figure)
 
         fig_legend = pylab.figure(figsize=(3, 2))
-        fig_legend.legend(lines, list_str_label, 'center', fancybox=False,
+        fig_legend.legend(lines, list_str_label, loc='center', fancybox=False,
             edgecolor='black', fontsize=32)
         fig_legend.savefig(os.path.join(path_save, f'legend_{str_postfix}.pdf'),
             format='pdf', transparent=True, bbox_inches='tight')
@@ -650,7 +650,7 @@ def plot_minimum_vs_time(times: np.ndarray, minima: np.ndarray,
         _save_figure(path_save, str_figure)
 
         fig_legend = pylab.figure(figsize=(3, 2))
-        fig_legend.legend(lines, list_str_label, 'center', fancybox=False,
+        fig_legend.legend(lines, list_str_label, loc='center', fancybox=False,
             edgecolor='black', fontsize=32)
         fig_legend.savefig(os.path.join(path_save, f'legend_{str_postfix}.pdf'),
             format='pdf', transparent=True, bbox_inches='tight')
-- 
2.43.0


From 3aea87247485f502742bac52892b50d273bac77d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:39 +0000
Subject: [PATCH 07/23] fix: acquisition optimization by CMA-ES follows the
 given random seed

---
 bayeso/bo/bo_w_gp.py | 13 ++++++++-----
 bayeso/bo/bo_w_tp.py | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/bayeso/bo/bo_w_gp.py b/bayeso/bo/bo_w_gp.py
index 3b2b880..68442f9 100644
--- a/bayeso/bo/bo_w_gp.py
+++ b/bayeso/bo/bo_w_gp.py
@@ -177,12 +177,15 @@ class BOwGP(base_bo.BaseBO):
                 return g
             initials = self.get_samples(str_sampling_method, num_samples=1, seed=seed)
             cur_sigma0 = np.mean(list_bounds[:, 1] - list_bounds[:, 0]) / 4.0
+            options_cma = {
+                'bounds': [list_bounds[:, 0], list_bounds[:, 1]],
+                'verbose': -1, 'maxfevals': 1e5
+            }
+            if seed is not None:
+                # INFO: cma considers 0 as a time-based seed.
+                options_cma['seed'] = seed % (2**32 - 1) + 1
             next_point_x = cma.fmin(fun_wrapper(fun_negative_acquisition),
-                initials[0], cur_sigma0,
-                options={
-                    'bounds': [list_bounds[:, 0], list_bounds[:, 1]],
-                    'verbose': -1, 'maxfevals': 1e5
-                })[0]
+                initials[0], cur_sigma0, options=options_cma)[0]
             list_next_point.append(next_point_x)
 
         next_points = np.array(list_next_point)
diff --git a/bayeso/bo/bo_w_tp.py b/bayeso/bo/bo_w_tp.py
index a6eacc2..c5173e8 100644
--- a/bayeso/bo/bo_w_tp.py
+++ b/bayeso/bo/bo_w_tp.py
@@ -168,12 +168,15 @@ class BOwTP(base_bo.BaseBO):
                 return g
             initials = self.get_samples(str_sampling_method, num_samples=1, seed=seed)
             cur_sigma0 = np.mean(list_bounds[:, 1] - list_bounds[:, 0]) / 4.0
+            options_cma = {
+                'bounds': [list_bounds[:, 0], list_bounds[:, 1]],
+                'verbose': -1, 'maxfevals': 1e5
+            }
+            if seed is not None:
+                # INFO: cma considers 0 as a time-based seed.
+                options_cma['seed'] = seed % (2**32 - 1) + 1
             next_point_x = cma.fmin(fun_wrapper(fun_negative_acquisition),
-                initials[0], cur_sigma0,
-                options={
-                    'bounds': [list_bounds[:, 0], list_bounds[:, 1]],
-                    'verbose': -1, 'maxfevals': 1e5
-                })[0]
+                initials[0], cur_sigma0, options=options_cma)[0]
             list_next_point.append(next_point_x)
 
         next_points = np.array(list_next_point)
-- 
2.43.0


From 3899cb96b4fd2a655917ac4470da4b45a3531871 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:39 +0000
Subject: [PATCH 08/23] fix: loggers do not accumulate handlers, so that each
 message is emitted once

---
 bayeso/utils/utils_logger.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bayeso/utils/utils_logger.py b/bayeso/utils/utils_logger.py
index b12773b..be707f0 100644
--- a/bayeso/utils/utils_logger.py
+++ b/bayeso/utils/utils_logger.py
@@ -30,14 +30,15 @@ def get_logger(str_name: str) -> logging.Logger:
     logger = logging.getLogger(str_name)
     logger.setLevel(logging.DEBUG)
 
-    ch = logging.StreamHandler()
-    ch.setLevel(logging.DEBUG)
+    if not logger.handlers:
+        ch = logging.StreamHandler()
+        ch.setLevel(logging.DEBUG)
 
-    formatter = logging.Formatter('[%(levelname)s-%(name)s-%(asctime)s] %(message)s',
-        datefmt='%m/%d/%Y-%H:%M:%S')
-    ch.setFormatter(formatter)
+        formatter = logging.Formatter('[%(levelname)s-%(name)s-%(asctime)s] %(message)s',
+            datefmt='%m/%d/%Y-%H:%M:%S')
+        ch.setFormatter(formatter)
 
-    logger.addHandler(ch)
+        logger.addHandler(ch)
     return logger
 
 @utils_common.validate_types
-- 
2.43.0


From 7f2c29a60a9b200a34a373e3aa828440d2d4957c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:35 +0000
Subject: [PATCH 09/23] fix: jitter of Cholesky decomposition scales with
 covariance magnitude

---
 bayeso/covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayeso/covariance.py b/bayeso/covariance.py
index beb410e..33ea194 100644
--- a/bayeso/covariance.py
+++ b/bayeso/covariance.py
@@ -170,10 +170,11 @@ def get_kernel_cholesky(X_train: np.ndarray, hyps: dict, str_cov: str,
     cov_X_X = (cov_X_X + cov_X_X.T) / 2.0
 
     lower = None
+    scale_jitter = np.maximum(1.0, np.mean(np.diag(cov_X_X)))
 
     for jitter_cov in [0.0, 1e-4, 1e-2, 1e-1, 1e0, 1e1, 1e2]:
         try:
-            cov_X_X_ = cov_X_X + jitter_cov * np.eye(X_train.shape[0])
+            cov_X_X_ = cov_X_X + jitter_cov * scale_jitter * np.eye(X_train.shape[0])
             lower = scipy.linalg.cholesky(cov_X_X_, lower=True)
 
             # TODO: check this.
-- 
2.43.0


From 6f5c8ab772757f06bce22cbdea33b9ce7beecaeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 10/23] fix: kernel inverse of numerically singular covariance
 does not raise LinAlgError

---
 bayeso/covariance.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bayeso/covariance.py b/bayeso/covariance.py
index 33ea194..6f537c6 100644
--- a/bayeso/covariance.py
+++ b/bayeso/covariance.py
@@ -100,7 +100,7 @@ def get_kernel_inverse(X_train: np.ndarray, hyps: dict, str_cov: str,
         gradients of kernel matrix would be None.
     :rtype: tuple of (numpy.ndarray, numpy.ndarray, numpy.ndarray)
 
-    :raises: AssertionError
+    :raises: AssertionError, ValueError
 
     """
 
@@ -115,7 +115,22 @@ def get_kernel_inverse(X_train: np.ndarray, hyps: dict, str_cov: str,
     cov_X_X = cov_main(str_cov, X_train, X_train, hyps, True) \
         + hyps['noise']**2 * np.eye(X_train.shape[0])
     cov_X_X = (cov_X_X + cov_X_X.T) / 2.0
-    inv_cov_X_X = np.linalg.inv(cov_X_X)
+
+    inv_cov_X_X = None
+    scale_jitter = np.maximum(1.0, np.mean(np.diag(cov_X_X)))
+
+    for jitter_cov in [0.0, 1e-4, 1e-2, 1e-1, 1e0, 1e1, 1e2]:
+        try:
+            cov_X_X_ = cov_X_X + jitter_cov * scale_jitter * np.eye(X_train.shape[0])
+            inv_cov_X_X = np.linalg.inv(cov_X_X_)
+            cov_X_X = cov_X_X_
+
+            break
+        except np.linalg.LinAlgError: # pragma: no cover
+            pass
+
+    if inv_cov_X_X is None: # pragma: no cover
+        raise ValueError('jitter_cov is not large enough.')
 
     if use_gradient:
         grad_cov_X_X = grad_cov_main(str_cov, X_train, X_train,
-- 
2.43.0


From 148c6dbd87da9ab81691d3ea1045771780b2a36c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:04 +0000
Subject: [PATCH 11/23] fix: fitted hyperparameters are never worse than the
 initial ones

---
 bayeso/gp/gp_kernel.py | 6 ++++++
 bayeso/tp/tp_kernel.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/bayeso/gp/gp_kernel.py b/bayeso/gp/gp_kernel.py
index 0f2a973..5827469 100644
--- a/bayeso/gp/gp_kernel.py
+++ b/bayeso/gp/gp_kernel.py
@@ -141,6 +141,12 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
     else: # pragma: no cover
         raise ValueError('get_optimized_kernel: missing conditions for str_optimizer_method')
 
+    # some of the optimizers, e.g., SLSQP, are not monotone, so that they might end up
+    # with hyperparameters worse than the initial ones.
+    get_value = lambda hyps: neg_log_ml_(hyps)[0] if use_gradient else neg_log_ml_(hyps)
+    if not get_value(result_optimized) <= get_value(hyps_converted):
+        result_optimized = hyps_converted
+
     hyps = utils_covariance.restore_hyps(str_cov, result_optimized,
         use_ard=use_ard,
         fix_noise=fix_noise)
diff --git a/bayeso/tp/tp_kernel.py b/bayeso/tp/tp_kernel.py
index 1d3b7e9..880d614 100644
--- a/bayeso/tp/tp_kernel.py
+++ b/bayeso/tp/tp_kernel.py
@@ -106,6 +106,12 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
     else: # pragma: no cover
         raise ValueError('get_optimized_kernel: missing conditions for str_optimizer_method')
 
+    # some of the optimizers, e.g., SLSQP, are not monotone, so that they might end up
+    # with hyperparameters worse than the initial ones.
+    get_value = lambda hyps: neg_log_ml_(hyps)[0] if use_gradient else neg_log_ml_(hyps)
+    if not get_value(result_optimized) <= get_value(hyps_converted):
+        result_optimized = hyps_converted
+
     hyps = utils_covariance.restore_hyps(str_cov, result_optimized,
         use_ard=use_ard, fix_noise=fix_noise, use_gp=False)
 
-- 
2.43.0


From 9bf00bbb3da25d1217b3326087ef73b9d122c9e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 12/23] fix: jitter of Thompson sampling scales with covariance
 magnitude

---
 bayeso/thompson_sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayeso/thompson_sampling.py b/bayeso/thompson_sampling.py
index 2711aba..2f53459 100644
--- a/bayeso/thompson_sampling.py
+++ b/bayeso/thompson_sampling.py
@@ -85,6 +85,8 @@ def thompson_sampling_gp_iteration(range_X: np.ndarray,
 
     Y_sampled = None
     list_jitters = [0.0, 1e-4, 1e-2, 1e0, 1e1, 1e2, 1e3, 1e4]
+    scale_jitter = np.max(np.abs(Sigma_Xs))
+    list_jitters += [jitter * scale_jitter for jitter in [1e-4, 1e-2, 1e0, 1e2, 1e4]]
 
     for jitter_cov in list_jitters:
         try:
-- 
2.43.0


From c60db7161880f1324ad3efea055164d32c3fb0d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:25 +0000
Subject: [PATCH 13/23] fix: floats of any precision are rendered with three
 decimals in log messages

---
 bayeso/utils/utils_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/utils/utils_logger.py b/bayeso/utils/utils_logger.py
index be707f0..30a917a 100644
--- a/bayeso/utils/utils_logger.py
+++ b/bayeso/utils/utils_logger.py
@@ -62,7 +62,7 @@ def get_str_array_1d(arr: np.ndarray) -> str:
     list_str = []
 
     for elem in arr:
-        if isinstance(elem, float):
+        if isinstance(elem, (float, np.floating)):
             elem_ = f'{elem:.3f}'
         else:
             elem_ = f'{elem}'
@@ -173,7 +173,7 @@ def get_str_hyps(hyps: dict) -> str:
     for key, val in hyps.items():
         if isinstance(val, np.ndarray):
             str_val = get_str_array(val)
-        elif isinstance(val, float):
+        elif isinstance(val, (float, np.floating)):
             str_val = f'{val:.3f}'
         else:
             str_val = f'{val}'
-- 
2.43.0


From 27710e2c5589b2ac68dde6df5c26a897b8665a2c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:56 +0000
Subject: [PATCH 14/23] fix: validate requests of the run wrappers before
 evaluating the objective

---
 bayeso/wrappers/wrappers_bo_class.py    | 1 +
 bayeso/wrappers/wrappers_bo_function.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/bayeso/wrappers/wrappers_bo_class.py b/bayeso/wrappers/wrappers_bo_class.py
index 03206b9..199da79 100644
--- a/bayeso/wrappers/wrappers_bo_class.py
+++ b/bayeso/wrappers/wrappers_bo_class.py
@@ -425,6 +425,7 @@ class BayesianOptimization:
 
         assert isinstance(X, np.ndarray)
         assert len(X.shape) == 2
+        assert X.shape[1] == self.range_X.shape[0]
 
         Y = []
         time_initials = []
diff --git a/bayeso/wrappers/wrappers_bo_function.py b/bayeso/wrappers/wrappers_bo_function.py
index d94a6a8..8b3ab09 100644
--- a/bayeso/wrappers/wrappers_bo_function.py
+++ b/bayeso/wrappers/wrappers_bo_function.py
@@ -181,6 +181,9 @@ def run_single_round_with_initial_inputs(model_bo: bo.BO,
     assert isinstance(num_samples_ao, int)
     assert isinstance(str_mlm_method, str)
     assert len(X_train.shape) == 2
+    assert X_train.shape[1] == model_bo.num_dim
+    assert num_samples_ao > 0
+    assert str_sampling_method_ao in constants.ALLOWED_SAMPLING_METHOD
     assert str_mlm_method in constants.ALLOWED_MLM_METHOD
 
     Y_train = []
-- 
2.43.0


From 9aeaf452e78a0fe5fad9cd423adcce3d20b344c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:17 +0000
Subject: [PATCH 15/23] fix: forests grow on integer-valued inputs with a
 constant feature

---
 bayeso/trees/trees_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/trees/trees_common.py b/bayeso/trees/trees_common.py
index 10d6292..e91c7fe 100644
--- a/bayeso/trees/trees_common.py
+++ b/bayeso/trees/trees_common.py
@@ -217,7 +217,7 @@ def _split_deterministic(X: np.ndarray, Y: np.ndarray, dim_to_split: int
         if candidates_loc.shape[0] > 1:
             val_to_split = np.mean(candidates_loc[ind_loc:ind_loc+2])
         else:
-            val_to_split = X[0, dim_to_split]
+            val_to_split = float(X[0, dim_to_split])
 
         left_right = _split_left_right(X, Y, dim_to_split, val_to_split)
         score = mse(left_right)
@@ -241,7 +241,7 @@ def _split_random(X: np.ndarray, Y: np.ndarray, dim_to_split: int
 
         val_to_split = np.random.uniform(low=min_bx, high=max_bx)
     else:
-        val_to_split = X[0, dim_to_split]
+        val_to_split = float(X[0, dim_to_split])
 
     left_right = _split_left_right(X, Y, dim_to_split, val_to_split)
     score = mse(left_right)
-- 
2.43.0


From 926718fd4f94b1b213c072b53df40e699d045e32 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:42 +0000
Subject: [PATCH 16/23] fix: trees separate their samples by another feature
 when one is constant, however large the outputs are

---
 bayeso/trees/trees_common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bayeso/trees/trees_common.py b/bayeso/trees/trees_common.py
index e91c7fe..3d951f0 100644
--- a/bayeso/trees/trees_common.py
+++ b/bayeso/trees/trees_common.py
@@ -289,6 +289,7 @@ def _split(
     cur_ind = np.inf
     cur_val = np.inf
     cur_score = np.inf
+    cur_empty = True
     cur_left_right = None
 
     for ind in features:
@@ -301,10 +302,14 @@ def _split(
             _ind, _val, _score, _left_right = _split_deterministic(
                 X, Y, dim_to_split)
 
-        if _score < cur_score:
+        # one side is left empty only if no feature separates the samples
+        _empty = not all(_left_right)
+
+        if (_empty, _score) < (cur_empty, cur_score):
             cur_ind = _ind
             cur_val = _val
             cur_score = _score
+            cur_empty = _empty
             cur_left_right = _left_right
 
     return {
-- 
2.43.0


From 097ccf5cd3937e7a76ef73583c402be90530b00a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:38 +0000
Subject: [PATCH 17/23] fix: messages of a logger are not repeated by the
 handlers of its ancestors

---
 bayeso/utils/utils_logger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayeso/utils/utils_logger.py b/bayeso/utils/utils_logger.py
index 30a917a..aeda531 100644
--- a/bayeso/utils/utils_logger.py
+++ b/bayeso/utils/utils_logger.py
@@ -29,6 +29,8 @@ def get_logger(str_name: str) -> logging.Logger:
 
     logger = logging.getLogger(str_name)
     logger.setLevel(logging.DEBUG)
+    # every logger has its own handler, so that messages are not handed over to its ancestors
+    logger.propagate = False
 
     if not logger.handlers:
         ch = logging.StreamHandler()
-- 
2.43.0


From 1b6990ce8f603bc49a7e3bd2ff23c47d5e7adecf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 18/23] fix: hyperparameter ranges given out do not share the
 lists of the module constants

---
 bayeso/utils/utils_covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayeso/utils/utils_covariance.py b/bayeso/utils/utils_covariance.py
index 3b1b3f1..d76e521 100644
--- a/bayeso/utils/utils_covariance.py
+++ b/bayeso/utils/utils_covariance.py
@@ -131,7 +131,8 @@ def get_range_hyps(str_cov: str, dim: int,
     else:
         raise NotImplementedError('get_hyps: allowed str_cov, but it is not implemented.')
 
-    return range_hyps
+    # the ranges are copied, because the lists in constants are shared
+    return [list(range_hyp) for range_hyp in range_hyps]
 
 @utils_common.validate_types
 def convert_hyps(str_cov: str, hyps: dict,
-- 
2.43.0


From 633ddaeca268de9587753fea13c97d3ddcdcdf1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 19/23] fix: hyperparameters kept for convergence tracking are
 not shared with the caller

---
 bayeso/bo/bo_w_gp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayeso/bo/bo_w_gp.py b/bayeso/bo/bo_w_gp.py
index 68442f9..447daae 100644
--- a/bayeso/bo/bo_w_gp.py
+++ b/bayeso/bo/bo_w_gp.py
@@ -5,6 +5,7 @@
 """It defines a class of Bayesian optimization
 with Gaussian process regression."""
 
+import copy
 import time
 import numpy as np
 from scipy.optimize import minimize
@@ -451,7 +452,8 @@ class BOwGP(base_bo.BaseBO):
         else: # pragma: no cover
             raise ValueError('optimize: missing condition for str_mlm_method.')
 
-        self.historical_hyps.append(hyps)
+        # the dictionary is handed over to the caller as well
+        self.historical_hyps.append(copy.deepcopy(hyps))
 
         time_end_surrogate = time.time()
 
-- 
2.43.0


From 442406c5ee1835363b260549b152117574c3918c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 20/23] fix: initial evaluations of a run do not share memory
 with the objective

---
 bayeso/thompson_sampling.py             | 2 +-
 bayeso/wrappers/wrappers_bo_class.py    | 2 +-
 bayeso/wrappers/wrappers_bo_function.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayeso/thompson_sampling.py b/bayeso/thompson_sampling.py
index 2f53459..4799dd7 100644
--- a/bayeso/thompson_sampling.py
+++ b/bayeso/thompson_sampling.py
@@ -158,7 +158,7 @@ def thompson_sampling_gp(range_X: np.ndarray,
     Y = []
 
     for bx in X:
-        Y.append(fun_target(bx))
+        Y.append(np.copy(fun_target(np.copy(bx))))
     Y = np.reshape(Y, (X.shape[0], 1))
 
     for ind_iter in range(0, num_iter):
diff --git a/bayeso/wrappers/wrappers_bo_class.py b/bayeso/wrappers/wrappers_bo_class.py
index 199da79..672e5f9 100644
--- a/bayeso/wrappers/wrappers_bo_class.py
+++ b/bayeso/wrappers/wrappers_bo_class.py
@@ -431,7 +431,7 @@ class BayesianOptimization:
         time_initials = []
         for elem in X:
             time_initial_start = time.time()
-            Y.append(self.fun_target(elem))
+            Y.append(np.copy(self.fun_target(np.copy(elem))))
             time_initial_end = time.time()
             time_initials.append(time_initial_end - time_initial_start)
         time_initials = np.array(time_initials)
diff --git a/bayeso/wrappers/wrappers_bo_function.py b/bayeso/wrappers/wrappers_bo_function.py
index 8b3ab09..7b5ddfc 100644
--- a/bayeso/wrappers/wrappers_bo_function.py
+++ b/bayeso/wrappers/wrappers_bo_function.py
@@ -190,7 +190,7 @@ def run_single_round_with_initial_inputs(model_bo: bo.BO,
     time_initials = []
     for elem in X_train:
         time_initial_start = time.time()
-        Y_train.append(fun_target(elem))
+        Y_train.append(np.copy(fun_target(np.copy(elem))))
         time_initial_end = time.time()
         time_initials.append(time_initial_end - time_initial_start)
     time_initials = np.array(time_initials)
-- 
2.43.0


From 7bb3edf645725e62270a57b6a75eb8eb6d33df2a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 21/23] fix: the point chosen when all candidates were
 evaluated is not a view of the given history

---
 bayeso/utils/utils_bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/utils/utils_bo.py b/bayeso/utils/utils_bo.py
index 841ca3d..8704684 100644
--- a/bayeso/utils/utils_bo.py
+++ b/bayeso/utils/utils_bo.py
@@ -155,7 +155,7 @@ def get_next_best_acquisition(points: np.ndarray, acquisitions: np.ndarray,
                 cur_best = cur_acq
                 next_point = arr_point
     else:
-        next_point = points_evaluated[-1]
+        next_point = np.copy(points_evaluated[-1])
     return next_point
 
 @utils_common.validate_types
-- 
2.43.0


From 0714329016cea24f6673fdc8d6f99bffcbfc40df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 22/23] fix: deviations of forest predictions do not cancel for
 outputs with a large offset

---
 bayeso/trees/trees_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayeso/trees/trees_common.py b/bayeso/trees/trees_common.py
index 3d951f0..2bea3d7 100644
--- a/bayeso/trees/trees_common.py
+++ b/bayeso/trees/trees_common.py
@@ -573,8 +573,11 @@ def compute_sigma(
 
     preds_sigma_leaf_ = np.maximum(preds_sigma_leaf, np.zeros(preds_sigma_leaf.shape) + min_sigma)
 
-    sigma = np.mean(preds_mu_leaf**2 + preds_sigma_leaf_**2)
-    sigma -= np.mean(preds_mu_leaf)**2
+    # differences from one of the means, since the squares of large means cancel
+    diffs_mu_leaf = preds_mu_leaf - preds_mu_leaf[-1:]
+
+    sigma = np.mean(diffs_mu_leaf**2 + preds_sigma_leaf_**2)
+    sigma -= np.mean(diffs_mu_leaf)**2
 
     sigma = max(sigma, 0.0)
     sigma = np.sqrt(sigma)
-- 
2.43.0


From ed161589057b1f277399b4aa03d30b880f21c761 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:23 +0000
Subject: [PATCH 23/23] fix: bounded fits with numerical gradients do not fail
 when L-BFGS-B leaves the bounds by rounding

---
 bayeso/gp/gp_kernel.py   |  7 +++++--
 bayeso/tp/tp_kernel.py   |  7 +++++--
 bayeso/utils/utils_gp.py | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/bayeso/gp/gp_kernel.py b/bayeso/gp/gp_kernel.py
index 5827469..4c43d7f 100644
--- a/bayeso/gp/gp_kernel.py
+++ b/bayeso/gp/gp_kernel.py
@@ -122,14 +122,17 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
         bounds = utils_covariance.get_range_hyps(str_cov, num_dim,
             use_ard=use_ard,
             fix_noise=fix_noise)
+        jac = use_gradient
+        if str_optimizer_method == 'L-BFGS-B' and not use_gradient:
+            jac = utils_gp.get_fun_grad_numerical(neg_log_ml_, bounds)
         result_optimized = scipy.optimize.minimize(neg_log_ml_, hyps_converted,
-            method=str_optimizer_method, bounds=bounds, jac=use_gradient,
+            method=str_optimizer_method, bounds=bounds, jac=jac,
             options={'disp': False})
 
         if debug:
             logger.debug('negative log marginal likelihood: %.6f', result_optimized.fun)
             logger.debug('scipy message: %s', result_optimized.message)
-        result_optimized = result_optimized.x
+        result_optimized = np.clip(result_optimized.x, *np.transpose(bounds))
     elif str_optimizer_method in ['Nelder-Mead']:
         result_optimized = scipy.optimize.minimize(neg_log_ml_, hyps_converted,
             method=str_optimizer_method, options={'disp': False})
diff --git a/bayeso/tp/tp_kernel.py b/bayeso/tp/tp_kernel.py
index 880d614..515d7e3 100644
--- a/bayeso/tp/tp_kernel.py
+++ b/bayeso/tp/tp_kernel.py
@@ -96,13 +96,16 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
     if str_optimizer_method in ['L-BFGS-B', 'SLSQP']:
         bounds = utils_covariance.get_range_hyps(str_cov, num_dim,
             use_ard=use_ard, fix_noise=fix_noise, use_gp=False)
+        jac = use_gradient
+        if str_optimizer_method == 'L-BFGS-B' and not use_gradient:
+            jac = utils_gp.get_fun_grad_numerical(neg_log_ml_, bounds)
         result_optimized = scipy.optimize.minimize(neg_log_ml_, hyps_converted,
-            method=str_optimizer_method, bounds=bounds, jac=use_gradient,
+            method=str_optimizer_method, bounds=bounds, jac=jac,
             options={'disp': False})
 
         if debug:
             logger.debug('scipy message: %s', result_optimized.message)
-        result_optimized = result_optimized.x
+        result_optimized = np.clip(result_optimized.x, *np.transpose(bounds))
     else: # pragma: no cover
         raise ValueError('get_optimized_kernel: missing conditions for str_optimizer_method')
 
diff --git a/bayeso/utils/utils_gp.py b/bayeso/utils/utils_gp.py
index d31ebfb..c34a1b7 100644
--- a/bayeso/utils/utils_gp.py
+++ b/bayeso/utils/utils_gp.py
@@ -6,6 +6,7 @@
 Student-:math:`t` process regression."""
 
 import numpy as np
+import scipy.optimize
 
 from bayeso.utils import utils_common
 from bayeso import constants
@@ -84,3 +85,36 @@ def validate_common_args(X_train: np.ndarray, Y_train: np.ndarray,
             assert X_train.shape[1] == X_test.shape[1]
         else:
             assert X_train.shape[2] == X_test.shape[2]
+
+@utils_common.validate_types
+def get_fun_grad_numerical(
+    fun: constants.TYPING_CALLABLE,
+    bounds: constants.TYPING_LIST
+) -> constants.TYPING_CALLABLE:
+    """
+    It returns a function which computes numerical gradients by differences inside `bounds`.
+    Unlike the numerical gradients of `scipy.optimize.minimize`, they are not refused
+    where the iterates of L-BFGS-B leave `bounds` by rounding.
+
+    :param fun: function of which the gradients are computed.
+    :type fun: callable
+    :param bounds: bounds, [lower, upper] for each dimension.
+    :type bounds: list
+
+    :returns: function which computes gradients.
+    :rtype: callable
+
+    :raises: AssertionError
+
+    """
+
+    assert callable(fun)
+    assert isinstance(bounds, list)
+
+    upper = np.array(bounds)[:, 1]
+    step = 1e-8 # the default step of L-BFGS-B
+
+    def fun_grad(x):
+        return scipy.optimize.approx_fprime(x, fun, np.where(x + step > upper, -step, step))
+
+    return fun_grad
-- 
2.43.0

