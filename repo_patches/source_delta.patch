From 285e078e03f3d5c1d6563d9871eceda91035dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 1/6] fix: Thompson sampling selects the minimizer of the
 sampled function

sample_functions returns shape (num_samples, n), so the argmin over
Y_sampled[:, 0] was always 0 and the first candidate was always chosen.
---
 bayeso/thompson_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/thompson_sampling.py b/bayeso/thompson_sampling.py
index 7ce05b9..2711aba 100644
--- a/bayeso/thompson_sampling.py
+++ b/bayeso/thompson_sampling.py
@@ -98,7 +98,7 @@ def thompson_sampling_gp_iteration(range_X: np.ndarray,
     if Y_sampled is None: # pragma: no cover
         raise ValueError('jitter_cov is not large enough.')
 
-    ind_min = np.argmin(Y_sampled[:, 0])
+    ind_min = np.argmin(Y_sampled[0])
     next_point = X_test[ind_min]
 
     return next_point
-- 
2.43.0


From 988849204de4286242f1910d5cd606826db93eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 2/6] fix: sample_functions keeps shape (num_samples, n) when n
 is 1

rvs() of a one-dimensional distribution returns a scalar.
---
 bayeso/gp/gp.py | 2 +-
 bayeso/tp/tp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp.py b/bayeso/gp/gp.py
index b6db27d..50ed068 100644
--- a/bayeso/gp/gp.py
+++ b/bayeso/gp/gp.py
@@ -49,7 +49,7 @@ def sample_functions(mu: np.ndarray, Sigma: np.ndarray,
 
     rv = scipy.stats.multivariate_normal(mean=mu, cov=Sigma)
     list_rvs = [rv.rvs() for _ in range(0, num_samples)]
-    return np.array(list_rvs)
+    return np.reshape(np.array(list_rvs), (num_samples, mu.shape[0]))
 
 @utils_common.validate_types
 def predict_with_cov(X_train: np.ndarray, Y_train: np.ndarray, X_test: np.ndarray,
diff --git a/bayeso/tp/tp.py b/bayeso/tp/tp.py
index d31c37b..350a017 100644
--- a/bayeso/tp/tp.py
+++ b/bayeso/tp/tp.py
@@ -56,7 +56,7 @@ def sample_functions(nu: float, mu: np.ndarray, Sigma: np.ndarray,
     rv = scipy.stats.multivariate_normal(mean=np.zeros(mu.shape[0]), cov=Sigma)
     list_samples = [rv.rvs() for _ in range(0, num_samples)]
 
-    samples = np.array(list_samples)
+    samples = np.reshape(np.array(list_samples), (num_samples, mu.shape[0]))
     samples = mu[np.newaxis, ...] + samples / np.sqrt(x)[..., np.newaxis]
     assert samples.shape == (num_samples, mu.shape[0])
 
-- 
2.43.0


From cdb97d6fbfb0bf23c05aa598b29e37c1ebee6994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 3/6] fix: compute the TP likelihood with gammaln so that it
 does not overflow

---
 bayeso/tp/tp_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/tp/tp_likelihood.py b/bayeso/tp/tp_likelihood.py
index 0c6aadc..9d2f038 100644
--- a/bayeso/tp/tp_likelihood.py
+++ b/bayeso/tp/tp_likelihood.py
@@ -87,7 +87,7 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 
     second_term = -0.5 * second_term
 
-    third_term = np.log(scipy.special.gamma((nu + num_X) / 2.0) / scipy.special.gamma(nu / 2.0))
+    third_term = scipy.special.gammaln((nu + num_X) / 2.0) - scipy.special.gammaln(nu / 2.0)
     fourth_term = -0.5 * (nu + num_X) * np.log(1.0 + beta / (nu - 2.0))
 
     log_ml_ = np.squeeze(first_term + second_term + third_term + fourth_term)
-- 
2.43.0


From 0eb6bac911db1d40534bfde0690ca0726e444b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 4/6] fix: subtract the prior mean in the leave-one-out
 pseudo-likelihood

---
 bayeso/gp/gp_likelihood.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index 7e89fda..47d5d1e 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -156,6 +156,7 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 
     num_data = X_train.shape[0]
     hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
+    new_Y_train = Y_train - prior_mu_train
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
         str_cov, fix_noise=fix_noise, debug=debug)
@@ -167,10 +168,10 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 #        cur_Y_train = np.vstack((Y_train[:ind_data], Y_train[ind_data+1:]))
 
 #        cur_X_test = np.expand_dims(X_train[ind_data], axis=0)
-        cur_Y_test = Y_train[ind_data]
+        cur_Y_test = new_Y_train[ind_data]
 
         cur_mu = np.squeeze(cur_Y_test) \
-            - np.dot(inv_cov_X_X, Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
+            - np.dot(inv_cov_X_X, new_Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
         cur_sigma = np.sqrt(1.0 / (inv_cov_X_X[ind_data, ind_data] + constants.JITTER_COV))
 
         first_term = -0.5 * np.log(cur_sigma**2)
-- 
2.43.0


From 94e38b1c93253cc2036edd15c943f63e2deaeb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 5/6] fix: leave-one-out model selection respects use_ard

With use_ard=False the objective restored a length-one array of
lengthscales and failed for inputs of two or more dimensions.
---
 bayeso/gp/gp_kernel.py     | 2 +-
 bayeso/gp/gp_likelihood.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bayeso/gp/gp_kernel.py b/bayeso/gp/gp_kernel.py
index a738bf0..7885c0d 100644
--- a/bayeso/gp/gp_kernel.py
+++ b/bayeso/gp/gp_kernel.py
@@ -95,7 +95,7 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
     elif str_modelselection_method == 'loocv':
         # TODO: add use_ard.
         neg_log_ml_ = lambda hyps: gp_likelihood.neg_log_pseudo_l_loocv(X_train, Y_train,
-            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug)
+            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug, use_ard=use_ard)
         use_gradient = False
     else: # pragma: no cover
         raise ValueError('get_optimized_kernel: missing conditions for str_modelselection_method.')
diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index 47d5d1e..421552c 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -118,7 +118,8 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
     str_cov: str, prior_mu_train: np.ndarray,
     fix_noise: bool=constants.FIX_GP_NOISE,
-    debug: bool=False
+    debug: bool=False,
+    use_ard: bool=constants.USE_ARD
 ) -> float:
     """
     It computes a negative log pseudo-likelihood using leave-one-out cross-validation.
@@ -137,6 +138,8 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     :type fix_noise: bool., optional
     :param debug: flag for printing log messages.
     :type debug: bool., optional
+    :param use_ard: flag for automatic relevance determination.
+    :type use_ard: bool., optional
 
     :returns: negative log pseudo-likelihood.
     :rtype: float
@@ -145,17 +148,17 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 
     """
 
-    # TODO: add use_ard.
     utils_gp.validate_common_args(X_train, Y_train, str_cov, None, debug)
     assert isinstance(hyps, np.ndarray)
     assert isinstance(prior_mu_train, np.ndarray)
     assert isinstance(fix_noise, bool)
+    assert isinstance(use_ard, bool)
     assert len(prior_mu_train.shape) == 2
     assert X_train.shape[0] == Y_train.shape[0] == prior_mu_train.shape[0]
     utils_covariance.check_str_cov('neg_log_pseudo_l_loocv', str_cov, X_train.shape)
 
     num_data = X_train.shape[0]
-    hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
+    hyps = utils_covariance.restore_hyps(str_cov, hyps, use_ard=use_ard, fix_noise=fix_noise)
     new_Y_train = Y_train - prior_mu_train
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
-- 
2.43.0


From 0c32313a9d8f54bb82c432e6c1bdbd51151269fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 6/6] fix: accept integer inputs when a tree node's feature is
 constant

A feature with one distinct value is split at that value; for integer
training inputs it was passed on as a numpy integer and the split was
rejected with an AssertionError, so no forest could be grown.
---
 bayeso/trees/trees_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/trees/trees_common.py b/bayeso/trees/trees_common.py
index 10d6292..e91c7fe 100644
--- a/bayeso/trees/trees_common.py
+++ b/bayeso/trees/trees_common.py
@@ -217,7 +217,7 @@ def _split_deterministic(X: np.ndarray, Y: np.ndarray, dim_to_split: int
         if candidates_loc.shape[0] > 1:
             val_to_split = np.mean(candidates_loc[ind_loc:ind_loc+2])
         else:
-            val_to_split = X[0, dim_to_split]
+            val_to_split = float(X[0, dim_to_split])
 
         left_right = _split_left_right(X, Y, dim_to_split, val_to_split)
         score = mse(left_right)
@@ -241,7 +241,7 @@ def _split_random(X: np.ndarray, Y: np.ndarray, dim_to_split: int
 
         val_to_split = np.random.uniform(low=min_bx, high=max_bx)
     else:
-        val_to_split = X[0, dim_to_split]
+        val_to_split = float(X[0, dim_to_split])
 
     left_right = _split_left_right(X, Y, dim_to_split, val_to_split)
     score = mse(left_right)
-- 
2.43.0

