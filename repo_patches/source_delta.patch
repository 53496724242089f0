From e7a196e65cea8f198db45726632a068906b3ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 001/100] fix: score_norm constructors pass their options to
 the base class (ZTNorm and TZNorm raised NameError)

---
 hyperion/score_norm/adapt_s_norm.py | 2 +-
 hyperion/score_norm/s_norm.py       | 2 +-
 hyperion/score_norm/score_norm.py   | 2 +-
 hyperion/score_norm/tz_norm.py      | 2 +-
 hyperion/score_norm/zt_norm.py      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index abf7351..0448449 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -18,7 +18,7 @@ class AdaptSNorm(ScoreNorm):
     """Class for adaptive S-Norm
     """
     def __init__(self, nbest=100, nbest_discard=0, **kwargs):
-        super(AdaptSNorm, self).__init__(*kwargs)
+        super(AdaptSNorm, self).__init__(**kwargs)
         self.nbest = nbest
         self.nbest_discard = nbest_discard
 
diff --git a/hyperion/score_norm/s_norm.py b/hyperion/score_norm/s_norm.py
index deae2a8..f93a320 100644
--- a/hyperion/score_norm/s_norm.py
+++ b/hyperion/score_norm/s_norm.py
@@ -18,7 +18,7 @@ class SNorm(ScoreNorm):
     """ Class for S-Norm, symmetric score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(SNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/score_norm.py b/hyperion/score_norm/score_norm.py
index f81d99a..19e573d 100644
--- a/hyperion/score_norm/score_norm.py
+++ b/hyperion/score_norm/score_norm.py
@@ -16,7 +16,7 @@ class ScoreNorm(HypModel):
     Base class for score normalization
     """
     def __init__(self, std_floor=1e-5, **kwargs):
-        super(ScoreNorm, self).__init__(*kwargs)
+        super(ScoreNorm, self).__init__(**kwargs)
         self.std_floor = std_floor
 
     
diff --git a/hyperion/score_norm/tz_norm.py b/hyperion/score_norm/tz_norm.py
index 89bca45..164f5c8 100644
--- a/hyperion/score_norm/tz_norm.py
+++ b/hyperion/score_norm/tz_norm.py
@@ -17,7 +17,7 @@ class TZNorm(ScoreNorm):
     """Class for TZ-Norm score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(TZNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index b0f9f9b..e3f7b05 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -18,7 +18,7 @@ class ZTNorm(ScoreNorm):
     """Class ZT-Norm score-normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(ZTNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
-- 
2.43.0


From 29d43314ecca38d804bdfeaa05de5cad1778bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 002/100] fix: masked score normalization does not overwrite
 the caller's cohort scores

---
 hyperion/score_norm/adapt_s_norm.py | 4 ++--
 hyperion/score_norm/t_norm.py       | 2 +-
 hyperion/score_norm/z_norm.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 0448449..db134b0 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -34,9 +34,9 @@ class AdaptSNorm(ScoreNorm):
             nbest = self.nbest
 
         if mask_coh_test is not None:
-            scores_coh_test[mask_coh_test == False] = 0
+            scores_coh_test = np.where(mask_coh_test, scores_coh_test, 0)
         if mask_enr_coh is not None:
-            scores_enr_coh[mask_enr_coh == False] = 0
+            scores_enr_coh = np.where(mask_enr_coh, scores_enr_coh, 0)
             
         best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 11999e9..2299446 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -21,7 +21,7 @@ class TNorm(ScoreNorm):
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)
             s_t = np.std(scores_coh_test, axis=0, keepdims=True)
         else:
-            scores_coh_test[mask==False] = 0
+            scores_coh_test = np.where(mask, scores_coh_test, 0)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
             s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index b758268..9b968d8 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -22,7 +22,7 @@ class ZNorm(ScoreNorm):
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)
             s_z = np.std(scores_enr_coh, axis=1, keepdims=True)
         else:
-            scores_enr_coh[mask==False] = 0
+            scores_enr_coh = np.where(mask, scores_enr_coh, 0)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
             s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
-- 
2.43.0


From fbe741f8aebfa594cb845b0ecb65e287650dada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 003/100] fix: ZTNorm masks the cohort-cohort scores with the
 cohort-cohort mask

---
 hyperion/score_norm/zt_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index e3f7b05..9906b47 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -30,7 +30,7 @@ class ZTNorm(ScoreNorm):
         scores_z_norm = self.z_norm.predict(
             scores, scores_enr_coh, mask_enr_coh)
         scores_coh_test_z_norm = self.z_norm.predict(
-            scores_coh_test, scores_coh_coh, mask_enr_coh)
+            scores_coh_test, scores_coh_coh, mask_coh_coh)
         scores_zt_norm = self.t_norm.predict(
             scores_z_norm, scores_coh_test_z_norm, mask_coh_test)
         
-- 
2.43.0


From 0a32328dd9775e04ce8a5214693aa5db9b90f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 004/100] fix: the standard deviation floor of score
 normalization also holds for masked and adaptive cohorts

---
 hyperion/score_norm/adapt_s_norm.py | 10 ++++++----
 hyperion/score_norm/t_norm.py       |  2 +-
 hyperion/score_norm/z_norm.py       |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index db134b0..1cae85c 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -53,8 +53,9 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_enr_coh[:, best_idx_i],
                                axis=1, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
-                                      axis=1, keepdims=True)/norm - mu_z**2)
+                s_z = np.sqrt(np.maximum(np.mean(scores_enr_coh[:, best_idx_i]**2,
+                                                 axis=1, keepdims=True)/norm - mu_z**2, 0))
+            s_z[s_z<self.std_floor] = self.std_floor
 
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
@@ -74,8 +75,9 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_coh_test[best_idx_i,:],
                                axis=0, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
-                                      axis=0, keepdims=True)/norm - mu_z**2)
+                s_z = np.sqrt(np.maximum(np.mean(scores_coh_test[best_idx_i,:]**2,
+                                                 axis=0, keepdims=True)/norm - mu_z**2, 0))
+            s_z[s_z<self.std_floor] = self.std_floor
 
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 2299446..271c94a 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -24,7 +24,7 @@ class TNorm(ScoreNorm):
             scores_coh_test = np.where(mask, scores_coh_test, 0)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
-            s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
+            s_t = np.sqrt(np.maximum(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2, 0))
             
         s_t[s_t<self.std_floor] = self.std_floor
         
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index 9b968d8..b021220 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -25,7 +25,7 @@ class ZNorm(ScoreNorm):
             scores_enr_coh = np.where(mask, scores_enr_coh, 0)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
-            s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
+            s_z = np.sqrt(np.maximum(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2, 0))
 
         s_z[s_z<self.std_floor] = self.std_floor
         
-- 
2.43.0


From cbe734e48bc90fbb8200b9cdee5adb96504b4c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 005/100] fix: GaussCalibration.load_params takes sigma2 from
 the saved parameters

---
 hyperion/calibration/gauss_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index f1d613f..70f083d 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -75,6 +75,6 @@ class GaussCalibration(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=config['sigma2'], name=config['name'])
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'], name=config['name'])
 
     
-- 
2.43.0


From 2d6b9a109eaffa52be1638da34a4169ae1b6bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 006/100] fix: weighted sufficient statistics do not overwrite
 the caller's statistics

---
 hyperion/pdfs/core/exp_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index f252af2..87f0d1f 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -84,7 +84,7 @@ class ExpFamily(PDF):
         if sample_weight is None:
             N = u_x.shape[0]
         else:
-            u_x *= sample_weight[:, None]
+            u_x = u_x * sample_weight[:, None]
             N = np.sum(sample_weight)
         acc_u_x = np.sum(u_x, axis=0)
         return N, acc_u_x
-- 
2.43.0


From 34c63357ecda60e9a9469f6062d0631eec6104f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 007/100] fix: ExpFamily.add_suff_stats adds all the statistics

---
 hyperion/pdfs/core/exp_family.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index 87f0d1f..bd04fee 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -111,11 +111,11 @@ class ExpFamily(PDF):
     
     def add_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
     
-- 
2.43.0


From a117c1b33f3de4047326eaca734aa92d894579d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 008/100] fix: Normal and NormalDiagCov load_params are class
 methods without self

---
 hyperion/pdfs/core/normal.py          | 2 +-
 hyperion/pdfs/core/normal_diag_cov.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 39342a5..110ce6e 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -207,7 +207,7 @@ class Normal(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 6048f80..7575143 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -173,7 +173,7 @@ class NormalDiagCov(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From dde86144f01f440f29931dea2258f6ae6335977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 009/100] fix: Normal.norm_suff_stats whitens the statistics
 with the factor of the precision used by log_prob_std

---
 hyperion/pdfs/core/normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 110ce6e..072441e 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -121,12 +121,12 @@ class Normal(ExpFamily):
         assert self.is_init
         
         F, S = self.unstack_suff_stats(u_x)
-        F_norm = np.dot(F-N*self.mu, self.cholLambda.T)
+        F_norm = np.dot(F-N*self.mu, self.cholLambda)
         if return_order2:
-            SS = vec2symat(S)
-            Fmu = np.outer(self.F, self.mu)
+            SS = vec2symmat(S)
+            Fmu = np.outer(F, self.mu)
             SS = SS-Fmu-Fmu.T+N*np.outer(self.mu,self.mu)
-            SS = np.dot(self.cholLambda, np.dot(SS, self.cholLambda.T))
+            SS = np.dot(self.cholLambda.T, np.dot(SS, self.cholLambda))
             S = symmat2vec(SS)
             return N, self.stack_suff_stats(F_norm, S)
         return N, F_norm
-- 
2.43.0


From 9147b123690270f6a64c382a648c397068831490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 010/100] fix: Normal and NormalDiagCov M-steps estimate the
 covariance around the mean when the mean is not updated

---
 hyperion/pdfs/core/normal.py          | 3 ++-
 hyperion/pdfs/core/normal_diag_cov.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 072441e..f760217 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -142,7 +142,8 @@ class Normal(ExpFamily):
 
         if self.update_Lambda:
             S = vec2symmat(S/N)
-            S -= np.outer(self.mu,self.mu)
+            Fmu = np.outer(F/N, self.mu)
+            S = S - Fmu - Fmu.T + np.outer(self.mu,self.mu)
             # S = fullcov_varfloor(S, self.var_floor)
             self.Lambda = invert_pdmat(S, return_inv=True)[-1]
             self._Sigma = None
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 7575143..10b5f3d 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -119,7 +119,7 @@ class NormalDiagCov(ExpFamily):
             self.mu = F/N
 
         if self.update_Lambda:
-            S = S/N-self.mu**2
+            S = S/N-2*self.mu*F/N+self.mu**2
             S[S<self.var_floor] = self.var_floor
             self.Lambda=1/S
             self._Sigma = S
-- 
2.43.0


From 96399853e8d7348b1909f0dc4003fe9c5fd6e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 011/100] fix: GMM M-steps update the mixture weights and drop
 the cached log weights

---
 hyperion/pdfs/mixtures/gmm.py               | 4 ++++
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 1 +
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 1 +
 3 files changed, 6 insertions(+)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d84b230..d211846 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -188,6 +188,10 @@ class GMM(ExpFamilyMixture):
             self._logLambda = None
             self._cholLambda = None
 
+        if self.update_pi:
+            self.pi = N/np.sum(N)
+            self._log_pi = None
+
         self._compute_nat_params()
 
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 266a95a..4e9c671 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -166,6 +166,7 @@ class GMMDiagCov(ExpFamilyMixture):
                 mu[N0] = 0
                 S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index a528c76..8e8e484 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -99,6 +99,7 @@ class GMMTiedDiagCov(GMMDiagCov):
                 mu[N0] = 0
                 S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
-- 
2.43.0


From 69bb229106f4de1200883e5703b110c0b21cbb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 012/100] fix: GMM M-steps estimate the covariance around the
 mean when the mean is not updated

---
 hyperion/pdfs/mixtures/gmm.py               | 3 ++-
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 2 +-
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d211846..825859d 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -178,7 +178,8 @@ class GMM(ExpFamilyMixture):
             C = np.zeros((self.num_comp, self.x_dim, self.x_dim), dtype=float_cpu())
             for k in xrange(self.num_comp):
                 C[k] = vec2symmat(S[k]/N[k])
-                C[k] -= np.outer(self.mu[k],self.mu[k])
+                Fmu = np.outer(F[k]/N[k], self.mu[k])
+                C[k] += np.outer(self.mu[k],self.mu[k]) - Fmu - Fmu.T
             Sfloor = self.var_floor*np.mean(C, axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
             for k in xrange(self.num_comp):
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 4e9c671..c5352ba 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -151,7 +151,7 @@ class GMMDiagCov(ExpFamilyMixture):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             self.Lambda=1/S
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 8e8e484..1d83646 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -83,7 +83,7 @@ class GMMTiedDiagCov(GMMDiagCov):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
-- 
2.43.0


From c9d7971537fd31c89c29fea9055fc7d6a4505268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 013/100] fix: diagonal GMM M-steps reset the components with
 count under min_N (NameError)

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 9 ++++++---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index c5352ba..b36e7ce 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -162,9 +162,12 @@ class GMMDiagCov(ExpFamilyMixture):
         if self.update_pi:
             N0 = N < self.min_N
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                if self.update_mu:
+                    self.mu[N0] = 0
+                if self.update_Lambda:
+                    self.Lambda[N0] = 1
+                    self._Sigma = None
             self.pi = N/np.sum(N)
             self._log_pi = None
             
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 1d83646..0666ead 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -95,9 +95,9 @@ class GMMTiedDiagCov(GMMDiagCov):
         if self.update_pi:
             N0 = N < self.min_N
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                if self.update_mu:
+                    self.mu[N0] = 0
             self.pi = N/np.sum(N)
             self._log_pi = None
             
-- 
2.43.0


From 6efad21988c4409ef0d3fd4af954beacb5af01c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 014/100] fix: norm_suff_stats of the GMM classes normalizes
 each component with its own count and factor

---
 hyperion/pdfs/mixtures/gmm.py          | 11 ++++++-----
 hyperion/pdfs/mixtures/gmm_diag_cov.py |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 825859d..d074637 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -153,13 +153,14 @@ class GMM(ExpFamilyMixture):
     def norm_suff_stats(self, N, u_x, return_order2=False):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = F - N[:,None]*self.mu
+        S = S.copy()
         for k in xrange(self.num_comp):
-            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k].T)
+            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k])
             if return_order2:
-                SS = vec2symat(S[k])
-                Fmu = np.outer(self.F[k], self.mu[k])
-                SS = SS-Fmu-Fmu.T+N*np.outer(self.mu[k],self.mu[k])
-                SS = np.dot(self.cholLambda[k], np.dot(SS, self.cholLambda[k].T))
+                SS = vec2symmat(S[k])
+                Fmu = np.outer(F[k], self.mu[k])
+                SS = SS-Fmu-Fmu.T+N[k]*np.outer(self.mu[k],self.mu[k])
+                SS = np.dot(self.cholLambda[k].T, np.dot(SS, self.cholLambda[k]))
                 S[k] = symmat2vec(SS)
         if return_order2:
             return N, self.stack_suff_stats(F_norm, S)
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index b36e7ce..ef27f1b 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -132,10 +132,10 @@ class GMMDiagCov(ExpFamilyMixture):
 
     
     def norm_suff_stats(self, N, u_x, return_order2=False):
-        F, S = self.unstack_suff_stats(acc_u_x)
+        F, S = self.unstack_suff_stats(u_x)
         F_norm = self.cholLambda*(F-N[:,None]*self.mu)
         if return_order2:
-            S=S-2*self.mu*F+N*self.mu**2
+            S=S-2*self.mu*F+N[:,None]*self.mu**2
             S *= self.Lambda
             return N, self.stack_suff_stats(F_norm, S)    
 
-- 
2.43.0


From 7edd48f4e66b48ceaaa5bd8bc730bab06e0dcfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 015/100] fix: GMM models can be saved and loaded;
 GMM.compute_std keeps the precision in full precision

---
 hyperion/pdfs/mixtures/gmm.py          | 4 ++--
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d074637..dd2a6b3 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -256,7 +256,7 @@ class GMM(ExpFamilyMixture):
         config = {'var_floor': self.var_floor,
                   'update_mu': self.update_mu,
                   'update_lambda': self.update_Lambda }
-        base_config = super(DiagGMM, self).get_config()
+        base_config = super(GMM, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
 
@@ -378,7 +378,7 @@ class GMM(ExpFamilyMixture):
     def compute_std(eta):
         x_dim = Normal.compute_x_dim_from_eta(eta)
         mu = np.zeros((eta.shape[0], x_dim), dtype=float_cpu())
-        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype='float32')
+        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype=float_cpu())
         for k in xrange(eta.shape[0]):
             mu[k], Lambda[k] = Normal.compute_std(eta[k])
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index ef27f1b..99f5049 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -253,7 +253,7 @@ class GMMDiagCov(ExpFamilyMixture):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['pi', 'mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'], pi=params['pi'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From 2c4759e5d3e66793a107018522714056923904ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 016/100] fix: GMM.split_comp scales the eigenvectors with the
 eigenvalues

---
 hyperion/pdfs/mixtures/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index dd2a6b3..79703d9 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -207,7 +207,7 @@ class GMM(ExpFamilyMixture):
         
         for g in xrange(self.num_comp):
             w, v = la.eigh(self.Sigma[g])
-            v *= np.sqrt(v)
+            v *= np.sqrt(w)
             if K==2:
                 std_dev = np.sum(v, axis=1)
                 mu[2*g] += std_dev
-- 
2.43.0


From 69262af54c9f2f9bc0afe99f43477f583c7c47a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 017/100] fix: ExpFamilyMixture.fit normalizes the validation
 elbo with the number of validation frames

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 72608bf..5ad03cb 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -84,7 +84,7 @@ class ExpFamilyMixture(PDF):
         if x_val is None:
             return elbo, elbo/x.shape[0]
         else:
-            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x.shape[0]
+            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x_val.shape[0]
 
 
         
-- 
2.43.0


From 45b8f70a418ca51b17503f48ed98cfaad0c35e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 018/100] fix: ExpFamilyMixture.sum_suff_stats adds the
 statistics of all the blocks

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 5ad03cb..753ac56 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -407,11 +407,11 @@ class ExpFamilyMixture(PDF):
     
     def sum_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
 
-- 
2.43.0


From dafecf6251e917b3b6393c1d1b38eaca2b08bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 019/100] fix: sort-time statistics work for one segment and
 when the last segment ends before the last frame

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 753ac56..72ef070 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -299,8 +299,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         if u_x is None:
             u_x = self.compute_suff_stats(x)
@@ -335,8 +333,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         num_segments_per_batch = np.floor((num_frames-frame_length)/frame_shift + 1)
         batch_size = int((num_segments_per_batch-1)*frame_shift+frame_length)
@@ -347,7 +343,7 @@ class ExpFamilyMixture(PDF):
         
         sw_i = None
         cur_segment=0
-        for i1 in xrange(0, x.shape[0], batch_shift):
+        for i1 in xrange(0, num_segments*frame_shift, batch_shift):
             i2 = np.minimum(i1+batch_size, x.shape[0])
             x_i = x[i1:i2,:]
             if sample_weight is not None:
-- 
2.43.0


From 7a7c7e6f9f933e038b0024596e899af13d73f323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 020/100] fix: FRPLDA accumulates the posterior covariances for
 the within-class M-step

---
 hyperion/pdfs/plda/frplda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 49aa4c7..be027c0 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -147,6 +147,7 @@ class FRPLDA(PLDABase):
                 
             if return_acc:
                 Py += M_i*iL
+                Ry += N_i*M_i*iL
 
         if not return_tuple:
             return y
-- 
2.43.0


From ae62ff8dabd1953146b1688b1f6ab4c8565ed8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 021/100] fix: FRPLDA M-step without mean update keeps the
 between-class covariance symmetric

---
 hyperion/pdfs/plda/frplda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index be027c0..97e98f2 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -222,7 +222,7 @@ class FRPLDA(PLDABase):
                 iB = Py/M - np.outer(self.mu, self.mu)
             else:
                 muybar = np.outer(self.mu, ybar)
-                iB = Py/M - muybar - muybar + np.outer(self.mu, self.mu)
+                iB = Py/M - muybar - muybar.T + np.outer(self.mu, self.mu)
             self.B = invert_pdmat(iB, return_inv=True)[-1]
         if self.update_W:
             iW = (S - Cy - Cy.T + Ry)/N
-- 
2.43.0


From b7189c9d2d56226a028ce9f76221f17b1c254639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 022/100] fix: SPLDA and PLDA posteriors center the first order
 statistics with the class counts

---
 hyperion/pdfs/plda/plda.py  | 2 +-
 hyperion/pdfs/plda/splda.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index dbda90f..192d67c 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -118,7 +118,7 @@ class PLDA(PLDABase):
         assert self.is_init
         
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:,None]*self.mu
         
         M=F.shape[0]
         y_dim = self.y_dim
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index c37f3de..d1eab2e 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -78,7 +78,7 @@ class SPLDA(PLDABase):
     def compute_py_g_x(self, D, return_cov=False, return_logpy_0=False,
                        return_acc=False):
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:,None]*self.mu
         
         M = F.shape[0]
         y_dim = self.y_dim
-- 
2.43.0


From c45c6a22ca7c3efe0c3a90562022626958692409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 023/100] fix: llr_NvsM_book of SPLDA and PLDA returns the
 scores and keeps the given statistics

---
 hyperion/pdfs/plda/plda.py  | 13 +++++++------
 hyperion/pdfs/plda/splda.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 192d67c..3d96aab 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -470,18 +470,18 @@ class PLDA(PLDABase):
         N1, F1, _ = D1
         N2, F2, _ = D2
 
-        WV = self._WV
+        WV = self._VW
         VV = self._VWV
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -519,9 +519,10 @@ class PLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index d1eab2e..3667bc6 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -328,14 +328,14 @@ class SPLDA(PLDABase):
         VV = np.dot(self.V, WV)
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -373,9 +373,10 @@ class SPLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
-- 
2.43.0


From d5092ecab61d29515c25494533504da3abb5bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 024/100] fix: SPLDA.initialize gives a diagonal within-class
 precision matrix

---
 hyperion/pdfs/plda/splda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 3667bc6..82aca73 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -68,7 +68,7 @@ class SPLDA(PLDABase):
         if self.fullcov_W:
             W = invert_pdmat(C, return_inv=True)[-1]
         else:
-            W = 1/np.diag(C)
+            W = np.diag(1/np.diag(C))
         
         self.mu = mu
         self.V = V
-- 
2.43.0


From db570da80a7157f48a6b81c5e81503c0d3d9fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 025/100] fix: PLDA.Estep centers the channel cross statistics
 with the outer product

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 3d96aab..0b7726a 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -211,7 +211,7 @@ class PLDA(PLDABase):
         Cy = np.dot(F.T, y)
         
         #Cz
-        A = np.dot(S - np.dot(F_tot.T,self.mu), self._DU.T)-np.dot(Cy, self._J)
+        A = np.dot(S - np.outer(F_tot, self.mu), self._DU.T)-np.dot(Cy, self._J)
         Cz = self._mult_iLz(A)
         
         #Ry Ry1, Py
-- 
2.43.0


From ecb9d23f9bd909530a8b3c90edea6c16d5f778b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 026/100] fix: PLDA.MstepML solves the updates of mu with one
 of V and U

---
 hyperion/pdfs/plda/plda.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 0b7726a..e92326f 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -298,25 +298,25 @@ class PLDA(PLDABase):
             b = np.hstack((Rz1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
-            a = Cz.T - np.outer(Ryz, self.V)
-            b = F[:,None] - np.outer(Ry1, self.V)
+            a = Cz.T - np.dot(Ryz.T, self.V)
+            b = F[None,:] - np.dot(Ry1, self.V)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.U = Vtilde[:-1]
             self.mu = Vtilde[-1]
         
 
-        if not self.update_mu and self.update_V and not self.update_U:
+        if self.update_mu and self.update_V and not self.update_U:
             a = np.hstack((Ry, Ry1[:,None]))
             b = np.hstack((Ry1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
             a = Cy.T - np.dot(Ryz, self.U)
-            b = F[:,None] - np.dot(Rz1, self.U)
+            b = F[None,:] - np.dot(Rz1, self.U)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.V = Vtilde[:-1]
-            self.U = Vtilde[-1]
+            self.mu = Vtilde[-1]
 
         a = np.hstack((Ry, Ryz, Ry1[:, None]))
         b = np.hstack((Ryz.T, Rz, Rz1[:, None]))
-- 
2.43.0


From ba91205ff81f5477f43f7cd3117865060572515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 027/100] fix: PLDA.log_probx_g_y multiplies the rows with the
 inverse covariance

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index e92326f..863a6b7 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -402,7 +402,7 @@ class PLDA(PLDABase):
     
     def log_probx_g_y(self, x, y):
         iW = np.diag(1/self.D) + np.dot(self.U.T, self.U)
-        mult_W, _, logiW = invert_pdmat(iW, return_logdet=True)
+        mult_W, _, logiW = invert_pdmat(iW, right_inv=True, return_logdet=True)
         delta = x - self.mu - np.dot(y, self.V)
         logp = - x.shape[-1]*np.log(2*np.pi) - logiW - np.sum(
             mult_W(delta)*delta, axis=-1)
-- 
2.43.0


From cdb4fc2d141035d43a2bce3bc355a7de641b97d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 028/100] fix: PLDA.sample draws the residual with variance 1/D

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 863a6b7..d5bcfd6 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -534,7 +534,7 @@ class PLDA(PLDABase):
         x_dim = self.mu.shape[0]
 
         z1 = rng.normal(size=(num_classes*num_samples_per_class, x_dim)).astype(dtype=float_cpu(), copy=False)
-        z1 /= self.D
+        z1 /= np.sqrt(self.D)
         
         z2 = rng.normal(size=(num_classes*num_samples_per_class, self.z_dim)).astype(dtype=float_cpu(), copy=False)
         z2 = np.dot(z2, self.U)
-- 
2.43.0


From 7822d905b699708037d6c937f1d75b5b0b1d79e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 029/100] fix: PLDA.weighted_avg_params refreshes the values
 derived from the parameters

---
 hyperion/pdfs/plda/plda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index d5bcfd6..ef7cdd8 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -573,6 +573,8 @@ class PLDA(PLDABase):
             iD[iD<self.floor_iD] = self.floor_iD
             self.D = 1/iD
 
+        self.compute_aux()
+
         # if w_W > 0:
         #     Sw0 = np.dot(self.U.T, self.U)
         #     Sw = np.dot(U.T, U)
-- 
2.43.0


From 830247e54437aa52609d90b768d7f70b140776ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 030/100] fix: PLDA soft statistics do not overwrite the
 caller's posteriors

---
 hyperion/pdfs/plda/plda_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 83a6449..fb29827 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -224,7 +224,7 @@ class PLDABase(PDF):
         if sample_weight is not None:
             p_theta = sample_weight[:, None]*p_theta
         if scal_factor is not None:
-            p_theta *= scal_factor
+            p_theta = scal_factor*p_theta
         N = np.sum(p_theta, axis=0)
         F = np.dot(p_theta.T, x)
         wx = np.sum(p_theta, axis=1, keepdims=True)*x
-- 
2.43.0


From 26f8dcdb2e342cf9ee53327470d1a07583a70e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 031/100] fix: GMMTiedDiagCov.split_comp returns its own class
 (NameError)

---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 0666ead..349e031 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -122,7 +122,7 @@ class GMMTiedDiagCov(GMMDiagCov):
                 mu[k::K] += factor*std_dev
 
         config = self.get_config()
-        return DiagGMMTiedCov(pi=pi, mu=mu, Lambda=self.Lambda, **config)
+        return GMMTiedDiagCov(pi=pi, mu=mu, Lambda=self.Lambda, **config)
         
 
     
-- 
2.43.0


From 8849f7c1e1e56711f0fa77c1e358dae95cd993c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 032/100] fix: CentWhiten.predict uses its own diagonal
 transform (NameError)

---
 hyperion/transforms/cent_whiten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5241cb0..4959ce5 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -32,7 +32,7 @@ class CentWhiten(HypModel):
             x = x - self.mu
         if self.T is not None:
             if self.T.ndim == 1:
-                x = x*T
+                x = x*self.T
             else:
                 x = np.dot(x, self.T)
         return x
-- 
2.43.0


From 9e6f7599f8da15743c1d79c0628f4649777b25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 033/100] fix: CentWhitenUP.predict does not overwrite the
 input variances and accepts non-square transforms

---
 hyperion/transforms/cent_whiten_up.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 855385b..20c680a 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -30,8 +30,8 @@ class CentWhitenUP(CentWhiten):
         m_x = x[:,:x_dim]
         s2_x = x[:,x_dim:]
         m_x = super(CentWhitenUP, self).predict(m_x)
-        for i in xrange(x.shape[0]):
-            s2_x[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
+        if self.T is not None:
+            s2_x = np.dot(s2_x, self.T**2)
         return np.hstack((m_x, s2_x))
 
 
-- 
2.43.0


From 84121f033171a714b7c760efd11aa17826039f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 034/100] fix: SbSw keeps the statistics given to the
 constructor

---
 hyperion/transforms/sb_sw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 7507fcd..9b14e67 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -21,9 +21,9 @@ class SbSw(HypModel):
     """
     def __init__(self, Sb=None, Sw=None, mu=None, num_classes=0, **kwargs):
         super(SbSw, self).__init__(**kwargs)
-        self.Sb = None
-        self.Sw = None
-        self.mu = None
+        self.Sb = Sb
+        self.Sw = Sw
+        self.mu = mu
         self.num_classes = num_classes
 
         
-- 
2.43.0


From aaab27052fe49476f3b3b78f639f0cbcea7fe9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 035/100] fix: SbSw models can be loaded

---
 hyperion/transforms/sb_sw.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 9b14e67..efd90a8 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -82,13 +82,12 @@ class SbSw(HypModel):
 
         
     @classmethod
-    def load(cls, file_path):
-        with h5py.File(file_path,'r') as f:
-            config = self.load_config_from_json(f['config'])
-            param_list = ['mu', 'Sb', 'Sw', 'num_classes']
-            params = cls._load_params_to_dict(f, config['name'], param_list)
-            kwargs = dict(list(config.items()) + list(params.items()))
-            return cls(**kwargs)
+    def load_params(cls, f, config):
+        param_list = ['mu', 'Sb', 'Sw', 'num_classes']
+        params = cls._load_params_to_dict(f, config['name'], param_list)
+        params['num_classes'] = int(params['num_classes'])
+        kwargs = dict(list(config.items()) + list(params.items()))
+        return cls(**kwargs)
         
         
 
-- 
2.43.0


From 0a192218bddc2523aa31adf5fba0849f049b51e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 036/100] fix: NAP.fit computes the within-class directions
 (NameError)

---
 hyperion/transforms/nap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/transforms/nap.py b/hyperion/transforms/nap.py
index bbd54bf..af8711d 100644
--- a/hyperion/transforms/nap.py
+++ b/hyperion/transforms/nap.py
@@ -28,15 +28,15 @@ class NAP(HypModel):
     
     def fit(self, x, U_dim, class_ids):
         x_hat = np.zeros_like(x)
-        u_ids = np.uniqe(class_ids)
+        u_ids = np.unique(class_ids)
         M = np.sqrt(len(u_ids))
         for i in u_ids:
-            idx = np.nonzero(i==class_ids)
+            idx = np.nonzero(i==class_ids)[0]
             N = np.sqrt(len(idx))
             mu_i = np.mean(x[idx,:], axis=0)
-            xx[idx, :] = (x[idx, :] - mu_i)/N
-        xx /= M
-        _, s, Vt = np.svd(xx, full_matrices=False, overwrite_a=True)
+            x_hat[idx, :] = (x[idx, :] - mu_i)/N
+        x_hat /= M
+        _, s, Vt = la.svd(x_hat, full_matrices=False, overwrite_a=True)
         idx = (np.argsort(s)[::-1])[:U_dim]
         self.U = Vt[idx, :]
 
-- 
2.43.0


From 281e849533f985f771571df40c5478219ff406a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 037/100] fix: Gaussianizer.fit works without a maximum number
 of vectors

---
 hyperion/transforms/gaussianizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 3850d86..58ed0c3 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -50,7 +50,7 @@ class Gaussianizer(HypModel):
 
         x = np.zeros((1, x.shape[-1]), dtype=float_cpu())
 
-        if r.shape[0] > self.max_vectors:
+        if self.max_vectors is not None and r.shape[0] > self.max_vectors:
             index = np.round(np.linspace(0, r.shape[0]-1, self.max_vectors, dtype=float)).astype(int)
             r = r[index, :]
 
-- 
2.43.0


From 6b9e2321bcb5148fa491cf4f80da5a970c6ff521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 038/100] fix: TransformList.load keeps the names of the
 transforms

---
 hyperion/transforms/transform_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/transform_list.py b/hyperion/transforms/transform_list.py
index 8d4c0b0..764dff2 100644
--- a/hyperion/transforms/transform_list.py
+++ b/hyperion/transforms/transform_list.py
@@ -82,5 +82,8 @@ class TransformList(HypModel):
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        # the names of the transforms already contain the name of the list
+        t_list = cls(transforms)
+        t_list.name = config['name']
+        return t_list
             
-- 
2.43.0


From e4cbd811daef27161785c6812d52c904572d7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 039/100] fix: models with parameters that are None can be
 loaded

---
 hyperion/hyp_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 3082a3c..3257059 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -124,7 +124,8 @@ class HypModel(object):
         param_dict = {}
         for k in params:
             p_name = prefix + k
-            param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
+            # parameters that are None are not saved
+            param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k]) if p_name in f else None
         return param_dict
 
     
-- 
2.43.0


From 02a59339d9e9c44ac99e48d70ac1e08df3a1770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 040/100] fix: LDA.load restores the settings

---
 hyperion/transforms/lda.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/lda.py b/hyperion/transforms/lda.py
index e7bb778..5a0d74c 100644
--- a/hyperion/transforms/lda.py
+++ b/hyperion/transforms/lda.py
@@ -86,7 +86,9 @@ class LDA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], lda_dim=config['lda_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
 
         
     # @classmethod
-- 
2.43.0


From df758bc3ce260bf99a2343fec9241ff6f02425fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 041/100] fix: PCA.load restores the settings

---
 hyperion/transforms/pca.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index bd93077..7968a41 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -85,7 +85,9 @@ class PCA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
     
 
     
-- 
2.43.0


From fe3eff599f4737e0ced3f2c3a53bce5cb83aa7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 042/100] fix: CentWhiten.load restores the settings

---
 hyperion/transforms/cent_whiten.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 4959ce5..5985827 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -89,7 +89,9 @@ class CentWhiten(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
 
     
     
-- 
2.43.0


From 839130f715fafb0c95f01da1e995a3652c2f32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 043/100] fix: opt_loglr reorders the ratios without
 overwriting them on the way

---
 hyperion/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 00053a2..bae6ea7 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -151,7 +151,7 @@ def opt_loglr(tar, non, method='laplace'):
     llr = post_log_odds - prior_log_odds
     llr += 1e-6 * np.arange(n)/n
 
-    llr[sort_idx] = llr
+    llr[sort_idx] = np.copy(llr)
     tar_llr = llr[:ntar]
     non_llr = llr[ntar:]
     
-- 
2.43.0


From f958ab532c52086c6d68dcc45b68ad5cb3046190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 044/100] fix: filter_roc returns the filtered curve with its
 last point (NameError)

---
 hyperion/metrics/roc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 80b6be9..b096fc0 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -164,8 +164,8 @@ def filter_roc(p_miss,p_fa):
                             input vectors.  
     """
     out = 0
-    new_p_miss = np.copy(p_miss)
-    new_p_fa = np.copy(p_fa)
+    new_p_miss = np.append(p_miss, p_miss[-1])
+    new_p_fa = np.append(p_fa, p_fa[-1])
 
     for i in xrange(1,len(p_miss)):
         if p_miss[i] == new_p_miss[out] or p_fa[i] == new_p_fa[out]:
@@ -180,8 +180,8 @@ def filter_roc(p_miss,p_fa):
     out = out+1
     new_p_miss[out] = p_miss[-1]
     new_p_fa[out] = p_fa[-1]
-    new_p_miss = new_p_miss[:out]
-    new_p_fa = new_fa[:out]
+    new_p_miss = new_p_miss[:out+1]
+    new_p_fa = new_p_fa[:out+1]
 
     return new_p_miss, new_p_fa
 
-- 
2.43.0


From e1629f43fd821b188a848a23145bc9b5f773c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 045/100] fix: area under the ROC convex hull uses the segment
 ends

---
 hyperion/metrics/roc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index b096fc0..96e476b 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -204,7 +204,7 @@ def compute_area_under_rocch(p_miss, p_fa):
     
     auc = 0
     for i in xrange(1, len(p_miss)):
-        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i+1])
+        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i-1])
 
     return auc
 
-- 
2.43.0


From 03a7ca7456c44bec1ae3017fd7808fa9406ecb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 046/100] fix: compute_act_dcf counts correctly with repeated
 priors

---
 hyperion/metrics/dcf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/dcf.py b/hyperion/metrics/dcf.py
index d6dd9c5..d959a35 100644
--- a/hyperion/metrics/dcf.py
+++ b/hyperion/metrics/dcf.py
@@ -100,12 +100,16 @@ def compute_act_dcf(tar, non, prior, normalize=True):
     #thresholds
     t = - np.log(prior) + np.log(1-prior)
 
+    # rank of each threshold among the thresholds, equal priors keep their order
+    r_t = np.zeros((num_priors,), dtype='int32')
+    r_t[np.argsort(t, kind='mergesort')] = np.arange(1, num_priors + 1)
+
     ttar = np.concatenate((t, tar))
     ii = np.argsort(ttar, kind='mergesort')
     r = np.zeros((num_priors + ntar), dtype='int32')
     r[ii] = np.arange(1, num_priors + ntar + 1)
     r = r[:num_priors]
-    n_miss = r - np.arange(num_priors, 0, -1)
+    n_miss = r - r_t
 
     
     tnon = np.concatenate((t, non))
@@ -113,7 +117,7 @@ def compute_act_dcf(tar, non, prior, normalize=True):
     r = np.zeros((num_priors + nnon), dtype='int32')
     r[ii] = np.arange(1, num_priors + nnon + 1)
     r = r[:num_priors]
-    n_fa = nnon - r + np.arange(num_priors, 0, -1)
+    n_fa = nnon - r + r_t
 
     # n_miss2 = np.zeros((num_priors,), dtype='int32')
     # n_fa2 = np.zeros((num_priors,), dtype='int32')
-- 
2.43.0


From b88cad9684db5d45721ba75d749839beb7fb62d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 047/100] fix: compute_xlabel_confusion_matrix accepts string
 labels (TypeError)

---
 hyperion/metrics/confusion_matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 8789d6b..594500c 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -75,8 +75,8 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     
     if issubclass(y_true.dtype.type, np.integer):
         y_pred += num_classes_test
-    elif issubclass(y_true.dtype.type, np.dtype('U')) or issubclass(
-    y_true.dtype.type, np.dtype('S')): 
+    elif issubclass(y_true.dtype.type, np.str_) or issubclass(
+    y_true.dtype.type, np.bytes_): 
         y_true = np.asarray(['TEST_' + s for s in y_true])
         y_pred = np.asarray(['TRAIN_' + s for s in y_pred])
     else:
@@ -85,8 +85,8 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
 
     if issubclass(labels_train.dtype.type, np.integer):
         labels_train += num_classes_test
-    elif issubclass(labels_train.dtype.type, np.dtype('U')) or issubclass(
-    labels_train.dtype.type, np.dtype('S')): 
+    elif issubclass(labels_train.dtype.type, np.str_) or issubclass(
+    labels_train.dtype.type, np.bytes_): 
         labels_test = np.asarray(['TEST_' + s for s in labels_test])
         labels_train = np.asarray(['TRAIN_' + s for s in labels_train])
     else:
-- 
2.43.0


From 09a88ad0db4f4a79e946f902c7fd387d445d0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 048/100] fix: compute_xlabel_confusion_matrix keeps its inputs
 and train and test labels apart

---
 hyperion/metrics/confusion_matrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 594500c..40bf555 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -74,7 +74,8 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     num_classes_test = len(labels_test)
     
     if issubclass(y_true.dtype.type, np.integer):
-        y_pred += num_classes_test
+        offset = max(np.max(labels_test), np.max(y_true)) + 1 - min(np.min(labels_train), np.min(y_pred))
+        y_pred = y_pred + offset
     elif issubclass(y_true.dtype.type, np.str_) or issubclass(
     y_true.dtype.type, np.bytes_): 
         y_true = np.asarray(['TEST_' + s for s in y_true])
@@ -84,7 +85,7 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
 
 
     if issubclass(labels_train.dtype.type, np.integer):
-        labels_train += num_classes_test
+        labels_train = labels_train + offset
     elif issubclass(labels_train.dtype.type, np.str_) or issubclass(
     labels_train.dtype.type, np.bytes_): 
         labels_test = np.asarray(['TEST_' + s for s in labels_test])
-- 
2.43.0


From d281400d418b397bc9e9d75d1fe444d676f08d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 049/100] fix: print_confusion_matrix writes to the standard
 output (NameError)

---
 hyperion/metrics/confusion_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 40bf555..9ddf39c 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import sys
+
 import numpy as np
 import matplotlib.pyplot as plt
 from sklearn.metrics import confusion_matrix
-- 
2.43.0


From 9c9c7d8c5edbb33d8494dcf9820bd3dc282b613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:25 +0000
Subject: [PATCH 050/100] fix: SCPList builds range_spec lists from range_spec,
 not from offset

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index f26a932..49e3348 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -52,7 +52,7 @@ class SCPList(object):
                 self.range_spec = None
             else:
                 if isinstance(self.range_spec, list):
-                    self.range_spec = np.array(self.offset, dtype=np.int64)
+                    self.range_spec = np.array(self.range_spec, dtype=np.int64)
                 assert len(self.key) == self.range_spec.shape[0]
                 assert self.range_spec.shape[1] == 2
 
-- 
2.43.0


From 11417aa35062017028e9d4f2d1d879d8b961d2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:25 +0000
Subject: [PATCH 051/100] fix: SCPList.load reads empty lists (IndexError)

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 49e3348..8bd2aa5 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -194,7 +194,7 @@ class SCPList(object):
         file_offset = [f[0].split(sep=offset_sep, maxsplit=1) for f in file_range]
         file_path = [f[0] for f in file_offset]
         
-        if len(file_offset[0]) == 2:
+        if len(file_offset) > 0 and len(file_offset[0]) == 2:
             offset = [int(f[1]) if len(f)==2 else -1 for f in file_offset]
             if -1 in offset:
                 raise ValueError('Missing data position for %s' % f[0])
-- 
2.43.0


From fff4090e34aa10726e2778e1b4004120a364f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:25 +0000
Subject: [PATCH 052/100] fix: SCPList.merge keeps the ranges when the first
 list is empty

---
 hyperion/utils/scp_list.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 8bd2aa5..5ac70f0 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -283,7 +283,8 @@ class SCPList(object):
         key_list = [item.key for item in scp_lists]
         file_list = [item.file_path for item in scp_lists]
         offset_list = [item.offset for item in scp_lists]
-        range_list =  [item.range_spec for item in scp_lists]
+        # empty lists do not have range_spec
+        range_list =  [item.range_spec for item in scp_lists if len(item.key) > 0]
 
         key = np.concatenate(tuple(key_list))
         file_path = np.concatenate(tuple(file_list))
@@ -293,7 +294,7 @@ class SCPList(object):
         else:
             offset = np.concatenate(tuple(offset_list))
 
-        if range_list[0] is None:
+        if len(range_list) == 0 or range_list[0] is None:
             range_spec = None
         else:
             range_spec = np.concatenate(tuple(range_list))
-- 
2.43.0


From ac4414dff847fdebcc59cff20bf75cfd3910bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 053/100] fix: TrialKey.sort sorts the condition matrices along
 models and segments

---
 hyperion/utils/trial_key.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index e1aed9a..efbbbb4 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -73,11 +73,11 @@ class TrialKey(object):
         self.tar = self.tar[ix]
         self.non = self.non[ix]
         if self.model_cond is not None:
-            self.model_cond = self.model_cond[m_idx]
+            self.model_cond = self.model_cond[:, m_idx]
         if self.seg_cond is not None:
-            self.seg_cond = self.seg_cond[s_idx]
+            self.seg_cond = self.seg_cond[:, s_idx]
         if self.trial_cond is not None:
-            self.trial_cond = self.trial_cond[:, ix]
+            self.trial_cond = self.trial_cond[:, m_idx[:, None], s_idx]
         
         
     def save(self, file_path):
-- 
2.43.0


From f45b5dd5025b9dee654fd35ddcda4f9e49214d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 054/100] fix: TrialKey.filter and split keep the trial
 conditions (IndexError)

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index efbbbb4..c94d2d0 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -363,7 +363,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[:, mod_idx[:, None], seg_idx]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -403,7 +403,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx1]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[:, model_idx1[:, None], seg_idx1]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
-- 
2.43.0


From d2c2b369ceeb5ece540839c68a9d4f557e685a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 055/100] fix: TrialKey.merge merges segment and trial
 conditions

---
 hyperion/utils/trial_key.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index c94d2d0..9febd34 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -281,11 +281,11 @@ class TrialKey(object):
                 model_cond_1 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_1[:, mi_a] = model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_1 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_1[:, mi_a] = seg_cond[:, mi_b]
+                seg_cond_1 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_1[:, si_a] = seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_1 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_1[:, ix_a] = trial_cond[:, ix_b]
+                trial_cond_1 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_1[:, mi_a[:, None], si_a] = trial_cond[:, mi_b[:, None], si_b]
 
                 
             _, mi_a, mi_b = intersect(new_model_set, key_i.model_set,
@@ -302,11 +302,11 @@ class TrialKey(object):
                 model_cond_2 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_2[:, mi_a] = key_i.model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_2 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_2[:, mi_a] = key_i.seg_cond[:, mi_b]
+                seg_cond_2 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_2[:, si_a] = key_i.seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_2 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_2[:, ix_a] = key_i.trial_cond[:, ix_b]
+                trial_cond_2 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_2[:, mi_a[:, None], si_a] = key_i.trial_cond[:, mi_b[:, None], si_b]
 
             model_set = new_model_set
             seg_set = new_seg_set
@@ -317,7 +317,7 @@ class TrialKey(object):
             if seg_cond is not None:
                 seg_cond = np.logical_or(seg_cond_1, seg_cond_2)
             if trial_cond is not None:
-                trial_cond = np.logical_or(trial_cond_1, seg_cond_2)
+                trial_cond = np.logical_or(trial_cond_1, trial_cond_2)
                             
         return cls(model_set, seg_set, tar, non,
                    model_cond, seg_cond, trial_cond,
-- 
2.43.0


From 6a2dfbdedbfd97a340388cdc6211985f2ae42e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 056/100] fix: TrialKey comparison with trial conditions
 (AttributeError)

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 9febd34..e6c37b1 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -474,7 +474,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             eq = eq and np.all(self.seg_cond == other.seg_cond)
         if self.trial_cond is not None:
-            eq = eq and np.all(self.triall_cond == other.trial_cond)
+            eq = eq and np.all(self.trial_cond == other.trial_cond)
 
         eq = eq and (
             (self.model_cond_name is None) == (other.model_cond_name is None))
@@ -488,7 +488,7 @@ class TrialKey(object):
         if self.seg_cond_name is not None:
             eq = eq and np.all(self.seg_cond_name == other.seg_cond_name)
         if self.trial_cond_name is not None:
-            eq = eq and np.all(self.triall_cond_name == other.trial_cond_name) 
+            eq = eq and np.all(self.trial_cond_name == other.trial_cond_name) 
 
         return eq
 
-- 
2.43.0


From ebc5e0ad34fa8ff692ea58e3fa86b7ccd2b01cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 057/100] fix: TrialNdx.save writes the format that
 TrialNdx.load expects from the extension

---
 hyperion/utils/trial_ndx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index bf96196..2c0833b 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -61,10 +61,10 @@ class TrialNdx(object):
           file_path: File to write the list.
         """
         file_base, file_ext = path.splitext(file_path)
-        if file_ext == '.txt' :
-            self.save_txt(file_path)
-        else:
+        if file_ext == '.h5' or file_ext == '.hdf5' :
             self.save_h5(file_path)
+        else:
+            self.save_txt(file_path)
 
             
     def save_h5(self, file_path):
-- 
2.43.0


From a3bf440e481be8c16a0bf3ac907b748e81e9a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 058/100] fix: TrialScores.filter with keep=False removes the
 segments from the segment list

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 3cf58e8..60fc267 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -247,7 +247,7 @@ class TrialScores(object):
 
         if not(keep):
             model_set=np.setdiff1d(self.model_set, model_set)
-            seg_set=np.setdiff1d(self.model_set, seg_set)
+            seg_set=np.setdiff1d(self.seg_set, seg_set)
 
         f_mod, mod_idx = ismember(model_set, self.model_set)
         f_seg, seg_idx = ismember(seg_set, self.seg_set)
-- 
2.43.0


From 78f0f8bce451946e6f352bf6022723e6d99fedf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 059/100] fix: TrialScores without scores (NameError)

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 60fc267..8e8e394 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -311,7 +311,7 @@ class TrialScores(object):
         assert(len(np.unique(self.model_set)) == len(self.model_set))
         assert(len(np.unique(self.seg_set)) == len(self.seg_set))
         if self.scores is None:
-            self.scores = np.zeros((len(model_set), len(seg_set)))
+            self.scores = np.zeros((len(self.model_set), len(self.seg_set)))
         else:
             assert(self.scores.shape ==
                    (len(self.model_set), len(self.seg_set)))
-- 
2.43.0


From 71f959e24f571609d64cbd0985eab2abbda6dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 060/100] fix: TrialScores.merge does not add values of trials
 without valid score to valid scores

---
 hyperion/utils/trial_scores.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 8e8e394..dd19d39 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -223,7 +223,9 @@ class TrialScores(object):
 
             model_set = new_model_set
             seg_set = new_seg_set
-            scores = scores_1 + scores_2
+            # a matrix contributes the valid scores only
+            scores = np.where(score_mask_1, scores_1, np.where(
+                score_mask_2, scores_2, scores_1 + scores_2))
             assert(not(np.any(np.logical_and(score_mask_1, score_mask_2))))
             score_mask= np.logical_or(score_mask_1, score_mask_2)
                             
-- 
2.43.0


From f09c3efb4123a900c6ed6ad473a0b98c3868bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:28 +0000
Subject: [PATCH 061/100] fix: DataReader does not read past the row range of
 the script file when a row offset is given

---
 hyperion/io/data_reader.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index dbe384c..61ba66c 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -126,11 +126,12 @@ class DataReader(object):
 
         row_offset = row_offset + read_range[0]
             
-        if num_rows == 0:
-            num_rows = read_range[1]
-        else:
-            if read_range[1] > 0:
-                assert read_range[1] >= num_rows
+        if read_range[1] > 0:
+            # rows left in the range of the scp file
+            rows_left = read_range[0] + read_range[1] - row_offset
+            assert rows_left >= max(num_rows, 1)
+            if num_rows == 0:
+                num_rows = rows_left
 
         return row_offset, num_rows
 
-- 
2.43.0


From 3965401fdfcd4e6f13b2bdbef2230bcc5092b117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:28 +0000
Subject: [PATCH 062/100] fix: DataReader squeezes data whose first item is
 missing in permissive mode

---
 hyperion/io/data_reader.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index 61ba66c..f87a838 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -81,8 +81,15 @@ class DataReader(object):
           2D or 3D numpy array.
         """
 
-        ndim = data[0].ndim
-        shape = data[0].shape
+        # the shape comes from the first matrix/vector that is not empty
+        ref = data[0]
+        for data_i in data:
+            if len(data_i) > 0:
+                ref = data_i
+                break
+
+        ndim = ref.ndim
+        shape = ref.shape
         for i in xrange(len(data)):
             if len(data[i]) == 0:
                 if permissive:
-- 
2.43.0


From aab965df2ef6954a6ddac5ed8495f482308c0522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:28 +0000
Subject: [PATCH 063/100] fix: SequentialArkScriptDataReader goes back to
 offset 0 of an open file

---
 hyperion/io/ark_data_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 3385d20..aa75a46 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -68,12 +68,13 @@ class SequentialArkDataReader(SequentialDataReader):
           file_path: File from which we want to read the next feature matrix.
           offset: Byte position where feature matrix is in the file.
         """
-        if self.f is None or file_path != self.cur_file:
+        is_open = self.f is not None and file_path == self.cur_file
+        if not is_open:
             self.close()
             self.cur_file = file_path
             self.f = open(file_path, 'rb')
 
-        if offset > 0:
+        if offset > 0 or is_open:
             self._seek(offset)
         
 
-- 
2.43.0


From d9904b1906b841e91fdf69e296bc56c716a4e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:28 +0000
Subject: [PATCH 064/100] fix: SequentialArkFileDataReader.read with lists of
 row offsets and numbers of rows (NameError)

---
 hyperion/io/ark_data_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index aa75a46..bcd17bb 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -235,8 +235,8 @@ class SequentialArkFileDataReader(SequentialArkDataReader):
                 self._eof = True
                 break
             
-            row_offset_i = row_offset[i] if row_offset_is_list else row_offset
-            num_rows_i = num_rows[i] if num_rows_is_list else num_rows
+            row_offset_i = row_offset[count] if row_offset_is_list else row_offset
+            num_rows_i = num_rows[count] if num_rows_is_list else num_rows
             
             binary = init_kaldi_input_stream(self.f)
             data_i = KaldiMatrix.read(
-- 
2.43.0


From a02b2548c53b9512fe306aa9f46b6dc4d5223439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:28 +0000
Subject: [PATCH 065/100] fix: SequentialArkScriptDataReader.read_shapes at the
 end of the list (IndexError)

---
 hyperion/io/ark_data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index bcd17bb..6c75674 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -348,7 +348,7 @@ class SequentialArkScriptDataReader(SequentialArkDataReader):
             shapes.append(shape_i)
             self.cur_item += 1
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=int)
             assert np.all(dims == dims[0])
             
-- 
2.43.0


From 7e7779e3ae6ed56b71de52d69cd30e1cd503c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:38 +0000
Subject: [PATCH 066/100] fix: SequentialH5ScriptDataReader.read_shapes at the
 end of the list (IndexError)

---
 hyperion/io/h5_data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/h5_data_reader.py b/hyperion/io/h5_data_reader.py
index 33f4936..82d15b0 100644
--- a/hyperion/io/h5_data_reader.py
+++ b/hyperion/io/h5_data_reader.py
@@ -356,7 +356,7 @@ class SequentialH5ScriptDataReader(SequentialH5DataReader):
             shapes.append(shape_i)
             self.cur_item += 1
             
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
-- 
2.43.0


From bdea6446b3d077ce057803532d268ad76899878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:38 +0000
Subject: [PATCH 067/100] fix: DataWriter writes to the current directory
 (FileNotFoundError)

---
 hyperion/io/data_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_writer.py b/hyperion/io/data_writer.py
index 272b0b8..ae3dcd1 100644
--- a/hyperion/io/data_writer.py
+++ b/hyperion/io/data_writer.py
@@ -37,12 +37,12 @@ class DataWriter(object):
         self.scp_sep = scp_sep
         
         archive_dir = os.path.dirname(archive_path)
-        if not os.path.exists(archive_dir):
+        if archive_dir and not os.path.exists(archive_dir):
             os.makedirs(archive_dir)
 
         if script_path is not None:
             script_dir = os.path.dirname(script_path)
-            if not os.path.exists(script_dir):
+            if script_dir and not os.path.exists(script_dir):
                 os.makedirs(script_dir)
             
 
-- 
2.43.0


From 94f2db97aea44953b0cf48e5b1a1bcc744f4bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:25 +0000
Subject: [PATCH 068/100] fix: RSpecifier with too many fields (NameError)

---
 hyperion/io/rw_specifiers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 814cae5..8e370a5 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -359,8 +359,8 @@ class RSpecifier(object):
                        once, is_sorted, called_sorted,
                        permissive, background)
         else:
-            raise ValueError('Two many fields (%d>2) in wspecifier %s'
-                             % (len(fields), wspecifier))
+            raise ValueError('Two many fields (%d>2) in rspecifier %s'
+                             % (len(fields), rspecifier))
         
         
 
-- 
2.43.0


From 248a46ad12148785f05d61681caa2a89dfe74856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 069/100] fix: len of FoldList (TypeError)

---
 hyperion/utils/fold_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 71b6750..bb2c4a4 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -59,7 +59,7 @@ class FoldList(object):
     def __len__(self):
         """Returns number of folds.
         """
-        return self.num_folds()
+        return self.num_folds
 
 
     @property
-- 
2.43.0


From 7465b8a332dea5cb176c20d2e0a26f729cf85392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 070/100] fix: FoldList.save (AttributeError)

---
 hyperion/utils/fold_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index bb2c4a4..10e1ace 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -150,8 +150,8 @@ class FoldList(object):
           sep: Separator between fold field and key field
         """
         with open(file_path, 'w') as f:
-            for f,k in zip(self.fold, self.key):
-                f.write('%s%s%s\n' % (f,sep,k))
+            for fold,k in zip(self.fold, self.key):
+                f.write('%s%s%s\n' % (fold,sep,k))
 
 
     @classmethod
-- 
2.43.0


From d7f2741e254de3a358e67388f07122369d416a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 071/100] fix: TrainValEvalList.get_part returns the keys of
 the part (ValueError)

---
 hyperion/utils/train_val_eval_list.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index eba6f55..009c483 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -106,8 +106,7 @@ class TrainValEvalList(object):
           part: Part number or name to return
 
         Returns:
-          train_idx: Indices of the elements used for training
-          test_idx: Indices of the elements used for test
+          Boolean indices of the elements of the part
         """
         if isinstance(part, string_types):
              self._make_part2num()
@@ -124,15 +123,13 @@ class TrainValEvalList(object):
         """Returns a part keys
 
         Args:
-          part: Part number to return
+          part: Part number or name to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements of the part
         """
 
-        train_idx, test_idx = self.get_part_idx(part)
-        return self.key[train_idx], self.key[test_idx]
+        return self.key[self.get_part_idx(part)]
 
 
     
@@ -140,11 +137,10 @@ class TrainValEvalList(object):
         """Returns a part keys
 
         Args:
-          part: Part number to return
+          part: Part number or name to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements of the part
         """
 
         return self.get_part(part)
-- 
2.43.0


From 5b48eb20412f04326e0ad294a8ed8143baf3697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 072/100] fix: TrainValEvalList saves and loads the names of
 the parts

---
 hyperion/utils/train_val_eval_list.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index 009c483..6c104c6 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -159,7 +159,7 @@ class TrainValEvalList(object):
                 if self.part_names is None:
                     f.write('%s%s%d\n' % (k,sep,p))
                 else:
-                    f.write('%s%s%d%s\n' % (k,sep,p,self.part_names[p]))
+                    f.write('%s%s%d%s%s\n' % (k,sep,p,sep,self.part_names[p]))
 
 
                     
@@ -182,9 +182,10 @@ class TrainValEvalList(object):
         if len(fields[0]) == 2:
             part_names = None
         else:
-            part_names = np.asarray([f[2] for f in fields], dtype=int)
-            _, part_idx = np.unique(part, return_index=True)
-            part_names = part_names[part_idx]
+            part_names = np.asarray([f[2] for f in fields])
+            u_part, part_idx = np.unique(part, return_index=True)
+            # elements that are masked out have part -1
+            part_names = part_names[part_idx[u_part>=0]]
             
         return cls(key, part, part_names=part_names)
 
-- 
2.43.0


From d7ca319e1312f041cd354e81d47b9d9f71931a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:57 +0000
Subject: [PATCH 073/100] fix: folds and parts with a class that is masked out
 completely (ValueError)

---
 hyperion/utils/fold_list.py           | 2 ++
 hyperion/utils/train_val_eval_list.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 10e1ace..ab3eab0 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -213,6 +213,8 @@ class FoldList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue # all the elements of the class are masked out
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index 6c104c6..d293714 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -243,6 +243,8 @@ class TrainValEvalList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue # all the elements of the class are masked out
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
-- 
2.43.0


From e022113714d74b697a7abb2adaf64c91360faadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:54 +0000
Subject: [PATCH 074/100] fix: tol_num_frames of FrameSelector.filter_args was
 ignored

---
 hyperion/feats/frame_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 24f3cae..77cea7f 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -66,7 +66,7 @@ class FrameSelector(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('tol_num_frames')
+        valid_args = ('tol_num_frames',)
 
         d = dict((k, kwargs[p+k])
                  for k in valid_args if p+k in kwargs)
-- 
2.43.0


From a2d64cd540b33a79d95f357014db752b01ae1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:54 +0000
Subject: [PATCH 075/100] fix: EnergyVAD with context frames (NameError)

---
 hyperion/feats/energy_vad.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 803541a..a3182ca 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -115,9 +115,12 @@ class EnergyVAD(object):
         if context == 0:
             return vad
  
+        if len(vad) < 2*context + 1:
+            context = (len(vad) - 1)//2
+            if context == 0:
+                return vad
+
         window = 2*context + 1
-        if len(vad0) < window:
-            context = int(len(vad0)-1/2)
 
         h = np.ones((window,), dtype='float32')
         num_count = np.convolve(vad.astype('float32'), h, 'same')
-- 
2.43.0


From 16b754450c4bc6fb03c6075bc952b020eed7a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:54 +0000
Subject: [PATCH 076/100] fix: EnergyVAD.add_argparse_args (NameError)

---
 hyperion/feats/energy_vad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index a3182ca..f7ac654 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -13,6 +13,7 @@ import numpy as np
 from scipy.signal import lfilter
 
 from ..hyp_defs import float_cpu
+from ..utils.misc import str2bool
 from .stft import st_logE
 
 
-- 
2.43.0


From 739b9da5ff0bd51902e7888a3c35e97a5cf26de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 077/100] fix: EnergyVAD.compute returns the log-energy with
 return_loge

---
 hyperion/feats/energy_vad.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index f7ac654..a6ba64b 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -113,16 +113,29 @@ class EnergyVAD(object):
         vad = (logE > e_thr)
 
         context = self.vad_frames_context
-        if context == 0:
-            return vad
- 
         if len(vad) < 2*context + 1:
             context = (len(vad) - 1)//2
-            if context == 0:
-                return vad
 
-        window = 2*context + 1
+        if context > 0:
+            vad = self._smooth_vad(vad, context)
+
+        if return_loge:
+            return vad, logE
+        return vad
+
+
+
+    def _smooth_vad(self, vad, context):
+        """Decides on the proportion of frames over the threshold in the window.
 
+           Args:
+             vad:     Binary vector of frames over the threshold.
+             context: Number of frames of context on each side of the central frame.
+
+           Returns:
+             Binary VAD
+        """
+        window = 2*context + 1
         h = np.ones((window,), dtype='float32')
         num_count = np.convolve(vad.astype('float32'), h, 'same')
         den_count_boundary = np.arange(context+1, window, dtype='float32')
@@ -130,8 +143,7 @@ class EnergyVAD(object):
         num_count[-context:] /= den_count_boundary[::-1]
         num_count[context:-context] /= window
         
-        vad = num_count > self.vad_proportion_threshold
-        return vad
+        return num_count > self.vad_proportion_threshold
         
     
 
-- 
2.43.0


From bdf7749a70051901709cdf467992c019d6145cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 078/100] fix: sign of the log-energy in MFCC from the fft

---
 hyperion/feats/mfcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 2c74474..65134b8 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -225,7 +225,7 @@ class MFCC(object):
             X = x
             F = np.abs(X)
             if self.use_energy:
-                logE = F[:,0]
+                logE = np.real(X[:,0])
         elif self._input_step == MFCCSteps.FFT_MAG:
             F = x
             if self.use_energy:
-- 
2.43.0


From 103ddd2091175ea8cf780a0c91984e9977b21eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:39 +0000
Subject: [PATCH 079/100] fix: MFCC from the log-filter-bank without energy
 (UnboundLocalError)

---
 hyperion/feats/mfcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 65134b8..55c9cd1 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -238,6 +238,8 @@ class MFCC(object):
             if self.use_energy:
                 B = x[:,1:]
                 logE = x[:,0]
+            else:
+                B = x
 
         if self._input_step == MFCCSteps.WAVE:
             if self.snip_edges:
-- 
2.43.0


From f75bed93b0a04521f2ca785c02bbcacc3d16425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 080/100] fix: log determinant of the predictive precision in
 LinearGBE

---
 hyperion/classifiers/linear_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index cfd642a..8ef2652 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -115,7 +115,7 @@ class LinearGBE(HypModel):
 
         # 0.5*log|L| = 0.5*log|K| + 0.5*d*log(c r) 
         logK = logdet_pdmat(K)
-        logL_div_2 = 0.5*logK + 0.5*self.x_dim*r 
+        logL_div_2 = 0.5*logK + 0.5*self.x_dim*np.log(c*r)
         
         # delta2_0 = (x-mu)^T W (x-mu)
         delta2_0 = np.sum(np.dot(x, self.W)*x, axis=1, keepdims=True) - 2*(
-- 
2.43.0


From c7c463d97753ed6a0d8061fbe0c22efa0eb513f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 081/100] fix: integer split of mean and uncertainty in
 LinearGBEUP

---
 hyperion/classifiers/linear_gbe_up.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 5b5d005..1e23d7d 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -42,8 +42,8 @@ class LinearGBEUP(LinearGBE):
     
 
     def eval_linear(self, x):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         try:
             S = invert_pdmat(self.W, return_inv=True)[-1]
         except:
@@ -103,8 +103,8 @@ class LinearGBEUP(LinearGBE):
 
     
     def fit(self, x, class_ids=None, p_theta=None, sample_weight=None):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         x = x_m
         assert class_ids is not None or p_theta is not None
 
-- 
2.43.0


From 40f567eb878d7cbd9a964bbcbe405edd23584e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 082/100] fix: covariance floor above the mean uncertainty in
 LinearGBEUP

---
 hyperion/classifiers/linear_gbe_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 1e23d7d..380dd66 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -173,7 +173,7 @@ class LinearGBEUP(LinearGBE):
                 S /= (nu0+np.sum(N))
 
             x_s_mean=np.diag(np.mean(x_s, axis=0))
-            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1)
+            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1, F_is_chol=True)
             S -= x_s_mean
             
             self.W = invert_pdmat(S, return_inv=True)[-1]
-- 
2.43.0


From 711a3983821ac30f01b59a5c708bf930aa7da32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 083/100] fix: the intercept of the fitted logistic regression
 already includes the bias scaling

---
 hyperion/classifiers/logistic_regression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 3283492..8e89e64 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -99,7 +99,7 @@ class LogisticRegression(HypModel):
             self.lr.coef_ = A.T
 
         if b is not None:
-            self.lr.intercept_ = b/self.bias_scaling
+            self.lr.intercept_ = b
 
 
     @property
@@ -108,7 +108,7 @@ class LogisticRegression(HypModel):
 
     @property
     def b(self):
-        return self.lr.intercept_*self.bias_scaling
+        return self.lr.intercept_
 
 
     def get_config(self):
@@ -159,10 +159,10 @@ class LogisticRegression(HypModel):
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
                 priors = self.priors[1]
-            self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)/self.bias_scaling
+            self.lr.intercept_ -= np.log(self.priors)
 
 
             
-- 
2.43.0


From fb42f59c7bd38c66fc2aaf46e2963e8ed247f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 084/100] fix: LogisticRegression.fit does not overwrite the
 caller's sample weights

---
 hyperion/classifiers/logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 8e89e64..ea41e97 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -151,7 +151,7 @@ class LogisticRegression(HypModel):
         if sample_weight is None:
             sample_weight = class_weights[class_ids]
         else:
-            sample_weight *= class_weights[class_ids]
+            sample_weight = sample_weight*class_weights[class_ids]
             
         self.lr.fit(x, class_ids, sample_weight=sample_weight)
 
-- 
2.43.0


From 43042317eedb61cbeca5bbc1518057394c47e2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 085/100] fix: class priors given as a dictionary or left out
 in LogisticRegression

---
 hyperion/classifiers/logistic_regression.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index ea41e97..37280c9 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -111,6 +111,12 @@ class LogisticRegression(HypModel):
         return self.lr.intercept_
 
 
+    def _get_priors(self, num_classes):
+        if self.priors is None:
+            return 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
+        return np.array([self.priors[i] for i in xrange(num_classes)], dtype=float_cpu())
+
+
     def get_config(self):
         config = { 'use_bias': self.use_bias,
                    'bias_scaling': self.bias_scaling,
@@ -127,9 +133,9 @@ class LogisticRegression(HypModel):
         y = np.dot(x, self.A) + self.b
 
         if eval_type == 'log-post':
-            y = np.log(softmax(y + np.log(self.priors), axis=1)+1e-10)
+            y = np.log(softmax(y + np.log(self._get_priors(y.shape[1])), axis=1)+1e-10)
         if eval_type == 'post':
-            y = softmax(y + np.log(self.priors))
+            y = softmax(y + np.log(self._get_priors(y.shape[1])))
         
         return y
         
@@ -142,10 +148,7 @@ class LogisticRegression(HypModel):
         counts = np.bincount(class_ids)
         assert num_classes == len(counts)
         
-        if self.priors is None:
-            priors = 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
-        else:
-            priors = [self.priors[i] for i in xrange(num_classes)]
+        priors = self._get_priors(num_classes)
         class_weights = priors/counts
         
         if sample_weight is None:
@@ -158,11 +161,11 @@ class LogisticRegression(HypModel):
         if self.multi_class == 'ovr':
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
-                priors = self.priors[1]
+                priors = priors[1]
             self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)
+            self.lr.intercept_ -= np.log(priors)
 
 
             
-- 
2.43.0


From cd8fde3d60160b7c843239c81c0c681377ea5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 086/100] fix: class labels of the priors after loading a
 LogisticRegression

---
 hyperion/classifiers/logistic_regression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 37280c9..3985437 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -179,6 +179,9 @@ class LogisticRegression(HypModel):
     def load_params(cls, f, config):
         param_list = ['A', 'b']
         params = cls._load_params_to_dict(f, config['name'], param_list)
+        if isinstance(config.get('priors'), dict):
+            # json turns the class labels into strings
+            config['priors'] = dict((int(k), v) for k,v in config['priors'].items())
         kwargs = dict(list(config.items()) + list(params.items()))
         return cls(**kwargs)
 
-- 
2.43.0


From fb20a4516fa5e6b5daceb768ef554134f51ee328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 087/100] fix: pass regularization and seed in
 BinaryLogisticRegression

---
 hyperion/classifiers/binary_logistic_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 2eb6045..b3735f7 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -21,11 +21,11 @@ class BinaryLogisticRegression(LogisticRegression):
         
         priors = {0:1-prior, 1:prior}
         super(BinaryLogisticRegression, self).__init__(
-            A=A, b=b, penalty=penalty, labmda_reg=lambda_reg,
+            A=A, b=b, penalty=penalty, lambda_reg=lambda_reg,
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-            multi_class='ovr', lr_seed=1024, **kwargs)
+            multi_class='ovr', lr_seed=lr_seed, **kwargs)
 
 
 
-- 
2.43.0


From 0952be87e930e0677040de5738af8654899cb6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 088/100] fix: the intercept of the fitted SVM already includes
 the bias scaling

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 06de3d4..ac67bf9 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -60,7 +60,7 @@ class LinearSVMC(HypModel):
 
     @property
     def b(self):
-        return self.svm.intercept_*self.bias_scaling
+        return self.svm.intercept_
 
 
     def get_config(self):
-- 
2.43.0


From 97460266dd2d050d550fcd08f5d749b2bb25bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 089/100] fix: sign of the binary log posterior in LinearSVMC

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index ac67bf9..5f65d05 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -77,7 +77,7 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return np.log(1+np.exp(-s))
+            return -np.log(1+np.exp(-s))
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
-- 
2.43.0


From d5d1b2e3a306a749b247945b4d5f8827767f78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 090/100] fix: rescale the precision of the prior in
 QScoringHomoGBE

---
 hyperion/classifiers/q_scoring_homo_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index 304127f..dea7e77 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -64,7 +64,7 @@ class QScoringHomoGBE(HypModel):
             self.prior = QScoringHomoGBE.load(self.prior)
         num_classes = self.prior.mu.shape[0]
         if self.prior_N is not None:
-            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.W-1)
+            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.prior.W-1)
             self.prior.N = self.prior_N*np.ones((num_classes,), dtype=float_cpu())
 
 
-- 
2.43.0


From aeaf81b23c86e532297633974da3e715ce047ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 091/100] fix: AHC.compute_flat_clusters computes the clusters
 after each merge

---
 hyperion/clustering/ahc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index e0fe037..5d7a165 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -87,7 +87,7 @@ class AHC(HypModel):
 
     
 
-    def compute_flat_clusters():
+    def compute_flat_clusters(self):
         N = self.Z.shape[0]+1
         flat_clusters = np.zeros((N,N), dtype=int)
         flat_clusters[0] = np.arange(N, dtype=int)
@@ -98,7 +98,7 @@ class AHC(HypModel):
             flat_clusters[i+1][segm_idx] = N + i
 
         for i in xrange(1,N):
-            _, flat_clusters[i] = np.unique(flat_clusters, return_inverse=True)
+            _, flat_clusters[i] = np.unique(flat_clusters[i], return_inverse=True)
         self.flat_clusters = flat_clusters
 
 
-- 
2.43.0


From ee3d7d5e98cd2e2ac883ae2190f4ec04e9c5a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 092/100] fix: VectorReader.filter_args keeps the list
 separator

---
 hyperion/helpers/vector_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_reader.py b/hyperion/helpers/vector_reader.py
index e19b913..7f9985a 100644
--- a/hyperion/helpers/vector_reader.py
+++ b/hyperion/helpers/vector_reader.py
@@ -45,7 +45,7 @@ class VectorReader(object):
         else:
             p = prefix + '_'
             
-        valid_args = ('vlist_sep')
+        valid_args = ('vlist_sep',)
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 691769627abe7a7d54c29a296dda6cba884bc9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 093/100] fix: split the trial list in the trial data readers

---
 hyperion/helpers/classif_trial_data_reader.py    | 2 +-
 hyperion/helpers/multi_test_trial_data_reader.py | 2 +-
 hyperion/helpers/tracking_data_reader.py         | 2 +-
 hyperion/helpers/trial_data_reader.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/classif_trial_data_reader.py b/hyperion/helpers/classif_trial_data_reader.py
index 44e9b3b..b0c32a1 100644
--- a/hyperion/helpers/classif_trial_data_reader.py
+++ b/hyperion/helpers/classif_trial_data_reader.py
@@ -41,7 +41,7 @@ class ClassifTrialDataReader(object):
         ndx = TrialNdx(model_set, seg_set)
         logging.debug(num_seg_parts)
         if num_seg_parts > 1:
-            ndx = TrialNdx.split(1, 1, seg_idx, num_seg_parts)
+            ndx = ndx.split(1, 1, seg_idx, num_seg_parts)
 
         self.ndx = ndx
 
diff --git a/hyperion/helpers/multi_test_trial_data_reader.py b/hyperion/helpers/multi_test_trial_data_reader.py
index 71ac5a0..b8c7b3e 100644
--- a/hyperion/helpers/multi_test_trial_data_reader.py
+++ b/hyperion/helpers/multi_test_trial_data_reader.py
@@ -45,7 +45,7 @@ class MultiTestTrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             subseg2orig =subseg2orig.filter_info(ndx.seg_set)
 
diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 47db46f..620027e 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -38,7 +38,7 @@ class TrackingDataReader(object):
 
         segments = ExtSegmentList.load(segments_file)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             segments = segments.filter(ndx.seg_set)
         
diff --git a/hyperion/helpers/trial_data_reader.py b/hyperion/helpers/trial_data_reader.py
index 1fdbeea..9ce9dd8 100644
--- a/hyperion/helpers/trial_data_reader.py
+++ b/hyperion/helpers/trial_data_reader.py
@@ -43,7 +43,7 @@ class TrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
 
         self.enroll = enroll
-- 
2.43.0


From 83f30b5f150d1c6ff0e31d3d3a755a724f1ba1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 094/100] fix: cohort segments of the evaluation sets are the
 keys of the test list

---
 hyperion/utils/trial_ndx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index 2c0833b..e289552 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -227,12 +227,12 @@ class TrialNdx(object):
         if eval_set == 'enroll-test':
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'enroll-coh':
-            ndx = TrialNdx(ndx.model_set, test.file_path)
+            ndx = TrialNdx(ndx.model_set, test.key)
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'coh-test':
             ndx = TrialNdx(enroll.key, ndx.seg_set)
         if eval_set == 'coh-coh':
-            ndx = TrialNdx(enroll.key, test.file_path)
+            ndx = TrialNdx(enroll.key, test.key)
         return ndx, enroll
 
     
-- 
2.43.0


From cc16c3da08d2a8505c4447b1c2e3e3840f260e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 095/100] fix: room for all the parts when VectorClassReader
 splits many classes at random

---
 hyperion/helpers/vector_class_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 4c29374..9e024ac 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -159,7 +159,7 @@ class VectorClassReader(object):
         num_classes = np.max(class_ids)+1
 
         shift = max_spc-overlap
-        new_indx = np.zeros(max_spc*int(np.max(num_spc)*num_classes/shift+1), dtype=int)
+        new_indx = np.zeros(max_spc*num_classes*int(np.ceil(np.max(num_spc)/shift)+1), dtype=int)
         new_class_ids = np.zeros_like(new_indx)
         
         j = 0
-- 
2.43.0


From d0948be86d20fb9a36070e2e9a114d4ebf44c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 096/100] fix: SequenceReader reads the sequences of the
 minimum length that it counts

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 99dae7d..8252921 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -193,7 +193,7 @@ class SequenceReader(object):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
-- 
2.43.0


From 5df94d247dcb16ebaa97a2d1f9a74a6f5216855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 097/100] fix: SequencePostReader reads the sequences of the
 minimum length that it counts

---
 hyperion/helpers/sequence_post_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index b8b3425..e686487 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -101,7 +101,7 @@ class SequencePostReader(SequenceReader):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
-- 
2.43.0


From 84bc2e8e0fd7904ee388470366e401ca3661c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 098/100] fix: training options of PLDAFactory

---
 hyperion/helpers/plda_factory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 2713f77..3d05efe 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -65,9 +65,10 @@ class PLDAFactory(object):
         neg_args2 = ('fullcov_W', 'update_mu', 'update_V', 'update_U',
                       'update_B', 'update_W', 'update_D')
 
-        for a,b in zip(ne_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+        for a,b in zip(neg_args1, neg_args2):
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
@@ -95,7 +96,7 @@ class PLDAFactory(object):
                             help='num. of eigenchannels')
 
         parser.add_argument(p1+'diag-W', dest=(p2+'diag_W'),
-                            default=False, action='store_false',
+                            default=False, action='store_true',
                             help='use diagonal covariance W')
         parser.add_argument(p1+'no-update-mu', dest=(p2+'no_update_mu'),
                             default=False, action='store_true',
-- 
2.43.0


From 758d643a2aa3ecf0b3852201154454f45c9cec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:13 +0000
Subject: [PATCH 099/100] fix: fill the batches of subsequences when few
 sequences are left

---
 hyperion/helpers/sequence_post_reader.py | 4 ++--
 hyperion/helpers/sequence_reader.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index e686487..c8175be 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -124,7 +124,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.batch_size*self.num_seqs):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -210,7 +210,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.batch_size*self.num_seqs):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 8252921..5873d12 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -210,7 +210,7 @@ class SequenceReader(object):
         seq_length = self.seq_length
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.batch_size*self.num_seqs):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -274,7 +274,7 @@ class SequenceReader(object):
         
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.batch_size*self.num_seqs):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
-- 
2.43.0


From 631ca30e681ece7d279122e7a3e174c7ec48c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:13 +0000
Subject: [PATCH 100/100] fix: class splitting options of VectorClassReader

---
 hyperion/helpers/vector_class_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 9e024ac..b4a7e61 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -243,7 +243,7 @@ class VectorClassReader(object):
                             choices=['random', 'first', 'last'],
                             help=('vector pruning method when spc > max-spc'))
         parser.add_argument(p1+'csplit-min-spc', dest=(p2+'csplit_min_spc'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum samples per class when doing class spliting'))
         parser.add_argument(p1+'csplit-max-spc', dest=(p2+'csplit_max_spc'), type=int,
                             default=None,
@@ -252,9 +252,9 @@ class VectorClassReader(object):
 
         parser.add_argument(p1+'csplit-mode', dest=(p2+'csplit_mode'), 
                             default='random', type=str.lower,
-                            choices = ['sequential', 'random', 'random_1subclass'],
+                            choices = ['sequential', 'random', 'random_1part'],
                             help=('class splitting mode'))
-        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
+        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=int,
                             default=0, help=('overlap between subclasses'))
         parser.add_argument(p1+'no-csplit-once', dest=(p2+'csplit_once'), 
                             default=True, action='store_false',
-- 
2.43.0

