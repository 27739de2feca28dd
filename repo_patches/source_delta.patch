From 294a279165afe9472de5e3ee082576aa45a31db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 01/81] fix: losses no longer multiply the caller's
 case_weights array in place

---
 regreg/smooth/binary.py | 14 +++++++-------
 regreg/smooth/cox.py    |  4 ++--
 regreg/smooth/glm.py    | 12 ++++++------
 regreg/smooth/mglm.py   |  2 +-
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 8d0a9b3..e3a826d 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -92,7 +92,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -169,7 +169,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         if np.max(x) > 1e2:
             overflow = True
@@ -350,7 +350,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -417,7 +417,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -590,7 +590,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -660,7 +660,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -826,7 +826,7 @@ class huber_svm(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         huber_arg = (2 * self.successes - 1) * param # first encode binary as \pm 1
diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f977389..f9d11f7 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -97,7 +97,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         censoring = self.censoring
 
@@ -170,7 +170,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         eta = natural_param # shorthand
         eta = self.apply_offset(eta)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index e2acad2..55d7d02 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -913,7 +913,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         natural_param = self.apply_offset(natural_param)
         resid = natural_param - self.response 
@@ -957,7 +957,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
         return self.scale(np.ones_like(natural_param) * cw)
 
     def get_data(self):
@@ -1104,7 +1104,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -1151,7 +1151,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         return self.scale(cw * np.exp(x))
             
@@ -1289,7 +1289,7 @@ class huber_loss(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         resid = param - self.response 
@@ -1481,7 +1481,7 @@ class stacked_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         linpred = natural_param # shorthand
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index a2e738a..1a78de6 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -345,7 +345,7 @@ class stacked_common_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
-- 
2.43.0


From 242f2beba490aec429ce1a5598128cf9159b6e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 02/81] fix: Huber SVM loss value agrees with its gradient when
 smoothing_parameter is not 1

---
 regreg/smooth/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index e3a826d..370fdb8 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -926,5 +926,5 @@ def _huber_svm(z, smoothing_parameter):
     eps = smoothing_parameter
     arg = (1 - z) / eps # function of (2 * y - 1) * eta when y is binary
     proj_arg = (0 < arg) * (arg < 1) * arg + (arg >= 1) 
-    return arg * proj_arg - eps * proj_arg**2 / 2, -proj_arg
+    return (1 - z) * proj_arg - eps * proj_arg**2 / 2, -proj_arg
 
-- 
2.43.0


From dd2c4b8e98c6914474a13a0f22f3b17891ca16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 03/81] fix: probit, cloglog, logistic and Poisson losses apply
 the offset in value, gradient and Hessian

---
 regreg/smooth/binary.py | 10 +++++-----
 regreg/smooth/glm.py    |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 370fdb8..b870252 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -163,7 +163,7 @@ class logistic_loglike(smooth_atom):
             evaluated at `natural_param`.
         """
 
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -352,7 +352,7 @@ class probit_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
 
         prob = normal_dbn.cdf(x)
@@ -411,7 +411,7 @@ class probit_loglike(smooth_atom):
             evaluated at `natural_param`.
         """
 
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -592,7 +592,7 @@ class cloglog_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
         cutoff = 5
         x_ = np.clip(x, -cutoff, cutoff) # to prevent overflow
@@ -654,7 +654,7 @@ class cloglog_loglike(smooth_atom):
             evaluated at `natural_param`.
         """
 
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 55d7d02..bb53db7 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1145,7 +1145,7 @@ class poisson_loglike(smooth_atom):
             A 1D-array representing the diagonal of the Hessian
             evaluated at `natural_param`.
         """
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
-- 
2.43.0


From 1d4498ed9803c8186d84179cac5e33a56307bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 04/81] fix: stacked and multinomial saturated losses use their
 case weights

---
 regreg/smooth/glm.py  | 6 +++---
 regreg/smooth/mglm.py | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index bb53db7..4f62561 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1488,17 +1488,17 @@ class stacked_loglike(smooth_atom):
         linpred = self.apply_offset(linpred)
         if mode == 'grad':
             for d, slice in enumerate(self._slices):
-                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
             return self.scale(self._gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
-                value += self._losses[d].smooth_objective(linpred[slice], 'func')
+                value += self._losses[d].smooth_objective(linpred[slice], 'func', case_weights=cw[slice])
             return self.scale(value)
         elif mode == 'both':
             value = 0
             for d, slice in enumerate(self._slices):
-                f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
+                f, g = self._losses[d].smooth_objective(linpred[slice], 'both', case_weights=cw[slice])
                 self._gradient[slice] = g
                 value += f
             return self.scale(value), self.scale(self._gradient)
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 1a78de6..cf16c28 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -830,6 +830,8 @@ class multinomial_loglike(smooth_atom):
             cw = np.ones(natural_param.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         if mode == 'both':
             ratio = ((self.trials/np.sum(exp_eta, axis=1)) * exp_eta.T).T
@@ -974,6 +976,8 @@ class multinomial_baseline_loglike(smooth_atom):
             cw = np.ones(eta.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         #TODO: Using transposes to scale the rows of a 2d array - should we use an affine_transform to do this?
         #JT: should be able to do this with np.newaxis
-- 
2.43.0


From 81d5f8d9d39526e9e6731d28e0b8f9a799537a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 05/81] fix: coef and offset scale cox_loglike.hessian_mult and
 huberized_svm

---
 regreg/smooth/cox.py    | 30 ++++++++++++++++--------------
 regreg/smooth/losses.py | 10 +++++++---
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f9d11f7..a61db6d 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -178,20 +178,22 @@ class cox_loglike(smooth_atom):
 
         H = np.zeros(eta.shape, float)
 
-        return cox_hessian(H,
-                           eta,
-                           right_vector,
-                           self._exp_buffer,
-                           self._exp_accum,
-                           self._expZ_accum,
-                           self._outer_1st,
-                           self._outer_2nd,
-                           cw,
-                           censoring,
-                           self._ordering,
-                           self._rankmin,
-                           self._rankmax,
-                           eta.shape[0])
+        H = cox_hessian(H,
+                        eta,
+                        right_vector,
+                        self._exp_buffer,
+                        self._exp_accum,
+                        self._expZ_accum,
+                        self._outer_1st,
+                        self._outer_2nd,
+                        cw,
+                        censoring,
+                        self._ordering,
+                        self._rankmin,
+                        self._rankmax,
+                        eta.shape[0])
+
+        return self.scale(H)
 
     def get_data(self):
         return np.array([self.event_times, self.censoring]).T
diff --git a/regreg/smooth/losses.py b/regreg/smooth/losses.py
index 0551b70..eb4a4a5 100644
--- a/regreg/smooth/losses.py
+++ b/regreg/smooth/losses.py
@@ -65,7 +65,11 @@ class huberized_svm(smooth_atom):
         else returns both.
         """
         
-        return self.smoothed_atom.smooth_objective(beta,
-                                                   mode=mode,
-                                                   check_feasibility=check_feasibility)
+        beta = self.apply_offset(beta)
+        value = self.smoothed_atom.smooth_objective(beta,
+                                                    mode=mode,
+                                                    check_feasibility=check_feasibility)
+        if mode == 'both':
+            return self.scale(value[0]), self.scale(value[1])
+        return self.scale(value)
 
-- 
2.43.0


From 143685cf0daa90706ddf4983d1ff4674c902f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 06/81] fix: Cox and stacked losses return a fresh gradient
 instead of their internal buffer

---
 regreg/smooth/cox.py  | 4 ++--
 regreg/smooth/glm.py  | 4 ++--
 regreg/smooth/mglm.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index a61db6d..cfe12bc 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -127,9 +127,9 @@ class cox_loglike(smooth_atom):
                               eta.shape[0])
 
         if mode == 'both':
-            return self.scale(F), self.scale(G)
+            return self.scale(F), self.scale(G, copy=True)
         elif mode == 'grad':
-            return self.scale(G)
+            return self.scale(G, copy=True)
         elif mode == 'func':
             return self.scale(F)
         else:
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 4f62561..335574f 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1489,7 +1489,7 @@ class stacked_loglike(smooth_atom):
         if mode == 'grad':
             for d, slice in enumerate(self._slices):
                 self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
-            return self.scale(self._gradient)
+            return self.scale(self._gradient, copy=True)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
@@ -1501,7 +1501,7 @@ class stacked_loglike(smooth_atom):
                 f, g = self._losses[d].smooth_objective(linpred[slice], 'both', case_weights=cw[slice])
                 self._gradient[slice] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(self._gradient, copy=True)
         else:
             raise ValueError("mode incorrectly specified")
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index cf16c28..b91b50d 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -355,7 +355,7 @@ class stacked_common_loglike(smooth_atom):
                 self._gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
                                                                        'grad', 
                                                                        case_weights=cw) 
-            return self.scale(self._gradient)
+            return self.scale(self._gradient, copy=True)
         elif mode == 'func':
             value = 0
             for i in range(len(self._losses)):
@@ -371,7 +371,7 @@ class stacked_common_loglike(smooth_atom):
                                                         case_weights=cw)
                 self._gradient[:,i] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(self._gradient, copy=True)
         else:
             raise ValueError("mode incorrectly specified")
 
-- 
2.43.0


From b99688768466f319ed46297c223185238c97abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 07/81] fix: affine_smooth rejects unknown modes and forwards
 check_feasibility

---
 regreg/smooth/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 1cb06d6..6db314c 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -234,7 +234,7 @@ class affine_smooth(smooth_atom):
 
         eta = self.affine_transform.affine_map(arg)
         if mode == 'both':
-            v, g = self.atom.smooth_objective(eta, mode='both')
+            v, g = self.atom.smooth_objective(eta, mode='both', check_feasibility=check_feasibility)
             if self.store_grad:
                 self.grad = g
             g = self.affine_transform.adjoint_map(g)
@@ -242,7 +242,7 @@ class affine_smooth(smooth_atom):
                 g = g.reshape(self.shape)
             return v, g
         elif mode == 'grad':
-            g = self.atom.smooth_objective(eta, mode='grad')
+            g = self.atom.smooth_objective(eta, mode='grad', check_feasibility=check_feasibility)
             if self.store_grad:
                 self.grad = g
             g = self.affine_transform.adjoint_map(g)
@@ -250,8 +250,10 @@ class affine_smooth(smooth_atom):
                 g = g.reshape(self.shape)
             return g 
         elif mode == 'func':
-            v = self.atom.smooth_objective(eta, mode='func')
+            v = self.atom.smooth_objective(eta, mode='func', check_feasibility=check_feasibility)
             return v 
+        else:
+            raise ValueError("mode incorrectly specified")
 
     @property
     def dual(self):
-- 
2.43.0


From 9410176eb7879b7a994e9e2daa1c63ce49ed48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 08/81] fix: glm.hessian applies the offset and coef of the
 model

---
 regreg/smooth/glm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 335574f..c327791 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -225,7 +225,7 @@ class glm(smooth_atom):
 
         """
 
-        linpred = self.linear_predictor(beta)
+        linpred = self.linear_predictor(self.apply_offset(beta))
         X = self.data[0]
         if self._is_transform:
             raise ValueError('refusing to form Hessian for arbitrary affine_transform, use an ndarray or scipy.sparse')
@@ -243,9 +243,9 @@ class glm(smooth_atom):
                                             case_weights=self.case_weights)
             right_mult = W[:,None] * X
         if not sparse.issparse(X): # assuming it is an ndarray
-            return X.T.dot(right_mult)
+            return self.scale(X.T.dot(right_mult))
         else:
-            return X.T * right_mult
+            return self.scale(X.T * right_mult)
 
     def latexify(self, var=None, idx=''):
         return self.affine_atom.latexify(var=var, idx=idx)
-- 
2.43.0


From 8ca916bb5c23c09e7a5bc16301010ce10a3fa3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 09/81] fix: glm.set_data refreshes the affine transform used
 by smooth_objective

---
 regreg/smooth/glm.py  | 2 +-
 regreg/smooth/mglm.py | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index c327791..05bf1c8 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -74,7 +74,6 @@ class glm(smooth_atom):
 
         self.saturated_loss = loss
         self.data = X, Y
-        self.affine_atom = affine_smooth(loss, X)
         if case_weights is None:
             case_weights = np.ones(X.shape[0])
         self.case_weights = case_weights
@@ -141,6 +140,7 @@ class glm(smooth_atom):
         X, Y = data
         self._transform = astransform(X)
         self._X = X
+        self.affine_atom = affine_smooth(self.saturated_loss, X)
         self._is_transform = id(self._X) == id(self._transform) # i.e. astransform was a nullop
         self.saturated_loss.data = Y
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index b91b50d..5ff4cf8 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -71,7 +71,6 @@ class mglm(glm):
 
         self.saturated_loss = loss
         self.data = X, loss.data
-        self.affine_atom = affine_smooth(loss, X)
         if case_weights is None:
             case_weights = np.ones(X.shape[0])
         self.case_weights = case_weights
-- 
2.43.0


From 6fbf3aa447b3020d232419fa0dd21fb6adf3f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 10/81] fix: get_dual of concrete atoms and cones calls the
 base method, not the property object

---
 regreg/atoms/block_norms.py        | 18 +++++++++---------
 regreg/atoms/cones.py              | 20 ++++++++++----------
 regreg/atoms/group_lasso.py        | 12 ++++++------
 regreg/atoms/linear_constraints.py |  4 ++--
 regreg/atoms/seminorms.py          | 14 +++++++-------
 regreg/atoms/svd_norms.py          | 14 +++++++-------
 6 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 7abb416..13dc693 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -161,7 +161,7 @@ class block_sum(seminorms.seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
 
 @objective_doc_templater()
@@ -228,7 +228,7 @@ class block_max(block_sum):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -346,7 +346,7 @@ class linf_l2(block_max):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
 
 @objective_doc_templater()
@@ -428,11 +428,11 @@ class linf_linf(linf_l2):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -523,11 +523,11 @@ class l1_l2(block_sum):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -628,11 +628,11 @@ class l1_l1(l1_l2):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 1beb2f9..09b0ce5 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -341,7 +341,7 @@ class nonnegative(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class nonpositive(nonnegative):
@@ -378,7 +378,7 @@ class nonpositive(nonnegative):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class zero(cone):
@@ -409,7 +409,7 @@ class zero(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class zero_constraint(cone):
@@ -442,7 +442,7 @@ class zero_constraint(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l2_epigraph(cone):
@@ -485,7 +485,7 @@ class l2_epigraph(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l2_epigraph_polar(cone):
@@ -529,7 +529,7 @@ class l2_epigraph_polar(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l1_epigraph(cone):
@@ -564,7 +564,7 @@ class l1_epigraph(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l1_epigraph_polar(cone):
@@ -601,7 +601,7 @@ class l1_epigraph_polar(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class linf_epigraph(cone):
@@ -637,7 +637,7 @@ class linf_epigraph(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class linf_epigraph_polar(cone):
@@ -674,7 +674,7 @@ class linf_epigraph_polar(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 conjugate_cone_pairs = {}
 for n1, n2 in [(nonnegative,nonpositive),
diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 77ff69b..d1dea55 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -285,7 +285,7 @@ class group_lasso(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_dual(group_lasso):
@@ -428,7 +428,7 @@ class group_lasso_dual(group_lasso):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_cone(cone):
@@ -563,7 +563,7 @@ class group_lasso_epigraph(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_epigraph_polar(group_lasso_cone):
@@ -619,7 +619,7 @@ class group_lasso_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_dual_epigraph(group_lasso_cone):
@@ -676,7 +676,7 @@ class group_lasso_dual_epigraph(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_dual_epigraph_polar(group_lasso_cone):
@@ -734,7 +734,7 @@ class group_lasso_dual_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 conjugate_seminorm_pairs = {}
 conjugate_seminorm_pairs[group_lasso_dual] = group_lasso
diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 17920cd..747729b 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -141,7 +141,7 @@ class projection(linear_constraint):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class projection_complement(linear_constraint):
@@ -179,7 +179,7 @@ class projection_complement(linear_constraint):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 conjugate_cone_pairs = {}
 for n1, n2 in [(projection, projection_complement),
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index df6af7e..d01b855 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -685,7 +685,7 @@ class l1norm(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class supnorm(seminorm):
@@ -758,7 +758,7 @@ class supnorm(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class l2norm(seminorm):
@@ -833,7 +833,7 @@ class l2norm(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 def positive_part_lagrange(shape, lagrange,
                            offset=None, quadratic=None, initial=None):
@@ -928,7 +928,7 @@ class positive_part(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class constrained_max(seminorm):
@@ -1005,7 +1005,7 @@ class constrained_max(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class constrained_positive_part(seminorm):
@@ -1087,7 +1087,7 @@ class constrained_positive_part(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class max_positive_part(seminorm):
@@ -1158,7 +1158,7 @@ class max_positive_part(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 conjugate_seminorm_pairs = {}
 for n1, n2 in [(l1norm,supnorm),
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 4745552..37e4316 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -106,7 +106,7 @@ class nuclear_norm(svd_atom):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class operator_norm(svd_atom):
@@ -180,7 +180,7 @@ class operator_norm(svd_atom):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class svd_cone(cone):
@@ -243,7 +243,7 @@ class svd_cone(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class nuclear_norm_epigraph(svd_cone):
@@ -285,7 +285,7 @@ class nuclear_norm_epigraph(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -332,7 +332,7 @@ class nuclear_norm_epigraph_polar(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -379,7 +379,7 @@ class operator_norm_epigraph(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -425,7 +425,7 @@ class operator_norm_epigraph_polar(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
-- 
2.43.0


From ca1dac2aab274b37a7972759e0808011d8064c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 11/81] fix: block norms run on Python 3 and return the point
 itself when it is inside the ball

---
 regreg/atoms/block_norms.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 13dc693..3838729 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -87,7 +87,7 @@ class block_sum(seminorms.seminorm):
         x = x.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, x, lipschitz, lagrange)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.lagrange_prox(x[i], lipschitz=lipschitz,
                                            lagrange=lagrange)
         return v
@@ -98,22 +98,6 @@ class block_sum(seminorms.seminorm):
         warnings.warn('bound_prox of block_sum requires a little thought -- should be like l1prox')
         return 0 * x
 
-    @doc_template_user
-    def get_lagrange(self):
-        return seminorms.seminorm.get_lagrange(self)
-
-    @doc_template_user
-    def set_lagrange(self, lagrange):
-        return seminorms.seminorm.set_lagrange(self)
-
-    @doc_template_user
-    def get_bound(self):
-        return seminorms.seminorm.get_bound(self)
-
-    @doc_template_user
-    def set_bound(self, bound):
-        return seminorms.seminorm.get_bound(self)
-
     @doc_template_user
     def get_conjugate(self):
         if self.quadratic.coef == 0:
@@ -201,7 +185,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.bound_prox(self, x,
                                       bound=bound)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.bound_prox(x[i], 
                                         bound=bound)
         return v
@@ -295,7 +279,7 @@ class linf_l2(block_max):
         if cut < np.inf:
             proj_factor = (norm - cut) * (norm > cut)
         else:
-            proj_factor = arg
+            proj_factor = norm
         factor = (norm - proj_factor) / norm
         v = arg.copy()
         v *= factor[:,np.newaxis]
@@ -479,7 +463,7 @@ class l1_l2(block_sum):
         if cut < np.inf:
             proj_factor = (norm - cut) * (norm > cut)
         else:
-            proj_factor = arg
+            proj_factor = norm
         factor = proj_factor / norm
         v = arg.copy()
         v *= factor[:,np.newaxis]
@@ -604,6 +588,8 @@ class l1_l1(l1_l2):
         cut = find_solution_piecewise_linear_c(bound, 0, absarg)
         if cut < np.inf:
             value = np.sign(arg) * (absarg - cut) * (absarg > cut)
+        else:
+            value = arg
         return value.reshape(self.shape)
 
     @doc_template_user
-- 
2.43.0


From b999fd184c06353e2d2f30b4b0d93eacebb05955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 12/81] fix: conjugates and linear compositions of simplex,
 linear-constraint, SLOPE and SVD atoms resolve their names

---
 regreg/atoms/linear_constraints.py | 15 +++++++++------
 regreg/atoms/simplex.py            | 18 ++++++++++++------
 regreg/atoms/slope.py              |  1 +
 regreg/atoms/svd_norms.py          |  1 +
 4 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 747729b..6f3bcb0 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -3,7 +3,8 @@ from scipy import sparse
 from copy import copy
 import warnings
 
-from ..problems.composite import composite, nonsmooth
+from ..problems.composite import composite, nonsmooth, smooth_conjugate
+from ..affine import linear_transform
 from .cones import cone, affine_cone
 from ..identity_quadratic import identity_quadratic
 from ..atoms import _work_out_conjugate
@@ -92,10 +93,12 @@ class linear_constraint(cone):
     @classmethod
     @doc_template_user
     def linear(cls, linear_operator, basis, diag=False,
-               linear_term=None, offset=None):
+               quadratic=None, offset=None):
         l = linear_transform(linear_operator, diag=diag)
-        cone = cls(l.input_shape, basis,
-                   linear_term=linear_term, offset=offset)
+        if offset is None:
+            offset = 0
+        cone = cls(l.output_shape, basis,
+                   quadratic=quadratic, offset=-offset)
         return affine_cone(cone, l)
 
 @objective_doc_templater()
@@ -137,7 +140,7 @@ class projection(linear_constraint):
 
     @doc_template_user
     def get_conjugate(self):
-        return cone.get_conjugate(self)
+        return linear_constraint.get_conjugate(self)
 
     @doc_template_user
     def get_dual(self):
@@ -175,7 +178,7 @@ class projection_complement(linear_constraint):
 
     @doc_template_user
     def get_conjugate(self):
-        return cone.get_conjugate(self)
+        return linear_constraint.get_conjugate(self)
 
     @doc_template_user
     def get_dual(self):
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 42468d6..4e810ad 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -5,6 +5,8 @@ import numpy as np
 from copy import copy
 
 from ..atoms import atom, _work_out_conjugate, affine_atom
+from ..affine import linear_transform
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
 
@@ -62,10 +64,12 @@ class simplex_constraint(atom):
     @classmethod
     @doc_template_user
     def linear(cls, linear_operator, diag=False,
-               linear_term=None, offset=None):
+               quadratic=None, offset=None):
         l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        if offset is None:
+            offset = 0
+        atom = cls(l.output_shape, 
+                   quadratic=quadratic, offset=-offset)
         return affine_atom(atom, l)
 
     @doc_template_user
@@ -194,10 +198,12 @@ class maximum(atom):
     @classmethod
     @doc_template_user
     def linear(cls, linear_operator, diag=False,
-               linear_term=None, offset=None):
+               quadratic=None, offset=None):
         l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        if offset is None:
+            offset = 0
+        atom = cls(l.output_shape, 
+                   quadratic=quadratic, offset=-offset)
         return affine_atom(atom, l)
 
     @doc_template_user
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 000f03b..4c05d27 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -18,6 +18,7 @@ except ImportError:
 from ._isotonic_py import pav as isotonic_regression_py
 
 from .seminorms import seminorm
+from ..problems.composite import smooth_conjugate
 
 from ..atoms import _work_out_conjugate
 from ..objdoctemplates import objective_doc_templater
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 37e4316..c0c2f6e 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -11,6 +11,7 @@ import numpy as np
 from ..atoms import atom, _work_out_conjugate
 from .seminorms import conjugate_seminorm_pairs, seminorm, l1norm, supnorm
 from .cones import cone, conjugate_cone_pairs
+from ..problems.composite import smooth_conjugate
 from .projl1_cython import projl1, projl1_epigraph
 from .piecewise_linear import find_solution_piecewise_linear_c
 
-- 
2.43.0


From 85b3319874fa3018af359c2332e9685560d2633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 13/81] fix: group_lasso.check_KKT misspelled names

---
 regreg/atoms/group_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index d1dea55..be72ab2 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -781,10 +781,10 @@ def check_KKT(glasso,
     """
 
     failing = False
-    norm_soln = np.linalg.norm(solutionn)
+    norm_soln = np.linalg.norm(solution)
     active = glasso.terms(solution) > tol * norm_soln
     inactive_groups = np.nonzero(~active)[0]
-    active_groups = np.nozero(active)[0]
+    active_groups = np.nonzero(active)[0]
     for g in active_groups:
         group = glasso.groups == g
         subgrad_g = -grad[group]
-- 
2.43.0


From b44d0a86ac3e4d95f08d0c4dc269a79abb275070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 14/81] fix: FISTA uses the prox_control it is given;
 composites accept prox_control in proximal

---
 regreg/algorithms.py         | 6 +++---
 regreg/problems/composite.py | 2 +-
 regreg/problems/newton.py    | 4 +++-
 regreg/problems/simple.py    | 4 +++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index b034926..66ce1c1 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -91,7 +91,7 @@ class FISTA(algorithm):
 
         if debug is not None:
             self.debug = debug
-        self.prox_control = {}
+        self.prox_control = prox_control
 
         objective_hist = np.zeros(max_its)
         
@@ -136,7 +136,7 @@ class FISTA(algorithm):
                 lipschitz = self.composite.lipschitz
                 self.step = 1. / lipschitz
                 if self.prox_control != {}:
-                    proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0), prox_control=prox_control)
+                    proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0), prox_control=self.prox_control)
                 else:
                     proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0))
                 proposed_smooth = self.composite.smooth_objective(proposed_coefs, mode='func')
@@ -237,7 +237,7 @@ class FISTA(algorithm):
                                                                  self.working_coefs, 
                                                                  working_grad, 
                                                                  0), 
-                                                              prox_control=prox_control)
+                                                              prox_control=self.prox_control)
             else:
                 proposed_coefs = self.composite.proximal_step(sq(1. / self.step, 
                                                                  self.working_coefs, 
diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 13a4b6f..aefd604 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -206,7 +206,7 @@ class smooth(composite):
     def smooth_objective(self, x, mode='func', check_feasibility=False):
         return self._smooth_objective(x, mode=mode, check_feasibility=check_feasibility)
 
-    def proximal(self, quadratic):
+    def proximal(self, quadratic, prox_control=None):
         totalq = self.quadratic + quadratic
         return -totalq.linear_term / totalq.coef
 
diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index ac4fd46..bf358f6 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -180,8 +180,10 @@ class quasi_newton(object):
         vs = self.smooth_atom.nonsmooth_objective(x, check_feasibility=check_feasibility)
         return vn + vs + self.quadratic.objective(x, 'func')
 
-    def proximal(self, proxq):
+    def proximal(self, proxq, prox_control=None):
         proxq = proxq + self.smooth_atom.quadratic + self.quadratic
+        if prox_control is not None:
+            return self.proximal_atom.proximal(proxq, prox_control=prox_control)
         return self.proximal_atom.solve(proxq)
 
     def latexify(self, var=None):
diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index c782fef..1fcadf6 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -34,8 +34,10 @@ class simple_problem(composite):
         vs = self.smooth_atom.nonsmooth_objective(x, check_feasibility=check_feasibility)
         return vn + vs + self.quadratic.objective(x, 'func')
 
-    def proximal(self, proxq):
+    def proximal(self, proxq, prox_control=None):
         proxq = proxq + self.smooth_atom.quadratic + self.quadratic
+        if prox_control is not None:
+            return self.proximal_atom.proximal(proxq, prox_control=prox_control)
         return self.proximal_atom.solve(proxq)
 
     @staticmethod
-- 
2.43.0


From 53323ec21eebb3f93c6d2e39ea441740c73d5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 15/81] fix: affine transforms report the offset they apply,
 adjoints are transposes and return fresh arrays

---
 regreg/affine/__init__.py    | 60 +++++++++++++++++++++++-------------
 regreg/affine/block_maps.py  |  2 ++
 regreg/affine/fused_lasso.py |  6 ++--
 regreg/affine/multiscale.py  |  6 +++-
 regreg/atoms/__init__.py     | 12 ++++----
 5 files changed, 54 insertions(+), 32 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 4289826..50fe762 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -100,6 +100,13 @@ class affine_transform(object):
                 self.output_shape = self.linear_operator.output_shape
                 self.affineD = True
                 self.diagD = False
+                # the offset of a nested transform is part of our offset
+                inner_offset = self.linear_operator.affine_offset
+                if inner_offset is not None:
+                    if self.affine_offset is None:
+                        self.affine_offset = inner_offset
+                    else:
+                        self.affine_offset = broadcast_first(self.affine_offset, inner_offset, add)
             elif linear_operator.ndim == 1 and not diag:
                 self.linear_operator = self.linear_operator.reshape((1,-1))
                 self.diagD = False
@@ -214,10 +221,7 @@ class affine_transform(object):
         This routine is subclassed in affine_atom as a matrix multiplications,
         but could also call FFTs if D is a DFT matrix, in a subclass.
         """
-        if self.affineD:
-            v = self.linear_operator.affine_map(x)
-        else:
-            v = self.linear_map(x)
+        v = self.linear_map(x)
         if self.affine_offset is not None:
             # Deal with 1D and 2D input, affine_offset cases
             return broadcast_first(self.affine_offset, v, add)
@@ -329,18 +333,19 @@ class selector(linear_transform):
         return self.affine_transform.affine_map(x_indexed)
 
     def adjoint_map(self, u):
-        if not hasattr(self, "_output"):
-            self._output = np.zeros(self.initial_shape)
+        output = np.zeros(self.initial_shape)
         if self.reshape is not None:
-            u.shape = self.affine_transform.output_shape
-        self._output[self.index_obj] = self.affine_transform.adjoint_map(u)
-        return self._output
+            u = u.reshape(self.affine_transform.output_shape)
+        # entries selected more than once accumulate
+        np.add.at(output, self.index_obj, self.affine_transform.adjoint_map(u))
+        return output
 
 class scaler(linear_transform):
 
     def __init__(self, scalings):
         self.scalings = np.asarray(scalings)
         self.input_shape = self.output_shape = self.scalings.shape
+        self.affine_offset = None
 
     def linear_map(self, x):
         return self.scalings * x
@@ -361,6 +366,7 @@ class reshape(linear_transform):
     def __init__(self, input_shape, output_shape):
         self.input_shape = input_shape
         self.output_shape = output_shape
+        self.affine_offset = None
 
     def linear_map(self, x):
         return x.reshape(self.output_shape)
@@ -422,13 +428,15 @@ def normalize(transform,
     sparseM = sparse.isspmatrix(M)
     n = M.shape[0]
 
+    if sparseM:
+        squared_M = M.copy()
+        squared_M.data = squared_M.data ** 2
+
     if center:
         if not sparseM:
             col_means = M.mean(0)
         else:
-            tmp = M.copy()
-            col_means = np.asarray(tmp.mean(0)).reshape(-1)
-            tmp.data **= 2
+            col_means = np.asarray(M.mean(0)).reshape(-1)
     else:
         col_means = np.zeros(M.shape[1])
         ddof = ddof - 1
@@ -437,7 +445,7 @@ def normalize(transform,
         if not sparseM:
             col_scales = np.sqrt((np.sum(M**2,0) - n * col_means**2) / (n - ddof)) 
         else:
-            col_scales = np.asarray(np.sqrt((np.asarray(tmp.sum(0)).reshape(-1) -
+            col_scales = np.asarray(np.sqrt((np.asarray(squared_M.sum(0)).reshape(-1) -
                                              n * col_means**2) / (n - ddof))).reshape(-1)
         nonzero_scales = col_scales > 0
         inv_col_scales = np.zeros_like(col_scales)
@@ -464,6 +472,7 @@ class add_intercept(affine_transform):
         self._transform = astransform(transform)
         self.input_shape = (self._transform.input_shape[0] + 1,) # assumes a vector input, 
         self.output_shape = self._transform.output_shape
+        self.affine_offset = self._transform.affine_offset
         self.linear_operator = None
         
     def affine_map(self, x): # first coordinate is intercept
@@ -753,8 +762,8 @@ class aslinear(linear_transform):
     def __init__(self, transform):
         self._transform = astransform(transform)
         self.affine_offset = None
-        self.input_shape = self._transform.output_shape
-        self.output_shape = self._transform.input_shape
+        self.input_shape = self._transform.input_shape
+        self.output_shape = self._transform.output_shape
 
     def linear_map(self, x):
         return self._transform.linear_map(x)
@@ -824,7 +833,10 @@ class residual(affine_transform):
         self.transform = astransform(transform)
         self.input_shape = self.transform.input_shape
         self.output_shape = self.transform.output_shape
-        self.affine_offset = None
+        if self.transform.affine_offset is None:
+            self.affine_offset = None
+        else:
+            self.affine_offset = -self.transform.affine_offset
         if not self.input_shape == self.output_shape:
             raise ValueError('output and input shapes should be the same to compute residual')
 
@@ -850,7 +862,7 @@ class composition(affine_transform):
 
         # compute the affine_offset
         affine_offset = self.affine_map(np.zeros(self.input_shape))
-        if not np.allclose(affine_offset, 0): 
+        if np.allclose(affine_offset, 0): 
             self.affine_offset = None
         else:
             self.affine_offset = affine_offset
@@ -921,7 +933,10 @@ class scalar_multiply(affine_transform):
     def __init__(self, atransform, scalar):
         self.input_shape, self.output_shape = (atransform.input_shape, atransform.output_shape)
         self.scalar = scalar
-        self.affine_offset = None
+        if atransform.affine_offset is None:
+            self.affine_offset = None
+        else:
+            self.affine_offset = atransform.affine_offset * scalar
         self._atransform = atransform
 
     def affine_map(self, x):
@@ -947,10 +962,9 @@ class posneg(affine_transform):
 
     def __init__(self, linear_transform):
         self.linear_transform = astransform(linear_transform)
-        # where to store output so we don't recreate arrays 
-        self.affine_offset = None
+        # x -> L(x[0] - x[1]) + offset
+        self.affine_offset = self.linear_transform.affine_offset
         self.input_shape = (2,) + self.linear_transform.input_shape
-        self._adjoint_output = np.zeros(self.input_shape)
         self.output_shape = self.linear_transform.output_shape
 
     def linear_map(self, x):
@@ -958,10 +972,12 @@ class posneg(affine_transform):
         return  L(x[0]) - L(x[1])
 
     def affine_map(self, x):
+        if self.affine_offset is not None:
+            return self.linear_map(x) + self.affine_offset
         return self.linear_map(x)
 
     def adjoint_map(self, x):
-        u = self._adjoint_output
+        u = np.zeros(self.input_shape)
         u[0] = self.linear_transform.adjoint_map(x)
         u[1] = -u[0]
         return u
diff --git a/regreg/affine/block_maps.py b/regreg/affine/block_maps.py
index 995d56c..916e937 100644
--- a/regreg/affine/block_maps.py
+++ b/regreg/affine/block_maps.py
@@ -54,6 +54,7 @@ class block_columns(affine_transform):
             raise ValueError('output of transforms should be stackable')
 
         self.output_shape = _buffer.shape
+        self.affine_offset = _buffer
         self._slices = []
         idx = 0
         for offset in self._offsets:
@@ -146,6 +147,7 @@ class block_rows(affine_transform):
             raise ValueError('output of transforms should be the same and hstackable')
 
         self.output_shape = self._offset.shape
+        self.affine_offset = self._offset
 
     def affine_map(self, arg):
         
diff --git a/regreg/affine/fused_lasso.py b/regreg/affine/fused_lasso.py
index 9804fec..3118c51 100644
--- a/regreg/affine/fused_lasso.py
+++ b/regreg/affine/fused_lasso.py
@@ -56,7 +56,7 @@ class trend_filter(affine_transform):
         self.knots = np.sort(knots)
         self.steps = self.knots[1:] - self.knots[:-1]
 
-        self.linear_transform = difference_transform(knots, order=order, sorted=True,
+        self.linear_transform = difference_transform(self.knots, order=order, sorted=True,
                                                      transform=True)
         self.affine_offset = None
         self.input_shape = self.linear_transform.input_shape
@@ -85,7 +85,7 @@ class trend_filter_inverse(affine_transform):
         if order != 1:
             raise ValueError('pseudo inverse only worked out for first order')
             
-        dtransform = difference_transform(knots, order=order, sorted=True,
+        dtransform = difference_transform(self.knots, order=order, sorted=True,
                                           transform=True)
 
         self.affine_offset = None
@@ -120,7 +120,7 @@ class trend_filter_inverse(affine_transform):
         if x.ndim == 2:
             # assuming m is the first axis
             x = x - x.mean(0)[np.newaxis,:]
-            C = np.cumsum(x[1:][::-1], 1)[::-1]
+            C = np.cumsum(x[1:][::-1], axis=0)[::-1]
             return C * self.steps[:,np.newaxis]
 
 
diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index dfdd7e5..ace956d 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -56,6 +56,7 @@ class multiscale(affine_transform):
         self.sizes = self.slices['end'] - self.slices['start'] * 1.
         self.input_shape = (p,)
         self.output_shape = (len(self.slices),)
+        self.affine_offset = None
 
     def __copy__(self):
         M = multiscale(self.p)
@@ -215,7 +216,10 @@ def SMUCE_stat(M, Z, sigma=None):
     Z0 = Z - Z.mean()
     if sigma is None:
         sigma_hat = np.std(Z)
+    else:
+        sigma_hat = sigma
     T = np.fabs(M.linear_map(Z0) / sigma_hat) - np.sqrt(2 * np.log(p / M.sizes))
+    M.scaling = old
     idx = np.argmax(T)
     return T[idx], M.slices[idx]
 
@@ -250,6 +254,6 @@ def choose_tuning_parameter(M, ndraw=100, quantile=0.95, sigma=None):
     p = M.input_shape[0]
     for i in range(ndraw):
         Z = np.random.standard_normal(p)
-        V.append(SMUCE_stat(M, Z)[0])
+        V.append(SMUCE_stat(M, Z, sigma=sigma)[0])
     return np.percentile(V, 100*quantile)
 
diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index 8d02ba4..dfeb683 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -6,7 +6,7 @@ import numpy as np
 from ..identity_quadratic import identity_quadratic
 from ..problems.composite import nonsmooth
 from ..affine import (linear_transform, identity as identity_transform, 
-                    affine_transform)
+                    affine_transform, aslinear)
 from ..smooth import affine_smooth
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
@@ -116,12 +116,12 @@ class affine_atom(object):
         # the atom. in this way, the affine_transform is actually
         # always linear
         if atransform.affine_offset is not None:
+            # (atoms subtract their offset, transforms add theirs)
             if self.atom.offset is not None:
-                self.atom.offset += atransform.affine_offset
+                self.atom.offset = self.atom.offset - atransform.affine_offset
             else:
-                self.atom.offset = atransform.affine_offset
-            ltransform = linear_transform(atransform.linear_operator,
-                                          diag=atransform.diagD)
+                self.atom.offset = -atransform.affine_offset
+            ltransform = aslinear(atransform)
         else:
             ltransform = atransform
         self.linear_transform = ltransform
@@ -165,7 +165,7 @@ class affine_atom(object):
 
     def __repr__(self):
         return "affine_atom(%s, %s)" % (repr(self.atom),
-                                        repr(self.linear_transform.linear_operator))
+                                        repr(getattr(self.linear_transform, 'linear_operator', self.linear_transform)))
 
     @property
     def dual(self):
-- 
2.43.0


From 6992390a69ad4fa3e9eff3bcc04b16e5a57621b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 16/81] fix: stacked losses build the family they name and
 forward trials and coef

---
 regreg/paths/sparse_group_lasso.py |  2 +-
 regreg/sklearn/base.py             | 20 ++++++++---------
 regreg/smooth/glm.py               | 35 +++++++++++++++---------------
 regreg/smooth/mglm.py              | 28 ++++++++++--------------
 4 files changed, 39 insertions(+), 46 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 680c16e..ed1334b 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -415,7 +415,7 @@ def _check_KKT(sglasso,
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
         else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sqlasso.l1weight_g.mean()) * UNPENALIZED
+            active_results[i] = (np.linalg.norm(subgrad_g) > tol * l1weight_g.mean()) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 3e5dabc..43a444d 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -179,7 +179,7 @@ class base_mixin(object):
         return self.atom_constructor(**self.atom_params)
 
     def _loglike_factory(self, X, y):
-        raise NotImplementedErorr
+        raise NotImplementedError
 
     def _check_y_arg(self, y):
         """
@@ -508,16 +508,14 @@ class classifier_lagrange_mixin(classifier_mixin, lagrange_mixin):
 
         """
 
-        lagrange_mixin(self, 
-                       atom_constructor, 
-                       atom_params, 
-                       case_weights=case_weights,
-                       offset=offset,
-                       enet_alpha=enet_alpha,
-                       coef=coef, 
-                       score_method=score_method,
-                       initial=initial)
-                       
+        lagrange_mixin.__init__(self, 
+                                atom_constructor, 
+                                atom_params, 
+                                case_weights=case_weights,
+                                enet_alpha=enet_alpha,
+                                coef=coef, 
+                                score_method=score_method,
+                                initial=initial)
 
 class survival_mixin(base_mixin):
     pass
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 05bf1c8..c40a283 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1646,8 +1646,9 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
+        losses = [logistic_loglike(successes[i].shape,
+                                   successes[i],
+                                   trials=None if trials is None else trials[i],
                                    coef=coef)
                   for i in range(len(successes))]
 
@@ -1700,8 +1701,9 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [probit_loglike(successes[i],
-                                 trials[i],
+        losses = [probit_loglike(successes[i].shape,
+                                 successes[i],
+                                 trials=None if trials is None else trials[i],
                                  coef=coef)
                   for i in range(len(successes))]
 
@@ -1754,8 +1756,9 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [cloglog_loglike(successes[i],
-                                  trials[i],
+        losses = [cloglog_loglike(successes[i].shape,
+                                  successes[i],
+                                  trials=None if trials is None else trials[i],
                                   coef=coef)
                   for i in range(len(successes))]
 
@@ -1803,10 +1806,10 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -1816,7 +1819,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def huber(klass,
-              X, 
               responses,
               smoothing_parameter,
               case_weights=None,
@@ -1860,7 +1862,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef) 
                   for response in responses]
 
         return klass(losses,
@@ -1871,7 +1874,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def huber_svm(klass,
-                  X, 
                   successes,
                   smoothing_parameter,
                   case_weights=None,
@@ -1915,7 +1917,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef) 
                   for response in successes]
 
         return klass(losses,
@@ -1926,7 +1929,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def cox(klass, 
-            X, 
             event_times,
             censoring,
             coef=1., 
@@ -1940,9 +1942,6 @@ class stacked_loglike(smooth_atom):
         Parameters
         ----------
 
-        X : [ndarray, `regreg.affine.affine_transform`]
-            Design matrix
-
         event_times : ndarray
             Observed times for Cox proportional hazard model.
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 5ff4cf8..8ca747a 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -256,7 +256,6 @@ class mglm(glm):
         """
 
         loss = stacked_common_loglike(losses,
-                                      successes,
                                       coef=coef,
                                       offset=saturated_offset)
 
@@ -515,8 +514,9 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
+        losses = [logistic_loglike(successes[i].shape,
+                                   successes[i],
+                                   trials=None if trials is None else trials[i],
                                    coef=coef)
                   for i in range(len(successes))]
 
@@ -564,10 +564,10 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -577,8 +577,7 @@ class stacked_common_loglike(smooth_atom):
 
     @classmethod
     def huber(klass,
-              X, 
-              response,
+              responses,
               smoothing_parameter,
               case_weights=None,
               coef=1., 
@@ -621,7 +620,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef) 
                   for response in responses]
 
         return klass(losses,
@@ -632,7 +632,6 @@ class stacked_common_loglike(smooth_atom):
 
     @classmethod
     def huber_svm(klass,
-                  X, 
                   successes,
                   smoothing_parameter,
                   case_weights=None,
@@ -676,7 +675,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef) 
                   for response in successes]
 
         return klass(losses,
@@ -687,7 +687,6 @@ class stacked_common_loglike(smooth_atom):
 
     @classmethod
     def cox(klass, 
-            X, 
             event_times,
             censoring,
             coef=1., 
@@ -701,9 +700,6 @@ class stacked_common_loglike(smooth_atom):
         Parameters
         ----------
 
-        X : [ndarray, `regreg.affine.affine_transform`]
-            Design matrix
-
         event_times : ndarray
             Observed times for Cox proportional hazard model.
 
-- 
2.43.0


From 7f0c192078df3ce53c945c03b12c84c14c905231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 17/81] fix: conjugate of quadratic_loss with a quadratic form

---
 regreg/smooth/quadratic.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index f0c48dd..7b89ef1 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -169,20 +169,24 @@ class quadratic_loss(smooth_atom):
             as_quad = (identity_quadratic(self.coef, self.offset, 0, 0) + self.quadratic).collapsed()
             return smooth_conjugate(zero(self.shape, quadratic=as_quad))
         else:
-            #XXX this needs to be tested
+            # self is x^T(coef * Q + sq.coef * I)x / 2 + sq.linear_term^Tx + sq.constant_term
             sq = self.quadratic.collapsed()
             if self.offset is not None:
-                sq.linear_term -= self.scale(self.Q_transform.linear_map(self.offset))
-            if self.Q_transform.diagD:
+                Q_offset = self.scale(self.Q_transform.linear_map(self.offset))
+                sq.linear_term = sq.linear_term - Q_offset
+                sq.constant_term = sq.constant_term + np.sum(self.offset * Q_offset) / 2.
+            offset = sq.linear_term * np.ones(self.shape)
+            outq = identity_quadratic(0, 0, 0, -sq.constant_term)
+            if self.Qdiag:
                 return quadratic_loss(self.shape,
-                                      Q=1./(self.coef*self.Q_transform.linear_operator + sq.coef),
+                                      Q=1./(self.coef * self.Q + sq.coef),
                                       offset=offset,
                                       quadratic=outq, 
                                       coef=1.,
                                       Qdiag=True)
             elif factor:
                 return quadratic_loss(self.shape,
-                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape)),
+                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape[0])),
                                       Qdiag=False,
                                       offset=offset,
                                       quadratic=outq,
@@ -207,8 +211,8 @@ class cholesky(object):
     '''
 
     def __init__(self, Q, cholesky=None, banded=False):
-        self.input_shape = Q.shape[0]
-        self.output_shape = Q.shape[0]
+        self.input_shape = (Q.shape[0],)
+        self.output_shape = (Q.shape[0],)
         self.affine_offset = None
         self._Q = Q
         self.banded = banded
-- 
2.43.0


From d323fe67fabe1118583b746df587d9369f5e5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 18/81] fix: sparse_group_common_path applies l1_alpha without
 scaling the caller's arrays and solves its null problem

---
 regreg/paths/sparse_group_block.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 4169ce3..19ce37b 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -52,11 +52,11 @@ class sparse_group_common_path(group_lasso_path):
             self.X.input_shape = (self.X.input_shape +           # but its output should be same shape
                                   self.saturated_loss.shape[1:]) # as self.saturated_loss.shape
 
+        if l1_alpha is not None:
+            l1_penalty = l1_penalty * l1_alpha
+            l2_penalty = l2_penalty * (1 - l1_alpha)
         self.l1_penalty = l1_penalty
         self.l2_penalty = l2_penalty
-        if l1_alpha is not None:
-            self.l1_penalty *= l1_alpha
-            self.l2_penalty *= (1 - l1_alpha)
 
         # the penalty parameters
 
@@ -85,7 +85,8 @@ class sparse_group_common_path(group_lasso_path):
              null_grad, 
              null_soln,
              null_linpred,
-             _) = self.solve_subproblem(unpenalized_groups,
+             _) = self.solve_subproblem(self.solution,
+                                        unpenalized_groups,
                                         self.BIG,
                                         tol=1.e-8)
             self.linear_predictor = null_linpred
-- 
2.43.0


From 121dd09f738a15ec28dee3b685155c2c16abc543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 19/81] fix: misspelled and undefined names in separable,
 quasi_newton, composite.smooth, sklearn mixins and sparse group lasso KKT

---
 regreg/problems/composite.py | 2 +-
 regreg/problems/newton.py    | 1 +
 regreg/problems/separable.py | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index aefd604..6fd3817 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -204,7 +204,7 @@ class smooth(composite):
     lipschitz = property(get_lipschitz, set_lipschitz)
 
     def smooth_objective(self, x, mode='func', check_feasibility=False):
-        return self._smooth_objective(x, mode=mode, check_feasibility=check_feasibility)
+        raise NotImplementedError('subclasses must implement their own smooth_objective')
 
     def proximal(self, quadratic, prox_control=None):
         totalq = self.quadratic + quadratic
diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index bf358f6..618cd0f 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -29,6 +29,7 @@ class quasi_newton(object):
     """
 
     damping_term = 1.
+    objective_vars = composite.objective_vars.copy()
 
     def __init__(self, 
                  smooth_atom, 
diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index eae94b5..73b2bfc 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -168,7 +168,7 @@ class separable(atom):
 
     @property
     def selectors(self):
-        return [selector(group, self.shape, reshape)
+        return [selector(group, self.shape, reshape=shape)
                 for group, shape in zip(self.groups, self.shapes)]
 
 class separable_problem(simple_problem):
-- 
2.43.0


From e4c57ff402cf64626691905f24ffbf53b8e5c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 20/81] fix: conjugate of a smooth conjugate with a linear
 quadratic part

---
 regreg/problems/composite.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 6fd3817..11cf534 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -1,3 +1,4 @@
+import numpy as np
 from numpy import zeros, asarray, any as npany
 from copy import copy
 
@@ -302,14 +303,16 @@ class smooth_conjugate(smooth):
         else:
             q = self.quadratic.collapsed()
             if q.coef == 0:
-                newq = copy(atom.quadratic)
-                newq.constant_term -= q.constant_term
-                offset = -q.linear_term
+                # conjugate of h + <gamma, .> + a is h^*(. - gamma) - a
+                gamma = q.linear_term * np.ones(self.shape)
+                atom = copy(self.atom)
+                newq = (atom.quadratic + self.smoothing_quadratic).collapsed()
+                constant = newq.constant_term - np.sum(gamma * newq.linear_term) - q.constant_term
+                offset = gamma
                 if atom.offset is not None:
-                    offset -= atom.offset
-                atom = copy(atom)
+                    offset = offset + atom.offset
                 atom.offset = offset
-                atom.quadratic = newq
+                atom.quadratic = sq(newq.coef, gamma, newq.linear_term, constant)
                 return atom
             if q.coef != 0:
                 r = q.coef
-- 
2.43.0


From 57480aff17dc91ad0c6ee73c47aa5fecaab31207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 21/81] fix: block_columns rejects transforms whose outputs
 have more than two dimensions

---
 regreg/affine/block_maps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/affine/block_maps.py b/regreg/affine/block_maps.py
index 916e937..9a62294 100644
--- a/regreg/affine/block_maps.py
+++ b/regreg/affine/block_maps.py
@@ -50,6 +50,8 @@ class block_columns(affine_transform):
                 _buffer = np.hstack(self._offsets)
             elif ndim[0] == 2:
                 _buffer = np.vstack(self._offsets)
+            else:
+                raise ValueError
         except ValueError:
             raise ValueError('output of transforms should be stackable')
 
-- 
2.43.0


From 3d42be1b3dca45738807906fa170224db47a8b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 22/81] fix: l2_epigraph cone_prox leaves points of the cone
 unchanged and handles a zero coefficient part

---
 regreg/atoms/cones.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 09b0ce5..2308401 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -469,9 +469,10 @@ class l2_epigraph(cone):
         norm = x[-1]
         coef = x[:-1]
         norm_coef = np.linalg.norm(coef)
-        thold = (norm_coef - norm) / 2.
+        thold = max((norm_coef - norm) / 2., 0)
         result = np.zeros_like(x)
-        result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
+        if norm_coef > thold:
+            result[:-1] = coef / norm_coef * (norm_coef - thold)
         result[-1] = max(norm + thold, 0)
         return result
 
@@ -513,9 +514,10 @@ class l2_epigraph_polar(cone):
         norm = arg[-1]
         coef = arg[:-1]
         norm_coef = np.linalg.norm(coef)
-        thold = (norm_coef - norm) / 2.
+        thold = max((norm_coef - norm) / 2., 0)
         result = np.zeros_like(arg)
-        result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
+        if norm_coef > thold:
+            result[:-1] = coef / norm_coef * (norm_coef - thold)
         result[-1] = max(norm + thold, 0)
         return -result
 
-- 
2.43.0


From 5c0e1a91829ab6012eff408642e0553d3e6e6e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 23/81] fix: constrained_max and constrained_positive_part
 accept nonnegative arguments below tol

---
 regreg/atoms/seminorms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index d01b855..837b72e 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -947,7 +947,7 @@ class constrained_max(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = lagrange * np.max(arg)
         if not anyneg or not check_feasibility:
             return v
@@ -956,7 +956,7 @@ class constrained_max(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         inside = np.max(arg) <= bound * (1 + self.tol)
         if inside and not anyneg:
             return 0
@@ -1025,7 +1025,7 @@ class constrained_positive_part(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = np.maximum(arg, 0).sum()
         if not anyneg or not check_feasibility:
             return v * lagrange
-- 
2.43.0


From e831a071e4522d3fa536ebcd91f0dadd7b0ffb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 24/81] fix: seminorm constraints include the boundary of the
 ball

---
 regreg/atoms/seminorms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 837b72e..205bdc7 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -1035,7 +1035,7 @@ class constrained_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         value = self.seminorm(arg, lagrange=1, check_feasibility=True)
-        if value >= bound * (1 + self.tol):
+        if value > bound * (1 + self.tol):
             return np.inf
         return 0
 
@@ -1112,7 +1112,7 @@ class max_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         v = np.max(np.maximum(arg,0))
-        if v >= bound * (1 + self.tol):
+        if v > bound * (1 + self.tol):
             return np.inf
         return 0
 
-- 
2.43.0


From 0b6a1df8d9e98cdb72e6b9314541f702d9d97aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 25/81] fix: weighted supnorm prox with zero weights is not NaN
 when the rest is inside the dual ball

---
 regreg/atoms/weighted_atoms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 18b7c63..9eb6abf 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -246,7 +246,8 @@ class supnorm(seminorm):
                                                    0,
                                                    np.fabs(arg[_keep]),
                                                    weights[_keep])
-        resid = np.sign(arg) * np.maximum(np.fabs(arg)-_lagrange * weights, 0)
+        cut = weights * (_lagrange + _isinf)
+        resid = np.sign(arg) * np.maximum(np.fabs(arg) - cut, 0)
 
         return arg - resid
 
-- 
2.43.0


From af724e99e3c2b7daa89f52f8a27af58c211822cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 26/81] fix: block norm conjugates use the current
 lagrange/bound of the norm

---
 regreg/atoms/block_norms.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 3838729..6c64ea6 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -112,8 +112,8 @@ class block_sum(seminorms.seminorm):
             atom = cls(atom_cls, 
                        self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -293,12 +293,10 @@ class linf_l2(block_max):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -520,12 +518,10 @@ class l1_l2(block_sum):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
-- 
2.43.0


From 9fef44dcb377ae53f34acad64f737b05aafc6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 27/81] fix: block norm constraints honour the bound argument
 and work in Lagrange form

---
 regreg/atoms/block_norms.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 6c64ea6..5703a3f 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -74,11 +74,12 @@ class block_sum(seminorms.seminorm):
                            lagrange=1.))
 
     @doc_template_user
-    def constraint(self, x):
+    def constraint(self, x, bound=None):
         # XXX should we check feasibility here?
         x = x.reshape(self.shape)
-        v = np.sum(self.seminorms(x, check_feasibility=False))
-        if v <= self.bound * (1 + self.tol):
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
+        v = np.sum(self.seminorms(x, lagrange=1., check_feasibility=False))
+        if v <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -171,7 +172,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.constraint(self, x, bound=bound)
         # XXX should we check feasibility here?
         v = np.max(self.seminorms(x, lagrange=1., check_feasibility=False))
-        if v <= self.bound * (1 + self.tol):
+        if v <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -245,10 +246,11 @@ class linf_l2(block_max):
                            initial=initial)
 
     @doc_template_user
-    def constraint(self, arg):
+    def constraint(self, arg, bound=None):
         arg = arg.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, arg, bound=bound)
         norm_max = np.sqrt((arg**2).sum(1)).max()
-        if norm_max <= self.bound * (1 + self.tol):
+        if norm_max <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -354,10 +356,11 @@ class linf_linf(linf_l2):
                            initial=initial)
 
     @doc_template_user
-    def constraint(self, arg):
+    def constraint(self, arg, bound=None):
         arg = arg.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, arg, bound=bound)
         norm_max = np.fabs(arg).max()
-        if norm_max <= self.bound * (1 + self.tol):
+        if norm_max <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -468,10 +471,11 @@ class l1_l2(block_sum):
         return v
 
     @doc_template_user
-    def constraint(self, x):
+    def constraint(self, x, bound=None):
         x = x.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
         norm_sum = np.sqrt((x**2).sum(1)).sum()
-        if norm_sum <= self.bound * (1 + self.tol):
+        if norm_sum <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -561,10 +565,11 @@ class l1_l1(l1_l2):
         return (np.maximum(norm - lagrange / lipschitz, 0) * np.sign(arg)).reshape(self.shape)
 
     @doc_template_user
-    def constraint(self, arg):
+    def constraint(self, arg, bound=None):
         arg = arg.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, arg, bound=bound)
         norm_sum = np.fabs(arg).sum()
-        if norm_sum <= self.bound * (1 + self.tol):
+        if norm_sum <= bound * (1 + self.tol):
             return 0
         return np.inf
 
-- 
2.43.0


From 32350871d23c0cb20c0f63d259da90ce40ccafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 28/81] fix: block norm proximal maps are 0, not NaN, for rows
 that are 0

---
 regreg/atoms/block_norms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 5703a3f..713c977 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -269,7 +269,7 @@ class linf_l2(block_max):
         bound = seminorms.seminorm.bound_prox(self, arg,
                                               bound=bound)
         v = arg.copy()
-        v[norm >= bound] *= bound / norm[norm >= bound][:,np.newaxis]
+        v[norm > bound] *= bound / norm[norm > bound][:,np.newaxis]
         return v
 
     @doc_template_user
@@ -282,7 +282,7 @@ class linf_l2(block_max):
             proj_factor = (norm - cut) * (norm > cut)
         else:
             proj_factor = norm
-        factor = (norm - proj_factor) / norm
+        factor = (norm - proj_factor) / np.where(norm > 0, norm, 1)
         v = arg.copy()
         v *= factor[:,np.newaxis]
         return v
@@ -451,7 +451,7 @@ class l1_l2(block_sum):
         arg = arg.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         norm = np.sqrt((arg**2).sum(1))
-        mult = np.maximum(norm - lagrange / lipschitz, 0) / norm
+        mult = np.maximum(norm - lagrange / lipschitz, 0) / np.where(norm > 0, norm, 1)
         return arg * mult[:, np.newaxis]
 
     @doc_template_user
@@ -465,7 +465,7 @@ class l1_l2(block_sum):
             proj_factor = (norm - cut) * (norm > cut)
         else:
             proj_factor = norm
-        factor = proj_factor / norm
+        factor = proj_factor / np.where(norm > 0, norm, 1)
         v = arg.copy()
         v *= factor[:,np.newaxis]
         return v
-- 
2.43.0


From 7c050ac6c4bae759899329b3e49b0da7a7a7b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 29/81] fix: nuclear_norm_epigraph.constraint counts the
 largest singular value

---
 regreg/atoms/svd_norms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index c0c2f6e..54e8bea 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -260,7 +260,7 @@ class nuclear_norm_epigraph(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = np.fabs(D[1:]).sum() <= (1 + self.tol) * norm
+        incone = np.fabs(D).sum() <= (1 + self.tol) * norm
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From 9694d8e0637d445beff5765f29f4e030d4f6fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 30/81] fix: group_lasso.constraint allows the tolerance of the
 other norms

---
 regreg/atoms/group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index be72ab2..dfaf1b4 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -257,7 +257,7 @@ class group_lasso(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        inball = self.seminorm(arg, lagrange=1) <= bound
+        inball = self.seminorm(arg, lagrange=1) <= bound * (1 + self.tol)
         if inball:
             return 0
         else:
-- 
2.43.0


From d304678ba82b4445772b65210cd8407409856191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 31/81] fix: conjugate of a smooth conjugate with a nonzero
 quadratic coefficient

---
 regreg/problems/composite.py | 81 ++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 11cf534..785f63a 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -314,43 +314,9 @@ class smooth_conjugate(smooth):
                 atom.offset = offset
                 atom.quadratic = sq(newq.coef, gamma, newq.linear_term, constant)
                 return atom
-            if q.coef != 0:
-                r = q.coef
-                sq_ = self.smoothing_quadratic
-                newq = sq_ + q.conjugate
-                new_smooth = smooth_conjugate(self.atom, quadratic=newq)
-                output = smooth(self.atom.shape,
-                                offset=None,
-                                quadratic=sq(1./r, q.linear_term, 0, 0),
-                                initial=None)
-                output.smoothed_atom = new_smooth
-
-                def smooth_objective(self, x, mode='func', check_feasibility=False):
-                    # what if self.quadratic is later changed? hmm..
-                    r = 1. / self.quadratic.coef
-                    if mode == 'func':
-                        v = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                check_feasibility=check_feasibility)
-                        return self.smoothing_quadratic.objective(x, 'func') - v
-                    elif mode == 'both':
-                        v1, g1 = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                     check_feasibility=check_feasibility)
-                        v2, g2 = self.smoothing_quadratic.objective(x, mode=mode, 
-                                                                    check_feasibility=check_feasibility)
-                        return v2-v1, g2-g1/r
-                    elif mode == 'grad':
-                        g1 = self.smoothed_atom.smooth_objective(x/r, mode='grad', 
-                                                                     check_feasibility=check_feasibility)
-                        g2 = self.smoothing_quadratic.objective(x, mode='grad', 
-                                                                    check_feasibility=check_feasibility)
-                        return g2-g1/r
-                    else:
-                        raise ValueError("mode incorrectly specified")
-                        
-                output.smooth_objective = type(output.smooth_objective)(smooth_objective,
-                                                                        output, 
-                                                                        smooth)
-                return output
+            else:
+                # the r > 0 case above
+                return _conjugate_smooth_conjugate(self.atom, self.smoothing_quadratic, q)
     conjugate = property(get_conjugate)
 
     def latexify(self, var=None, idx=''):
@@ -404,3 +370,44 @@ class smooth_conjugate(smooth):
 
     def proximal(self, proxq, prox_control=None):
         raise ValueError('no proximal defined')
+
+class _conjugate_smooth_conjugate(smooth):
+
+    r"""
+    The conjugate of $h(u) + \frac{r}{2} \|u\|^2_2 + \gamma^Tu + a$ where $h$
+    is the smooth conjugate of an atom: with $r > 0$ it is
+
+    .. math::
+
+        \frac{1}{2r} \|v-\gamma\|^2_2 - a - \tilde{h}((v-\gamma)/r)
+
+    where $\tilde{h}$ is the smooth conjugate of the atom with
+    $\|x\|^2_2/(2r)$ added to its smoothing quadratic.
+    """
+
+    def __init__(self, atom, smoothing_quadratic, quadratic):
+        smooth.__init__(self, atom.shape)
+        self._coef = quadratic.coef
+        self._linear_term = quadratic.linear_term
+        self._constant_term = quadratic.constant_term
+        self.smoothed_atom = smooth_conjugate(atom, 
+                                              smoothing_quadratic + sq(1. / self._coef, 0, 0, 0))
+
+    def smooth_objective(self, x, mode='both', check_feasibility=False):
+        """
+        Evaluate the conjugate, its gradient or both
+        according to `mode`, one of ['func', 'grad', 'both'].
+        """
+        arg = (self.apply_offset(x) - self._linear_term) / self._coef
+        if mode in ['func', 'both']:
+            func = (0.5 * self._coef * (arg**2).sum() - self._constant_term -
+                    self.smoothed_atom.smooth_objective(arg, 'func', check_feasibility))
+        if mode in ['grad', 'both']:
+            grad = arg - self.smoothed_atom.smooth_objective(arg, 'grad', check_feasibility) / self._coef
+        if mode == 'both':
+            return func, grad
+        elif mode == 'grad':
+            return grad
+        elif mode == 'func':
+            return func
+        raise ValueError("mode incorrectly specified")
-- 
2.43.0


From 96dea129a8862726a727b366bbacac61a259c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 32/81] fix: projection_complement.constraint accepted the
 complement of its subspace

---
 regreg/atoms/linear_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 6f3bcb0..dd2c943 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -162,7 +162,7 @@ class projection_complement(linear_constraint):
     @doc_template_user
     def constraint(self, x):
         projx = self.cone_prox(x)
-        incone = np.linalg.norm(projx) / max([np.linalg.norm(x),1]) < self.tol
+        incone = np.linalg.norm(x-projx) / max([np.linalg.norm(x),1]) < self.tol
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From bda85ef6ccf797d49228308a0dd36f9c6bb35b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 33/81] fix: identity_quadratic.conjugate of a linear function
 imports its cone and puts it at the linear term

---
 regreg/identity_quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 8762578..5fa7ed3 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -251,6 +251,6 @@ class identity_quadratic(object):
                                       -a.constant_term)
         else:
             # possible import problem here
-            from ..atoms.cones import zero_constraint
+            from .atoms.cones import zero_constraint
             q = identity_quadratic(0,0,0,-a.constant_term)
-            return zero_constraint(a.linear_term.shape, offset=-a.linear_term, quadratic=q)
+            return zero_constraint(a.linear_term.shape, offset=a.linear_term, quadratic=q)
-- 
2.43.0


From a81d273fce6b0bc630932d6cea075dcb0cf676f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 34/81] fix: identity_quadratic.noneify looks at the center

---
 regreg/identity_quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 5fa7ed3..ce576f8 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -83,8 +83,8 @@ class identity_quadratic(object):
             self.constant_term = 0
         if self.linear_term is not None and all(self.linear_term == 0):
             self.linear_term = None
-        if self.center is not None and all(self.center_term == 0):
-            self.center_term = None
+        if self.center is not None and all(self.center == 0):
+            self.center = None
 
     def zeroify(self):
         for a in ['coef', 'center', 'linear_term', 'constant_term']:
-- 
2.43.0


From 8dbe70b637474998cc4be7f6e0290bdf13ebeab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 35/81] fix: identity_quadratic.recenter handles a missing or
 integer center

---
 regreg/identity_quadratic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index ce576f8..d22ecf7 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -98,7 +98,10 @@ class identity_quadratic(object):
 
         if offset is not None:
             cpq = copy(self)
-            cpq.center -= offset 
+            if cpq.center is None:
+                cpq.center = -offset
+            else:
+                cpq.center = cpq.center - offset
             cpq = cpq.collapsed()
             return offset, cpq
         else:
-- 
2.43.0


From 89adf7f6b60a4e424e9b89b1cb0da4c2a23fccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:32 +0000
Subject: [PATCH 36/81] fix: composite.proximal_optimum returns the optimal
 value

---
 regreg/problems/composite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 785f63a..0e072a6 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -90,10 +90,8 @@ class composite(object):
         and nonsmooth objective the value.
         """
         argmin = self.proximal(quadratic)
-        if self.quadratic is None:
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) 
-        else: 
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) + self.quadratic.objective(argmin, 'func') 
+        # nonsmooth_objective includes self.quadratic
+        return argmin, quadratic.objective(argmin, 'func') + self.nonsmooth_objective(argmin)
 
     def proximal_step(self, quadratic, prox_control=None):
         """
-- 
2.43.0


From d70f6eb15bae1afd9630bbfd4cb64e41e58ada87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 37/81] fix: smooth.solve includes the given quadratic in the
 optimum and restores the old one on errors

---
 regreg/problems/composite.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 0e072a6..bd03276 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -213,14 +213,16 @@ class smooth(composite):
         if quadratic is None:
             quadratic = sq(0, 0, 0, 0)
         oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
-        self.solver = FISTA(self)
-        self.solver.fit(**fit_args)
-        self.quadratic = oldq
-
-        if return_optimum:
-            return self.objective(self.coefs), self.coefs
-        else:
-            return self.coefs
+        try:
+            self.solver = FISTA(self)
+            self.solver.fit(**fit_args)
+            if return_optimum:
+                value = (self.objective(self.coefs), self.coefs)
+            else:
+                value = self.coefs
+        finally:
+            self.quadratic = oldq
+        return value
 
 class smooth_conjugate(smooth):
 
-- 
2.43.0


From d95aca1b65c3fdc6d761220f74cc532aacc1012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 38/81] fix: setting the offset to zero removes the old offset

---
 regreg/problems/composite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index bd03276..6225c3e 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -44,6 +44,8 @@ class composite(object):
             value = asarray(value)
             if npany(value != 0):
                 self._offset = value
+            else:
+                self._offset = None
         else:
             self._offset = None
 
-- 
2.43.0


From f9dc7d6603ae3cb2789f64d45613a05e40d35d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 39/81] fix: simple_problem.solve restores its quadratic when
 the solver raises

---
 regreg/problems/simple.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index 1fcadf6..71349f8 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -82,16 +82,18 @@ class simple_problem(composite):
         else:
             oldq = self.quadratic
 
-        solver = FISTA(self)
-        solver.composite.coefs[:] = self.coefs
-        self.solver_results = solver.fit(**fit_args)
-        self.final_step = solver.step
-
-        if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
-        else:
-            value = self.coefs
-        self.quadratic = oldq
+        try:
+            solver = FISTA(self)
+            solver.composite.coefs[:] = self.coefs
+            self.solver_results = solver.fit(**fit_args)
+            self.final_step = solver.step
+
+            if return_optimum:
+                value = (self.objective(self.coefs), self.coefs)
+            else:
+                value = self.coefs
+        finally:
+            self.quadratic = oldq
         return value
 
     
-- 
2.43.0


From e5623743469b6a75a6888f083c447388ae0a09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 40/81] fix: container uses the quadratic given to solve and
 those of its smooth atoms

---
 regreg/problems/container.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 526e7ca..ff01291 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -106,7 +106,8 @@ class container(composite):
             prox_control = prox_defaults
 
             primal_objective = zero_nonsmooth(transform.input_shape)
-            primal_objective.quadratic = proxq + self.quadratic + self.smoothq
+            proxq = proxq + self.quadratic + self.smoothq
+            primal_objective.quadratic = proxq
             dual_objective = primal_objective.conjugate
             dualp = dual_problem(dual_objective,
                                  transform,
@@ -157,17 +158,19 @@ class container(composite):
 
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
         if quadratic is not None:
-            oldq, newq = self.quadratic, self.quadratic + quadratic
+            oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
         else:
-            oldq = newq = self.quadratic
+            oldq = self.quadratic
 
-        solver = FISTA(self)
-        solver.fit(**fit_args)
+        try:
+            solver = FISTA(self)
+            solver.fit(**fit_args)
 
-        if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
-        else:
-            value = self.coefs
-        self.quadratic = oldq
+            if return_optimum:
+                value = (self.objective(self.coefs), self.coefs)
+            else:
+                value = self.coefs
+        finally:
+            self.quadratic = oldq
         return value
 
-- 
2.43.0


From 40168efaf3a91e5f3a12218215562ee9005fb798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 41/81] fix: separable honours its initial argument

---
 regreg/problems/separable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 73b2bfc..7f0a264 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -6,6 +6,8 @@ The penalty is specified by a primal shape, a sequence of atoms and
 a sequence of slicing objects.
 """
 
+from copy import copy
+
 import numpy as np
 
 from ..affine import selector
@@ -77,6 +79,8 @@ class separable(atom):
 
         if initial is None:
             self.coefs = np.zeros(shape)
+        else:
+            self.coefs = copy(initial)
 
     def latexify(self, var=None, idx=''):
         # BUG idx is unused
-- 
2.43.0


From 879bfe320076d2fc20f03ee6b952f013fb099515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 42/81] fix: separable includes its quadratic in its value and
 proximal map

---
 regreg/problems/separable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 7f0a264..dcad03a 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -133,12 +133,14 @@ class separable(atom):
                 x_group.shape = shape
             value += atom.nonsmooth_objective(x_group,
                                               check_feasibility=check_feasibility)
+        value += self.quadratic.objective(x, 'func')
         return value
 
     def proximal(self, proxq, prox_control=None):
         # This allows separable to not have every
         # coefficient penalized in a natural way
         # because this instantiates it at the prox map of the zero penalty
+        proxq = self.quadratic + proxq
         v = self.zero_atom.proximal(proxq)
         for atom, group, shape, assign_shape in zip(self.atoms,
                                                     self.groups,
-- 
2.43.0


From 9e2f4a3e82804dbe6e8fe2a969cf00f1e529046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 43/81] fix: smooth atoms start at the initial value they are
 given

---
 regreg/smooth/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 6db314c..ea3083a 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -49,7 +49,6 @@ class smooth_atom(smooth_composite):
         self.coef = coef
         if coef < 0:
             raise ValueError('coefs must be nonnegative to ensure convexity (assuming all atoms are indeed convex)')
-        self.coefs = np.zeros(self.shape)
 
     def smooth_objective(self, arg, mode='both', check_feasibility=False):
         """
-- 
2.43.0


From 7e77d1cda7725822bd15fc49e4dbc9276475e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 44/81] fix: FISTA restarts its weights every restart
 iterations

---
 regreg/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index 66ce1c1..b0aa690 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -122,7 +122,7 @@ class FISTA(algorithm):
                 if self.debug:
                     print("\tRestarting weights")
                 self.working_coefs = self.composite.coefs
-                t_old = 1.
+                self.weight_old = 1.
 
             objective_hist[itercount] = working_obj
 
-- 
2.43.0


From 8965e931b5ffd5fcd0144d2e273d2b6c24e22d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 45/81] fix: FISTA.fit(FISTA=False) takes plain gradient steps

---
 regreg/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index b0aa690..ceab405 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -176,7 +176,7 @@ class FISTA(algorithm):
                                   'decrease in objective was below tolerance')
                         break
 
-            self.update_working_coefs(proposed_coefs)
+            self.update_working_coefs(proposed_coefs, FISTA)
 
             if itercount > 1 and working_obj < proposed_obj and obj_rel_change > 1e-10 and monotonicity_restart:
                 #Adaptive restarting: restart if monotonicity violated
@@ -214,7 +214,7 @@ class FISTA(algorithm):
         if return_objective_hist:
             return objective_hist[:itercount]
 
-    def update_working_coefs(self, proposed_coefs):
+    def update_working_coefs(self, proposed_coefs, FISTA=True):
         if FISTA:
             #Use Nesterov weights
             self.weight_new = 0.5 * (1 + np.sqrt(1+4*(self.weight_old**2)))
-- 
2.43.0


From 767273e4375651e4ba15798c116cdaa50fd02a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 46/81] fix: conjugate.smooth_objective leaves the quadratic it
 was given alone

---
 regreg/problems/conjugate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/conjugate.py b/regreg/problems/conjugate.py
index e9133d8..abd58cd 100644
--- a/regreg/problems/conjugate.py
+++ b/regreg/problems/conjugate.py
@@ -60,12 +60,12 @@ class conjugate(composite):
 
         old_lin = self.conjugate_quadratic.linear_term
         new_lin = -v if old_lin is None else old_lin - v
-        self.conjugate_quadratic.linear_term = new_lin
+        quadratic = copy(self.conjugate_quadratic)
+        quadratic.linear_term = new_lin
         if isinstance(self.atom, smooth_atom):
-            minimizer = self.problem.solve(self.conjugate_quadratic, max_its=5000, **self.fit_args)
+            minimizer = self.problem.solve(quadratic, max_its=5000, **self.fit_args)
         else: # it better have a proximal method!
-            minimizer = self.atom.proximal(self.conjugate_quadratic)
-        self.conjugate_quadratic.linear_term = old_lin
+            minimizer = self.atom.proximal(quadratic)
 
         # retain a reference
         self.argmin = minimizer
-- 
2.43.0


From 8c133e92405103c8ca10a197cc1cd4008f93be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:53 +0000
Subject: [PATCH 47/81] fix: gengrad takes proximal gradient steps rather than
 solving the problem in each

---
 regreg/problems/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index 71349f8..4e5e939 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -108,7 +108,7 @@ def gengrad(simple_problem, lipschitz, tol=1.0e-8, max_its=1000, debug=False,
     while True:
         vnew, g = simple_problem.smooth_objective(coef, 'both')
         vnew += simple_problem.nonsmooth_objective(coef)
-        newcoef = simple_problem.solve(identity_quadratic(lipschitz, coef, g, 0))
+        newcoef = simple_problem.proximal(identity_quadratic(lipschitz, coef, g, 0))
         if coef_stop:
             coef_stop_check = (np.linalg.norm(coef-newcoef) <= tol * 
                                np.max([np.linalg.norm(coef),
-- 
2.43.0


From d7d1a8f55718e888b9c2e4d63f1cbcc29c7a4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 48/81] fix: container.proximal treats selectors that reshape
 or transform as general transforms

---
 regreg/problems/container.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index ff01291..deb6a16 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -92,8 +92,12 @@ class container(composite):
 
         transform, atom = self.transform, self.atom
 
-        if not (isinstance(transform, afidentity) or
-                isinstance(transform, afselector)):
+        # a selector may also reshape or transform the coordinates it selects
+        plain_selector = (isinstance(transform, afselector) and
+                          transform.reshape is None and
+                          isinstance(transform.affine_transform, afidentity))
+
+        if not (isinstance(transform, afidentity) or plain_selector):
             #Default fitting parameters
             prox_defaults = {'max_its': 5000,
                              'min_its': 5,
@@ -149,7 +153,7 @@ class container(composite):
             proxq = proxq + self.quadratic + self.smoothq
             primal = atom.conjugate
             lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
-            if isinstance(transform, afselector):
+            if plain_selector:
                 z = x - grad / lipschitz
                 z[transform.index_obj] = primal.proximal(proxq[transform.index_obj])
                 return z
-- 
2.43.0


From 8b944cb7b963e3b20aed5cc5ff2a5d20e03d4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 49/81] fix: admm_problem uses the adjoint of the transform and
 its quadratic in the loss update

---
 regreg/problems/admm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 4cf141b..1eae473 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -56,7 +56,7 @@ class admm_problem(object):
 
         self.fit_args = fit_args # for the smooth_sum FISTA run
 
-        assert (self.loss.shape == self.transform.output_shape)
+        assert (self.loss.shape == self.transform.input_shape)
 
     def update_loss_coefs(self):
         """
@@ -68,8 +68,11 @@ class admm_problem(object):
                             self.transform.affine_offset)
         if alpha is None:
             alpha = 0
-        linear_term = self.linear_transform.dot(y - rho * (z - alpha))
-        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
+        linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
+        Q = identity_quadratic(0, 0, linear_term, 0)
+        if self.quadratic is not None:
+            Q = Q + self.quadratic
+        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=Q,
                                                        **self.fit_args)
 
     def update_atom_coefs(self):
-- 
2.43.0


From f09719a405406b1314d01ed99ac51fe5535851ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 50/81] fix: quasi_newton includes the quadratic of the smooth
 atom in its inner problem

---
 regreg/problems/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index 618cd0f..354888d 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -247,7 +247,7 @@ class quasi_newton(object):
         # warm start the subproblem
         self.quadratic_problem.coefs[:] = self.coefs 
 
-        quad_soln = self.quadratic_problem.solve(quad + self.quadratic,
+        quad_soln = self.quadratic_problem.solve(quad + self.smooth_atom.quadratic + self.quadratic,
                                                  **fit_args)
         direction = quad_soln - self.coefs
         return direction, grad, quad_soln 
-- 
2.43.0


From ab365abfcb2736102cfedcb2bcf5b6d1d25fca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 51/81] fix: dual_problem.solve uses its quadratic and
 evaluates the dual objective at the dual solution

---
 regreg/problems/dual_problem.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/regreg/problems/dual_problem.py b/regreg/problems/dual_problem.py
index afefb88..b2d0932 100644
--- a/regreg/problems/dual_problem.py
+++ b/regreg/problems/dual_problem.py
@@ -79,11 +79,18 @@ class dual_problem(composite):
         return self.atom.proximal(proxq, prox_control=prox_control)
 
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
-        solver = FISTA(self)
-        solver.fit(**fit_args)
-        if return_optimum:
-            return self.objective(self.primal), self.primal
-        return self.primal
+        oldq = self.atom.quadratic
+        if quadratic is not None:
+            self.atom.quadratic = oldq + quadratic
+        try:
+            solver = FISTA(self)
+            solver.fit(**fit_args)
+            if return_optimum:
+                # the objective is a function of the dual variables
+                return self.objective(self.coefs), self.primal
+            return self.primal
+        finally:
+            self.atom.quadratic = oldq
 
     def latexify(self, var=None):
         template_dict = self.objective_vars.copy()
-- 
2.43.0


From e15b368eb0016cef519518fcc4889bb4583a8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 52/81] fix: copies of seminorms, linear constraints and
 simplex atoms keep their coefs

---
 regreg/atoms/linear_constraints.py | 3 ++-
 regreg/atoms/seminorms.py          | 3 ++-
 regreg/atoms/simplex.py            | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index dd2c943..1b49e2c 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -55,7 +55,8 @@ class linear_constraint(cone):
         return self.__class__(copy(self.shape),
                               self.basis.copy(),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=self.quadratic,
+                              initial=copy(self.coefs))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 205bdc7..16744d5 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -138,7 +138,8 @@ class seminorm(atom):
                               bound=copy(self.bound),
                               lagrange=copy(self.lagrange),
                               offset=copy(self.offset),
-                              quadratic=copy(self.quadratic))
+                              quadratic=copy(self.quadratic),
+                              initial=copy(self.coefs))
 
     def __repr__(self):
         if self.lagrange is not None:
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 4e810ad..474203f 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -29,7 +29,8 @@ class simplex_constraint(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=self.quadratic,
+                              initial=copy(self.coefs))
     
     def __repr__(self):
         if self.quadratic.iszero:
@@ -163,7 +164,8 @@ class maximum(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=self.quadratic,
+                              initial=copy(self.coefs))
     
     def __repr__(self):
         if self.quadratic.iszero:
-- 
2.43.0


From 055f3df79cb92cc2cae263e71d3fbb7fa4e7b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 53/81] fix: block_sum and block_max can be copied

---
 regreg/atoms/block_norms.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 713c977..859e9c3 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -6,6 +6,7 @@ l1/l*, linf/l* norms. These are used in multiresponse LASSOs.
 from __future__ import print_function, division, absolute_import
 
 import warnings
+from copy import copy
 
 import numpy as np
 
@@ -51,6 +52,18 @@ class block_sum(seminorms.seminorm):
                              offset=None,
                              quadratic=quadratic)
 
+    def __copy__(self):
+        if self.__class__ not in (block_sum, block_max):
+            # the atom is determined by the class
+            return seminorms.seminorm.__copy__(self)
+        return self.__class__(self.atom.__class__,
+                              copy(self.shape),
+                              lagrange=copy(self.lagrange),
+                              bound=copy(self.bound),
+                              offset=copy(self.offset),
+                              quadratic=copy(self.quadratic),
+                              initial=copy(self.coefs))
+
     @doc_template_user
     @doc_template_provider
     def seminorms(self, x, lagrange=None, check_feasibility=False):
-- 
2.43.0


From 04746db75964ccc68e7c2f89fa7432d0d968d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 54/81] fix: factored norms keep initial, rank and warm start
 when copied, and accept wide matrices

---
 regreg/affine/factored_matrix.py | 36 ++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index d163e22..1c6a616 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -6,6 +6,8 @@ problems.
 """
 from __future__ import print_function, division, absolute_import
 
+from copy import copy
+
 import numpy as np
 
 from ..affine import affine_sum, astransform, adjoint
@@ -387,7 +389,7 @@ class nuclear_norm(nuclear_norm_atom):
                                    bound=bound,
                                    offset=offset,
                                    quadratic=quadratic,
-                                   initial=0)
+                                   initial=0 if initial is None else initial)
 
         self.initial_rank = initial_rank
         # the warm start should be of whichever side has largest
@@ -398,7 +400,17 @@ class nuclear_norm(nuclear_norm_atom):
         else:
             self.warm_start = warm_start
             if warm_start.shape != (m, self.initial_rank):
-                raise ValueError('expecting warm_start to have shape %s' % (m, self.initial_rank))
+                raise ValueError('expecting warm_start to have shape %s' % repr((m, self.initial_rank)))
+
+    def __copy__(self):
+        return self.__class__(copy(self.shape),
+                              lagrange=copy(self.lagrange),
+                              bound=copy(self.bound),
+                              offset=copy(self.offset),
+                              quadratic=copy(self.quadratic),
+                              initial=copy(self.coefs),
+                              initial_rank=self.initial_rank,
+                              warm_start=copy(self.warm_start))
 
     @doc_template_user
     def seminorm(self, X, check_feasibility=False,
@@ -508,15 +520,17 @@ class operator_norm(operator_norm_atom):
                                     bound=bound,
                                     offset=offset,
                                     quadratic=quadratic,
-                                    initial=0)
+                                    initial=0 if initial is None else initial)
 
         self.initial_rank = initial_rank
+        # same shape as the warm start of the nuclear norm
+        m = max(self.shape)
         if warm_start is None:
-            self.warm_start = np.random.standard_normal((self.shape[0], self.initial_rank))
+            self.warm_start = np.random.standard_normal((m, self.initial_rank))
         else:
             self.warm_start = warm_start
-            if warm_start.shape != (self.shape[0], self.initial_rank):
-                raise ValueError('expecting warm_start to have shape %s' % (self.shape[0], self.initial_rank))
+            if warm_start.shape != (m, self.initial_rank):
+                raise ValueError('expecting warm_start to have shape %s' % repr((m, self.initial_rank)))
 
         self._nuclear_atom = nuclear_norm(shape,
                                           lagrange=lagrange,
@@ -525,6 +539,16 @@ class operator_norm(operator_norm_atom):
                                           initial_rank=initial_rank,
                                           warm_start=self.warm_start)
 
+    def __copy__(self):
+        return self.__class__(copy(self.shape),
+                              lagrange=copy(self.lagrange),
+                              bound=copy(self.bound),
+                              offset=copy(self.offset),
+                              quadratic=copy(self.quadratic),
+                              initial=copy(self.coefs),
+                              initial_rank=self.initial_rank,
+                              warm_start=copy(self.warm_start))
+
     @doc_template_user
     def seminorm(self, X, check_feasibility=False,
                  lagrange=None):
-- 
2.43.0


From 5ca6c71c0506b5f9af1eaa53631d24f1521a1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 55/81] fix: factored nuclear norm prox divides its threshold
 by lipschitz

---
 regreg/affine/factored_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index 1c6a616..33d5743 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -424,6 +424,7 @@ class nuclear_norm(nuclear_norm_atom):
     @doc_template_user
     def lagrange_prox(self, X,  lipschitz=1, lagrange=None):
         lagrange = svd_atom.lagrange_prox(self, X, lipschitz, lagrange)
+        lagrange = lagrange / lipschitz
 
         def soft_threshold_rule(L):
             return lambda D: np.fabs(D).min() <= L
-- 
2.43.0


From b52f592c967657dcd02607bcdc0d2ea6ceb0df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 56/81] fix: copies of huber_loss and huber_svm keep their case
 weights

---
 regreg/smooth/binary.py | 3 ++-
 regreg/smooth/glm.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index b870252..80bcd6b 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -918,7 +918,8 @@ class huber_svm(smooth_atom):
                          coef=self.coef,
                          offset=copy(self.offset),
                          quadratic=copy(self.quadratic),
-                         initial=copy(self.coefs))
+                         initial=copy(self.coefs),
+                         case_weights=copy(self.case_weights))
     
     # End loss API
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index c40a283..2732c03 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1380,7 +1380,8 @@ class huber_loss(smooth_atom):
                           coef=self.coef,
                           offset=copy(self.offset),
                           quadratic=copy(self.quadratic),
-                          initial=copy(self.coefs))
+                          initial=copy(self.coefs),
+                          case_weights=copy(self.case_weights))
 
     # End loss API
 
-- 
2.43.0


From cdfd27ed462455117b738a871725d47344458f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 57/81] fix: copies of binary and poisson losses do not add the
 deviance constant again

---
 regreg/smooth/binary.py | 54 +++++++++++++++++++++++------------------
 regreg/smooth/glm.py    | 16 ++++++------
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 80bcd6b..cf14456 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -217,14 +217,16 @@ class logistic_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return logistic_loglike(self.shape,
-                                copy(successes),
-                                trials=copy(trials),
-                                coef=self.coef,
-                                offset=copy(self.offset),
-                                quadratic=copy(self.quadratic),
-                                initial=copy(self.coefs),
-                                case_weights=copy(self.case_weights))
+        value = logistic_loglike(self.shape,
+                                 copy(successes),
+                                 trials=copy(trials),
+                                 coef=self.coef,
+                                 offset=copy(self.offset),
+                                 initial=copy(self.coefs),
+                                 case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant, already in self.quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
 
     def subsample(self, case_idx):
         """
@@ -458,14 +460,16 @@ class probit_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return probit_loglike(self.shape,
-                              copy(successes),
-                              trials=copy(trials),
-                              coef=self.coef,
-                              offset=copy(self.offset),
-                              quadratic=copy(self.quadratic),
-                              initial=copy(self.coefs),
-                              case_weights=copy(self.case_weights))
+        value = probit_loglike(self.shape,
+                               copy(successes),
+                               trials=copy(trials),
+                               coef=self.coef,
+                               offset=copy(self.offset),
+                               initial=copy(self.coefs),
+                               case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant, already in self.quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
 
     def subsample(self, case_idx):
         """
@@ -703,14 +707,16 @@ class cloglog_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return cloglog_loglike(self.shape,
-                               copy(successes),
-                               trials=copy(trials),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        value = cloglog_loglike(self.shape,
+                                copy(successes),
+                                trials=copy(trials),
+                                coef=self.coef,
+                                offset=copy(self.offset),
+                                initial=copy(self.coefs),
+                                case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant, already in self.quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
 
     def subsample(self, case_idx):
         """
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 2732c03..e491be4 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1165,13 +1165,15 @@ class poisson_loglike(smooth_atom):
 
     def __copy__(self):
         counts = self.data
-        return poisson_loglike(self.shape,
-                               copy(counts),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        value = poisson_loglike(self.shape,
+                                copy(counts),
+                                coef=self.coef,
+                                offset=copy(self.offset),
+                                initial=copy(self.coefs),
+                                case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant, already in self.quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
 
     def subsample(self, case_idx):
         """
-- 
2.43.0


From 136fe8a9eea4df19752d7515dead0ad886d2ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 58/81] fix: multinomial losses have copies of their own, so
 that subsampling leaves the original alone

---
 regreg/smooth/mglm.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 8ca747a..7e79d2c 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -843,6 +843,17 @@ class multinomial_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        value = multinomial_loglike(self.shape,
+                                    copy(self.counts),
+                                    coef=self.coef,
+                                    offset=copy(self.offset),
+                                    initial=copy(self.coefs),
+                                    case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant, already in self.quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
@@ -992,6 +1003,17 @@ class multinomial_baseline_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        value = multinomial_baseline_loglike(self.shape,
+                                             copy(self.counts),
+                                             coef=self.coef,
+                                             offset=copy(self.offset),
+                                             initial=copy(self.coefs),
+                                             case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant, already in self.quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
-- 
2.43.0


From 6c0a5ec78ae5e2d1a7d141e53c670442ec9fb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 59/81] fix: replacing the data of a cox_loglike updates its
 event order and ranks

---
 regreg/smooth/cox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index cfe12bc..9b5a937 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -35,10 +35,6 @@ class cox_loglike(smooth_atom):
 
         self.data = np.asarray([event_times, censoring]).T
 
-        self._ordering = np.argsort(self.event_times).astype(np.intp)
-        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
-        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
-
         if case_weights is not None:
             case_weights = np.asarray(case_weights).astype(float)
             if not np.all(case_weights >= 0):
@@ -203,6 +199,10 @@ class cox_loglike(smooth_atom):
         self.event_times, self.censoring = (np.asarray(event_times),
                                             np.asarray(censoring).astype(np.intp))
 
+        self._ordering = np.argsort(self.event_times).astype(np.intp)
+        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
+        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
+
     data = property(get_data, set_data)
 
     def __copy__(self):
-- 
2.43.0


From 8af239b2fff591841f3e6393d0ae78f7b299852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 60/81] fix: replacing the data of a multinomial loss replaces
 the counts it evaluates

---
 regreg/smooth/mglm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 7e79d2c..4071cc9 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -800,6 +800,7 @@ class multinomial_loglike(smooth_atom):
 
     def set_data(self, data):
         self._data = data
+        self.counts, self.trials = data
 
     data = property(get_data, set_data)
 
@@ -920,8 +921,6 @@ class multinomial_baseline_loglike(smooth_atom):
             self.counts = counts
 
         self.J = self.counts.shape[1]
-        #Select the counts for the first J-1 categories
-        self.firstcounts = self.counts[:,range(self.J-1)]
 
         if not np.allclose(np.round(self.counts),self.counts):
             raise ValueError("Counts vector is not integer valued")
@@ -957,6 +956,9 @@ class multinomial_baseline_loglike(smooth_atom):
 
     def set_data(self, data):
         self._data = data
+        self.counts, self.trials = data
+        #Select the counts for the first J-1 categories
+        self.firstcounts = self.counts[:,range(self.J-1)]
 
     data = property(get_data, set_data)
 
-- 
2.43.0


From 09660896cdca29afcf67b5abe672d9d2c009a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 61/81] fix: replacing the data of stacked losses reaches the
 losses they stack, of which copies have their own

---
 regreg/smooth/glm.py  | 8 +++++---
 regreg/smooth/mglm.py | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index e491be4..4752ed0 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1425,9 +1425,9 @@ class stacked_loglike(smooth_atom):
         shapes = [r.shape for r in responses]
         dims = np.array([len(s) for s in shapes])
         if np.all(dims == 1):
-            self.data = np.hstack(responses)
+            self._data = np.hstack(responses)
         elif np.all(dims == 2):
-            self.data = np.vstack(responses)
+            self._data = np.vstack(responses)
         else:
             raise ValueError('expecting either 1 or dimensional data for saturated losses')
 
@@ -1513,11 +1513,13 @@ class stacked_loglike(smooth_atom):
 
     def set_data(self, data):
         self._data = data
+        for loss, slice in zip(self._losses, self._slices):
+            loss.data = data[slice]
 
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_loglike(copy(self._losses),
+        return stacked_loglike([copy(loss) for loss in self._losses],
                                coef=self.coef,
                                offset=copy(self.offset),
                                quadratic=copy(self.quadratic),
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 4071cc9..f794dd3 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -294,7 +294,7 @@ class stacked_common_loglike(smooth_atom):
                              coef=coef)
 
         assert(np.all([l.shape == losses[0].shape for l in losses]))
-        self.data = np.array([l.data for l in losses]).T
+        self._data = np.array([l.data for l in losses]).T
 
         self._losses = losses
         self._gradient = np.zeros(self.shape)
@@ -378,11 +378,13 @@ class stacked_common_loglike(smooth_atom):
 
     def set_data(self, data):
         self._data = data
+        for i, loss in enumerate(self._losses):
+            loss.data = data[..., i].T
 
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_common_loglike(copy(self._losses),
+        return stacked_common_loglike([copy(loss) for loss in self._losses],
                                       coef=self.coef,
                                       offset=copy(self.offset),
                                       quadratic=copy(self.quadratic),
-- 
2.43.0


From 25799d0523febcb5d9aedb233c5c2963a1737645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 62/81] fix: poisson_loglike's constant makes its objective
 zero at the saturated fit

---
 regreg/smooth/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 4752ed0..074924a 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1051,8 +1051,8 @@ class poisson_loglike(smooth_atom):
             raise ValueError("Counts vector is not non-negative")
 
         saturated = counts
-        loss_terms = - coef * ((counts - 1) * np.log(counts))
-        loss_terms[counts == 0] = 0
+        loss_terms = self.counts * np.log(self.counts) - self.counts
+        loss_terms[self.counts == 0] = 0
 
         loss_constant = - coef * loss_terms.sum()
 
-- 
2.43.0


From 8c9f8015f324fc9e115e2c418e6c3fff1535be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 63/81] fix: warm_start leaves the solve_args it is given (and
 its shared default) unchanged

---
 regreg/paths/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index f1ace48..ce4ed8e 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -404,6 +404,7 @@ def warm_start(path_obj,
 
         problem = simple_problem(total_loss, penalty)
         problem.coefs[:] = solution
+        solve_args = dict(solve_args)
         solve_args['tol'] = inner_tol
         solve_args['start_step'] = path_obj.final_step
         solution = problem.solve(**solve_args)
-- 
2.43.0


From 2ad9e24ec478ab076d1ca35d07f9e1f062cb88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 64/81] fix: basil leaves the gradient of the initial data it
 is given unchanged

---
 regreg/paths/basil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 0fc2327..66c6cb4 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -116,7 +116,8 @@ def basil(path_obj,
 
     lagrange_solved, solutions, candidate_set = [np.inf], [], []
 
-    cur_data = initial_data
+    # basil_inner_loop updates the gradient in place
+    cur_data = tuple([np.array(d) for d in initial_data])
 
     while True:
         
-- 
2.43.0


From 163788f3910557cfb00be24ae3dfa653eac6a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 65/81] fix: paths with a shared design leave the shape of a
 transform they are given unchanged

---
 regreg/paths/sparse_group_block.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 19ce37b..f9e0ce2 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -47,6 +47,8 @@ class sparse_group_common_path(group_lasso_path):
         self.saturated_loss = saturated_loss
         self._X = np.asarray(X)
         self.X = astransform(X)
+        if self.X is X:
+            self.X = copy(X) # its shapes are changed below
         self.X.output_shape = self.saturated_loss.shape
         if len(self.X.input_shape) == 1:                         # assumes X is matrix like, 
             self.X.input_shape = (self.X.input_shape +           # but its output should be same shape
-- 
2.43.0


From 872d63e6891a857d7c3bf41e66708a36a9742120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 66/81] fix: the projection of group_lasso_dual is an array of
 its own, not the buffer its next call overwrites

---
 regreg/atoms/group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index dfaf1b4..898b532 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -376,7 +376,7 @@ class group_lasso_dual(group_lasso):
                                            self._weight_array,
                                            self._norms_cython,
                                            self._factors_cython,
-                                           self._projection_cython)
+                                           self._projection_cython).copy()
 
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
-- 
2.43.0


From c5236372a3bbbdd9c50a66ef59db4bbeb8058f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 67/81] fix: the projection of mixed_lasso_dual is an array of
 its own, not the buffer its next call overwrites

---
 regreg/atoms/mixed_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 0f9b969..c3d5267 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -396,7 +396,7 @@ class mixed_lasso_dual(mixed_lasso):
                                           self._weight_array,
                                           self._norms_cython,
                                           self._factors_cython,
-                                          self._projection_cython)
+                                          self._projection_cython).copy()
 
         if offset is None:
             return eta
-- 
2.43.0


From b5a3e42fb0d225155e650eb17fbfb1c64812c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 68/81] fix: basil_inner_loop leaves the gradient of the
 initial data it is given unchanged

---
 regreg/paths/basil.py | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 66c6cb4..679acd0 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -4,13 +4,24 @@ from ..affine import power_L
 def basil_inner_loop(path_obj,
                      lagrange_subseq,
                      initial_data, # (solution, grad) pair
-                     inner_tol=1.e-5,
-                     verbose=False,
-                     initial_step=None,
-                     check_active=False,
-                     step_nvar=50,
-                     candidate_set=None,
-                     solve_args={}):
+                     *args,
+                     **keyword_args):
+    return _inner_loop(path_obj,
+                       lagrange_subseq,
+                       tuple([np.array(d) for d in initial_data]),
+                       *args,
+                       **keyword_args)
+
+def _inner_loop(path_obj,
+                lagrange_subseq,
+                initial_data, # (solution, grad) pair, gradient is updated in place
+                inner_tol=1.e-5,
+                verbose=False,
+                initial_step=None,
+                check_active=False,
+                step_nvar=50,
+                candidate_set=None,
+                solve_args={}):
 
     debug = True
     coef_stop = False
@@ -116,7 +127,7 @@ def basil(path_obj,
 
     lagrange_solved, solutions, candidate_set = [np.inf], [], []
 
-    # basil_inner_loop updates the gradient in place
+    # _inner_loop updates the gradient in place
     cur_data = tuple([np.array(d) for d in initial_data])
 
     while True:
@@ -128,13 +139,13 @@ def basil(path_obj,
             (lagrange_incr, 
              solution_incr, 
              last_grad,
-             candidate_set) = basil_inner_loop(path_obj,
-                                               lagrange_cand,
-                                               cur_data,
-                                               inner_tol=inner_tol,
-                                               step_nvar=step_nvar,
-                                               candidate_set=candidate_set,
-                                               solve_args=solve_args)
+             candidate_set) = _inner_loop(path_obj,
+                                          lagrange_cand,
+                                          cur_data,
+                                          inner_tol=inner_tol,
+                                          step_nvar=step_nvar,
+                                          candidate_set=candidate_set,
+                                          solve_args=solve_args)
             if len(solution_incr) > 0:
                 cur_soln = (solution_incr[-1], last_grad)
 
-- 
2.43.0


From b7133fb5ddc35b58190fd4100974dbea38720928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 69/81] fix: squared_error and signal_approximator no longer
 rename the offset of every quadratic_loss

---
 regreg/smooth/quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index 7b89ef1..7ef8f59 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -254,7 +254,7 @@ def squared_error(X, Y, coef=1):
 
     """
     atom = quadratic_loss.affine(X, -Y, coef=coef)
-    atom.atom.objective_vars['offset'] = 'Y'
+    atom.atom.objective_vars = dict(atom.atom.objective_vars, offset='Y')
     atom.atom.objective_template = r"""\frac{%(coef)s}{2}\left\|%(var)s\right\|^2_2"""
     return atom
 
@@ -268,7 +268,7 @@ def signal_approximator(signal, coef=1):
 
     """
     atom = quadratic_loss.shift(signal, coef=coef)    
-    atom.objective_vars['offset'] = 'Y'
+    atom.objective_vars = dict(atom.objective_vars, offset='Y')
     atom.objective_template = r"""\frac{%(coef)s}{2}\left\|%(var)s\right\|^2_2"""
     return atom
 
-- 
2.43.0


From 6db248e94d373acdee92beae8389a7dc52db2beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 70/81] fix: cox_loglike stays finite when the last cases at
 risk have weight zero

---
 regreg/smooth/cox_fns.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/cox_fns.c b/regreg/smooth/cox_fns.c
index 3ac752a..130c457 100644
--- a/regreg/smooth/cox_fns.c
+++ b/regreg/smooth/cox_fns.c
@@ -98,7 +98,10 @@ void _update_outer_1st(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight / *exp_accum;
+    // a case with weight 0 contributes nothing, though its accumulation may be 0
+    if (censoring * case_weight > 0) {
+      cur_val = cur_val + censoring * case_weight / *exp_accum;
+    }
     outer_1st_accum = ((double *) outer_1st_accum_ptr + idx);
     *outer_1st_accum = cur_val;
   }
@@ -134,7 +137,9 @@ void _update_outer_2nd(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    if (censoring * case_weight > 0) {
+      cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    }
     outer_2nd_accum = ((double *) outer_2nd_accum_ptr + idx);
     *outer_2nd_accum = cur_val;
   }
@@ -169,7 +174,9 @@ double _cox_objective(double *linear_pred_ptr,     /* Linear term in objective *
     censoring = *((size_t *) censoring_ptr + idx);
     case_weight = *((double *) case_weight_ptr + idx);
     linear_pred = *((double *) linear_pred_ptr + idx);
-    cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    if (censoring * case_weight > 0) {
+      cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    }
   }
 
   return(cur_val);
-- 
2.43.0


From f8a03080b0f00c3a2029693084a8ad253e9b81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 71/81] fix: sparse_group_lasso_path scales the elastic net of
 penalized coordinates by the Lagrange parameter

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index ed1334b..fee1cfd 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -66,7 +66,7 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self._unpenalized_vars = _candidate_bool(self.penalty.groups, 
                                                  unpenalized_groups)
-        self._penalized_vars = np.zeros(self.shape, np.bool)
+        self._penalized_vars = np.ones(self.shape, np.bool)
         self._penalized_vars[self._unpenalized_vars] = 0
 
         if np.any(unpenalized_idx):
-- 
2.43.0


From 728898f39fed4f2fa15923be0913272416ce69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 72/81] fix: sparse_group_lasso_path finds the groups with
 unpenalized coordinates

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index fee1cfd..c2b78e2 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -111,7 +111,7 @@ class sparse_group_lasso_path(group_lasso_path):
             self._unpen_groups = []
             self._unpen_group_idx = np.zeros(self.group_shape, np.bool)
             for i, g in enumerate(self.penalty._sorted_groupids):
-                unpen_group = (self.penalty.weights[g] == 0 +
+                unpen_group = (self.penalty.weights[g] == 0 and
                                np.any(self.penalty.lasso_weights[self.penalty.groups == g]
                                       == 0))
                 self._unpen_group_idx[i] = unpen_group
-- 
2.43.0


From b219babeb3e0ed37c4482a4f60b81e2d7c923743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 73/81] fix: sparse_group_lasso_path.subsample does not mix the
 l1 and l2 weights a second time

---
 regreg/paths/sparse_group_lasso.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index c2b78e2..f7c2da8 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -44,6 +44,9 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self.alpha = alpha
         self.penalty = sparse_group_lasso(groups, lasso_weights, weights=weights, lagrange=1)
+        # weights before mixing by l1_alpha, used in subsample
+        self._unmixed_weights = (self.penalty.lasso_weights,
+                                 copy(self.penalty.weights))
         l2_weight = 1 - l1_alpha
         for g in self.penalty.weights.keys():
             self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
@@ -148,11 +151,12 @@ class sparse_group_lasso_path(group_lasso_path):
 
         '''
         subsample_loss = self.saturated_loss.subsample(case_idx)
+        lasso_weights, weights = self._unmixed_weights
         return self.__class__(subsample_loss,
                               self.X,
                               self.penalty.groups,
-                              self.penalty.lasso_weights,
-                              weights=self.penalty.weights,
+                              lasso_weights,
+                              weights=weights,
                               elastic_net_param=self.elastic_net_param,
                               alpha=self.alpha,
                               l1_alpha=self.l1_alpha)
-- 
2.43.0


From 1bebfc9069dc3ba004fa444a4238e93debe0402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 74/81] fix: check_KKT of sparse_group_common_path ranks the
 inactive groups

---
 regreg/paths/sparse_group_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index f9e0ce2..869a299 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -574,7 +574,7 @@ def _check_KKT(grad,
                                                           l1_weight,
                                                           l2_weight)[0] / lagrange
 
-    inactive_ranks = inactive_results.shape[0] - np.argsort(inactive_results)
+    inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
 
     return active_results, inactive_ranks
-- 
2.43.0


From 98e52923d8b0053cb93ad3b0b6972f6e7aa04f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 75/81] fix: sparse_group_lasso_path check_KKT has a tolerance
 for unpenalized groups

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index f7c2da8..fffef75 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -419,7 +419,7 @@ def _check_KKT(sglasso,
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
         else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * l1weight_g.mean()) * UNPENALIZED
+            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sglasso.lasso_weights.mean()) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
-- 
2.43.0


From a45e6dae7b4ce4ed2858fa57d5079a8cd40fc766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 76/81] fix: mixed lasso kernels pass the sizes of l1
 coordinates to the threshold search

---
 regreg/atoms/mixed_lasso_cython.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index d96d53f..4554725 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -343,7 +343,7 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
     for j in range(q):
         norms[j] = np.sqrt(norms[j])
     
-    cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = prox_center[l1_penalty]
+    cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = np.fabs(prox_center[l1_penalty])
     l1term = l1term[l1term != 0]
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] ppterm = prox_center[positive_part]
@@ -407,7 +407,7 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
     for j in range(q):
         norms[j] = np.sqrt(norms[j])
     
-    cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = x[l1_penalty]
+    cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = np.fabs(x[l1_penalty])
     l1term = l1term[l1term != 0]
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] ppterm = x[positive_part]
-- 
2.43.0


From 3e49a353dd8f642cafa4f43d6e24fcc787cd68b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 77/81] fix: mixed lasso kernels clip l1 coordinates without
 dividing by their size

---
 regreg/atoms/mixed_lasso_cython.pyx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index 4554725..52b89d4 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -47,9 +47,7 @@ def mixed_lasso_lagrange_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = (prox_center[l1_penalty] * 
-                              np.minimum(1, implied_bound / 
-                                         np.fabs(prox_center[l1_penalty])))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -implied_bound, implied_bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(implied_bound, 
                                            prox_center[positive_part])
@@ -87,7 +85,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1, bound / np.fabs(prox_center[l1_penalty]))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -bound, bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
@@ -370,7 +368,7 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
             if groups[i] >= 0:
                 projection[i] = prox_center[i] * factors[groups[i]]
 
-        projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1., cut / np.fabs(prox_center[l1_penalty]))
+        projection[l1_penalty] = np.clip(prox_center[l1_penalty], -cut, cut)
         projection[unpenalized] = 0
         projection[positive_part] = np.minimum(cut, prox_center[positive_part])
         projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
@@ -437,7 +435,7 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
                 if groups[i] >= 0:
                     projection[i] = x[i] * factors[groups[i]]
 
-            projection[l1_penalty] = x[l1_penalty] * np.minimum(1., cut / np.fabs(x[l1_penalty]))
+            projection[l1_penalty] = np.clip(x[l1_penalty], -cut, cut)
             projection[unpenalized] = 0
             projection[positive_part] = np.minimum(cut, x[positive_part])
             projection[nonnegative] = np.minimum(x[nonnegative], 0)
-- 
2.43.0


From ef4b745220e9818ac96da9ad386ee63b75bcf2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 78/81] fix: seminorm_mixed_lasso accepts feasible nonnegative
 coordinates

---
 regreg/atoms/mixed_lasso_cython.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index 52b89d4..d672741 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -124,10 +124,10 @@ def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     tol = 1.e-5
     if check_feasibility:
         xpos = x[positive_part]
-        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < tol:
+        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < -tol:
             value = np.inf
         xnn = x[nonnegative]
-        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < nntol:
+        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < -nntol:
             value = np.inf
 
     return value
-- 
2.43.0


From ce2b2df189fdc064b8a64b5b49bf5f5371caab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 79/81] fix: group_lasso_dual reports groups of weight zero
 that are not zero

---
 regreg/atoms/group_lasso.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 898b532..2b7a816 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -257,7 +257,9 @@ class group_lasso(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        inball = self.seminorm(arg, lagrange=1) <= bound * (1 + self.tol)
+        inball = self.seminorm(arg, 
+                               lagrange=1,
+                               check_feasibility=True) <= bound * (1 + self.tol)
         if inball:
             return 0
         else:
@@ -354,7 +356,7 @@ class group_lasso_dual(group_lasso):
                                                     self._group_array,
                                                     self._weight_array,
                                                     self._norms_cython,
-                                                    False)
+                                                    check_feasibility=check_feasibility)
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
@@ -510,7 +512,9 @@ class group_lasso_cone(cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * arg[-1]
+        incone = self.snorm.seminorm(arg[:-1], 
+                                     lagrange=1,
+                                     check_feasibility=True) <= (1 + self.tol) * arg[-1]
         if incone:
             return 0
         return np.inf
@@ -604,7 +608,9 @@ class group_lasso_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (-arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], 
+                                     lagrange=1,
+                                     check_feasibility=True) <= (1 + self.tol) * (-arg[-1])
         if incone:
             return 0
         return np.inf
@@ -661,7 +667,9 @@ class group_lasso_dual_epigraph(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], 
+                                     lagrange=1,
+                                     check_feasibility=True) <= (1 + self.tol) * (arg[-1])
         if incone:
             return 0
         return np.inf
@@ -719,7 +727,9 @@ class group_lasso_dual_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (-arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], 
+                                     lagrange=1,
+                                     check_feasibility=True) <= (1 + self.tol) * (-arg[-1])
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From a4a5cfda1337f9d4883a5fc79b8c245639b1583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 80/81] fix: mixed_lasso values subtract the offset once and
 constraints return 0 or inf

---
 regreg/atoms/mixed_lasso.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index c3d5267..ddea3a6 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -152,8 +152,9 @@ class mixed_lasso(atom):
         """
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        if self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol):
+            return 0
+        return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -162,12 +163,11 @@ class mixed_lasso(atom):
         return v
 
     def seminorm(self, x, check_feasibility=False):
-        x_offset = self.apply_offset(x)
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso(x_offset,
+        v = seminorm_mixed_lasso(x,
                                  self._l1_penalty,
                                  self._unpenalized,
                                  self._positive_part,
@@ -326,8 +326,9 @@ class mixed_lasso_dual(mixed_lasso):
     def constraint(self, x, bound=None):
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        if self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol):
+            return 0
+        return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -339,21 +340,20 @@ class mixed_lasso_dual(mixed_lasso):
         return v
 
     def seminorm(self, x, lagrange=1, check_feasibility=False):
-        x_offset = self.apply_offset(x)
-
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso_dual(x_offset, 
+        v = seminorm_mixed_lasso_dual(x, 
                                       self._l1_penalty,
                                       self._unpenalized,
                                       self._positive_part,
                                       self._nonnegative,
                                       self._groups,
                                       self._weight_array,
-                                      self._norms_cython)
-        return v 
+                                      self._norms_cython,
+                                      check_feasibility=check_feasibility)
+        return v * lagrange
 
     def proximal(self, proxq, prox_control=None):
         r"""
-- 
2.43.0


From 855a7f9a1cc6888b2b407685735fc2053c2adacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 81/81] fix: find_solution_piecewise_linear ignores terms of
 weight zero

---
 regreg/atoms/piecewise_linear.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/piecewise_linear.pyx b/regreg/atoms/piecewise_linear.pyx
index f16e181..533c7e7 100644
--- a/regreg/atoms/piecewise_linear.pyx
+++ b/regreg/atoms/piecewise_linear.pyx
@@ -43,7 +43,11 @@ def find_solution_piecewise_linear(DTYPE_float_t b,
     if (weights * norms).sum() < b:
         return 0
 
-    cdef cnp.ndarray[DTYPE_float_t, ndim=1] knots = norms / np.maximum(weights, 1e-20)
+    # terms of weight 0 do not contribute to f, a knot far away
+    # would cancel the others
+    cdef cnp.ndarray[DTYPE_float_t, ndim=1] knots = np.where(weights > 0, 
+                                                             norms / np.maximum(weights, 1e-20),
+                                                             0)
     cdef cnp.ndarray[DTYPE_intp_t, ndim=1] order = np.argsort(knots)
 
     slope = - slope # move the linear piece to the LHS
-- 
2.43.0

