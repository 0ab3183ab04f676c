From 2cba06e38b39419b0c8e78472ec1bf7f55294e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 01/42] fix: RBF kernel lengthscale gradient was twice the
 derivative

---
 src/lop/kernels/RBF_kern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5136842..3b0c402 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -145,7 +145,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
         # if N == N:
         #     dSigma_noise = np.eye(N)
         # else:
@@ -161,7 +161,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
 
         return np.array([dSigma, dl])
 
-- 
2.43.0


From 765f4c2757fa69db984aaa38ac0c5fb7e7f86107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 02/42] fix: periodic kernel hyper-parameter gradients did not
 match its covariance

---
 src/lop/kernels/PeriodicKern.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/lop/kernels/PeriodicKern.py b/src/lop/kernels/PeriodicKern.py
index 12b63c8..3a559a2 100644
--- a/src/lop/kernels/PeriodicKern.py
+++ b/src/lop/kernels/PeriodicKern.py
@@ -147,20 +147,17 @@ class PeriodicKern(KernelFunc):
 
         X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)
         Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)
-        diff = X_expanded - Y_expanded
-        top = np.sum(diff*diff, axis=2)
-
-        exp_x = np.exp(-top / (2 * self.l*self.l))
-
         diff = X_expanded - Y_expanded
         uv_norm = np.sum(np.abs(diff), axis=2)
-        
+
+        sin_tmp = np.sin(np.pi*uv_norm / self.p)
         cos_tmp = np.cos(np.pi*uv_norm / self.p)
-        
+        exp_x = np.exp(-2 * sin_tmp * sin_tmp / (self.l*self.l))
+
         dSigma = 2 * self.sigma * exp_x
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
-            cos_tmp / (self.l*self.l * self.p*self.p)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+            sin_tmp * cos_tmp / (self.l*self.l * self.p*self.p)
 
         return dSigma, dl, dp
 
@@ -173,10 +170,10 @@ class PeriodicKern(KernelFunc):
 
         dSigma = 2 * self.sigma * exp_x
 
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
 
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
-            np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+            sin_tmp * np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
 
         return np.array([dSigma, dl, dp])
 
-- 
2.43.0


From 3d3b4347077abcbc4f9d9bc770207b6c5f6caead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 03/42] fix: RBF covariance added noise to unrelated sample
 sets that share their first sample

---
 src/lop/kernels/RBF_kern.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 3b0c402..242bdab 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -101,6 +101,18 @@ class RBF_kern(KernelFunc):
     #
     # @return the covariance matrix of the samples.
     def cov(self, X, Y):
+        cov = self.noise_free_cov(X, Y)
+        if X.shape == Y.shape and (X == Y).all():
+            cov += np.eye(cov.shape[0])*self.sigma_noise
+        return cov
+
+    ## noise_free_cov
+    # the covariance matrix between the samples without the diagonal noise.
+    # @param X - samples (n1,k) numpy array
+    # @param Y - samples (n2, k) numpy array
+    #
+    # @return the covariance matrix of the samples.
+    def noise_free_cov(self, X, Y):
         N = X.shape[0]
         M = Y.shape[0]
 
@@ -115,10 +127,7 @@ class RBF_kern(KernelFunc):
         diff = X_expanded - Y_expanded
         top = np.sum(diff*diff, axis=2)
 
-        cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if cov.shape[0] == cov.shape[1] and (X[0] == Y[0]).all():
-            cov += np.eye(cov.shape[0])*self.sigma_noise
-        return cov
+        return self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
 
     # get gradient of the covariance matrix
     # calculate the covariance matrix between the samples given in X
-- 
2.43.0


From 43d2af9a33405d61589d94f016645250f7e034aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 04/42] fix: zeroed RBF kernel pointwise value, gradients and
 zero-point noise disagreed with its covariance

---
 src/lop/kernels/RBF_kern_zeroed.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 63ae3b7..7d48424 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -82,8 +82,8 @@ class RBF_kern_zeroed(RBF_kern):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = self.noise_free_cov(X, self.zero_pt[np.newaxis,:])
+        cov_y = self.noise_free_cov(self.zero_pt[np.newaxis,:], Y)
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -108,8 +108,8 @@ class RBF_kern_zeroed(RBF_kern):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = self.noise_free_cov(X, self.zero_pt[np.newaxis,:])
+        cov_y = self.noise_free_cov(self.zero_pt[np.newaxis,:], Y)
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -117,9 +117,11 @@ class RBF_kern_zeroed(RBF_kern):
         x_sig, x_l = super().cov_gradient(X, self.zero_pt[np.newaxis,:])
         y_sig, y_l = super().cov_gradient(self.zero_pt[np.newaxis,:], Y)
 
-        # f(x)g'(x) + f'(x)g(x)
-        zero_sigma = x_sig * Y_expanded + X_expanded * y_sig
-        zero_l =     x_l * Y_expanded + X_expanded * y_l
+        # (f(x)g'(x) + f'(x)g(x)) / sigma^2, and the derivative of 1 / sigma^2
+        sig2 = self.sigma * self.sigma
+        zero_sigma = (x_sig * Y_expanded + X_expanded * y_sig) / sig2 \
+                    - 2 * X_expanded * Y_expanded / (sig2 * self.sigma)
+        zero_l =     (x_l * Y_expanded + X_expanded * y_l) / sig2
 
         return dSigma-zero_sigma, dl-zero_l
 
@@ -132,8 +134,13 @@ class RBF_kern_zeroed(RBF_kern):
         grad_zero_u = super().gradient(u, self.zero_pt)
         grad_zero_v = super().gradient(v, self.zero_pt)
 
-        # f(x)g'(x) + f'(x)g(x)
-        grad_zero = super()(u, self.zero_pt) * grad_zero_v +  grad_zero_u * super()(v, self.zero_pt)
+        cov_u = super().__call__(u, self.zero_pt)
+        cov_v = super().__call__(v, self.zero_pt)
+
+        # (f(x)g'(x) + f'(x)g(x)) / sigma^2, and the derivative of 1 / sigma^2
+        sig2 = self.sigma * self.sigma
+        grad_zero = (cov_u * grad_zero_v + grad_zero_u * cov_v) / sig2
+        grad_zero[0] -= 2 * cov_u * cov_v / (sig2 * self.sigma)
 
         return grad - grad_zero
 
@@ -143,4 +150,4 @@ class RBF_kern_zeroed(RBF_kern):
         cov = super().__call__(u,v)
         cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt)
 
-        return cov - cov_0
+        return cov - cov_0 / (self.sigma * self.sigma)
-- 
2.43.0


From cba89f9fcc8e49d221d932c61b6e67536dda351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 05/42] fix: covariance gradient of a product of kernels was
 not the product rule

---
 src/lop/kernels/KernelFunc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index d33cc05..e0e47cd 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -230,8 +230,10 @@ class DualKern(KernelFunc):
             a_grad = self.a.cov_gradient(X,Y)
             b_grad = self.b.cov_gradient(X,Y)
         elif self.operator == '*':
-            a_grad = self.a.cov_gradient(X,Y) * self.b.cov(X,Y)
-            b_grad = self.b.cov_gradient(X,Y) * self.a.cov(X,Y)
+            a_cov = self.a.cov(X,Y)
+            b_cov = self.b.cov(X,Y)
+            a_grad = tuple(grad * b_cov for grad in self.a.cov_gradient(X,Y))
+            b_grad = tuple(grad * a_cov for grad in self.b.cov_gradient(X,Y))
         else:
             raise NotImplementedError('DualKern does not have operator `'+self.operator+'` implemented')
 
-- 
2.43.0


From f9a05279935819d90034bc81708bad1d9df46eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 06/42] fix: combined kernels could not draw random
 hyper-parameters

---
 src/lop/kernels/KernelFunc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index e0e47cd..3b58716 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -165,6 +165,12 @@ class DualKern(KernelFunc):
     def get_param(self):
         return np.append(self.a.get_param(), self.b.get_param(), axis=0)
 
+    ## Performs random sampling using the same liklihood function used by the param
+    # liklihood function
+    # @return numpy array of independent samples.
+    def randomize_hyper(self):
+        return np.append(self.a.randomize_hyper(), self.b.randomize_hyper(), axis=0)
+
     ## param_likli
     # log liklihood of the parameter (prior)
     def param_likli(self):
-- 
2.43.0


From b5f81254d1d559a31881f8e6f7d55237e64b8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:06 +0000
Subject: [PATCH 07/42] fix: pairwise probit third derivative used the density
 instead of the density ratio

---
 src/lop/probits/PreferenceProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index f7b69d5..5ea3739 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -218,7 +218,7 @@ class PreferenceProbit(ProbitBase):
         pdf_cdf_ratio, pdf_cdf_ratio2 = calc_pdf_cdf_ratio(z)
 
         paren_pairs = np.where(np.logical_and(z < 0, np.isinf(pdf_cdf_ratio)), 0, \
-                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * std_norm_pdf(z))
+                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * pdf_cdf_ratio)
         paren_pairs *= y[:,0]*y[:,0]*y[:,0]
         paren_pairs *= -1 / (2 * np.sqrt(2) * self.sigma * self.sigma * self.sigma)
 
-- 
2.43.0


From 6881fa9e22eb7f106b75c26f5de281bdf97dbd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 08/42] fix: ordinal probit second derivative left out the
 breakpoint distances

---
 src/lop/probits/OrdinalProbit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index c4c05b0..4a73387 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -197,7 +197,10 @@ class OrdinalProbit(ProbitBase):
                     d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
             else:
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
-                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i])
+                # the density, and so its slope, is zero at the infinite outer breakpoints
+                z_pdf_hi = 0 if y[i] == self.n_ordinals else self.z_k(y[i], f[i]) * self.norm_pdf(y[i], f[i])
+                z_pdf_lo = 0 if y[i] == 1 else self.z_k(y[i]-1, f[i]) * self.norm_pdf(y[i]-1, f[i])
+                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(z_pdf_hi - z_pdf_lo) / l[i])
 
         W = np.diagflat(-d2py_df2)
 
-- 
2.43.0


From 8a3a6568d3d8d5d84de723b91f172e7bf003b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 09/42] fix: bounded probit derivative of W with respect to its
 precision had wrong terms

---
 src/lop/probits/AbsBoundProbit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a6c2291..b3b6455 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -402,10 +402,10 @@ class AbsBoundProbit(ProbitBase):
         term2_a = -(v*f / (2*sqrt2 * sigma3)) * gauss_pdf
         term2_b = -mu*aa1 + bb1 - mu*bb1
 
-        term3 = (v / sigma2) * gauss_pdf2 * (aa1 + bb1)
+        term3 = -(v / sigma2) * gauss_pdf2 * (aa1 + bb1)
         
-        term4_a = ((v*v) / (2*sigma2)) * gauss_pdf2
-        term4_b = mu*aa1 + (1-mu)*bb2
+        term4_a = -((v*v) / (2*sigma2)) * gauss_pdf2
+        term4_b = mu*aa2 + (1-mu)*bb2
 
         dW_dv = term1 + term2_a*term2_b + term3 + term4_a*term4_b
 
-- 
2.43.0


From 0d53db49acd65451a072fbaa0559c3047c11c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 10/42] fix: bounded probit derivative of W with respect to the
 latent had the opposite sign

---
 src/lop/probits/AbsBoundProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index b3b6455..9877724 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -354,7 +354,7 @@ class AbsBoundProbit(ProbitBase):
         Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
-        dW[y[1],y[1],y[1]] = Wdiag
+        dW[y[1],y[1],y[1]] = -Wdiag
 
         return dW
 
-- 
2.43.0


From 676643d9fa350f549b2734c9539e3aeb4b0e9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 11/42] fix: absolute and ordinal labels on the same point were
 overwritten instead of accumulated

---
 src/lop/probits/AbsBoundProbit.py | 16 +++++++---------
 src/lop/probits/OrdinalProbit.py  |  7 ++-----
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 9877724..2325e6b 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -284,10 +284,10 @@ class AbsBoundProbit(ProbitBase):
 
         # setup the indexing
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        full_W[y[1],y[1]] = Wdiag
+        np.add.at(full_W, (y[1], y[1]), Wdiag)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y[1]] = dpy_df
+        np.add.at(full_dpy_df, y[1], dpy_df)
 
         return -full_W, full_dpy_df, np.sum(py)
 
@@ -307,10 +307,8 @@ class AbsBoundProbit(ProbitBase):
         aa, bb = self.get_alpha_beta(f)
 
         py = beta.logpdf(y_selected, aa, bb)
-        full_py = np.zeros(F.shape[0])
-        full_py[y[1]] = py
 
-        return np.sum(full_py)
+        return np.sum(py)
 
 
 
@@ -354,7 +352,7 @@ class AbsBoundProbit(ProbitBase):
         Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
-        dW[y[1],y[1],y[1]] = -Wdiag
+        np.add.at(dW, (y[1], y[1], y[1]), -Wdiag)
 
         return dW
 
@@ -429,11 +427,11 @@ class AbsBoundProbit(ProbitBase):
 
         if self.optimize_v_only:
             dW_dHyper = np.zeros((1, len(F), len(F)))
-            dW_dHyper[0, y[1], y[1]] = dW_dv
+            np.add.at(dW_dHyper[0], (y[1], y[1]), dW_dv)
         else:
             dW_dHyper = np.zeros((2, len(F), len(F)))
-            dW_dHyper[1, y[1], y[1]] = dW_dv
-            dW_dHyper[0, y[1], y[1]] = dW_dSigma
+            np.add.at(dW_dHyper[1], (y[1], y[1]), dW_dv)
+            np.add.at(dW_dHyper[0], (y[1], y[1]), dW_dSigma)
 
         return -dW_dHyper
 
diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 4a73387..54f105e 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -202,15 +202,12 @@ class OrdinalProbit(ProbitBase):
                 z_pdf_lo = 0 if y[i] == 1 else self.z_k(y[i]-1, f[i]) * self.norm_pdf(y[i]-1, f[i])
                 d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(z_pdf_hi - z_pdf_lo) / l[i])
 
-        W = np.diagflat(-d2py_df2)
-
         # setup the indexing to reshape into full gradient of F
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        idx_grid = np.meshgrid(y_orig[1],y_orig[1])
-        full_W[tuple(idx_grid)] = W
+        np.add.at(full_W, (y_orig[1], y_orig[1]), -d2py_df2)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y_orig[1]] = dpy_df
+        np.add.at(full_dpy_df, y_orig[1], dpy_df)
 
         return full_W, full_dpy_df, np.sum(py)
 
-- 
2.43.0


From 6641b13b6640ee81195cafd70caf504c1efc2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 12/42] fix: evidence gradient for kernel parameters summed
 terms that should be multiplied

---
 src/lop/models/PreferenceGP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index eecdc90..e133de7 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -556,7 +556,8 @@ class PreferenceGP(PreferenceModel):
             # Equation 209
             termB_1 = 0.5 * np.trace(B_inv @ K @ dW_f, axis1=1, axis2=2)
 
-            dL_cov_f[i] = termA_1 - termA_2 + np.sum(termB_2 - termB_1)
+            # the latent moves with the parameter (chain rule over every latent value)
+            dL_cov_f[i] = termA_1 - termA_2 - np.sum(termB_1 * termB_2)
 
 
         # Liklihood function parameters
-- 
2.43.0


From 839596771220eb532fbc0567ce7098f6b6a60612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 13/42] fix: rejected ordinal or absolute labels left their
 samples in the model

---
 src/lop/models/PreferenceModel.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 1d55f98..ea6c897 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -188,6 +188,22 @@ class PreferenceModel(Model):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
 
+        # check the labels before anything is stored, a rejected call must not
+        # leave behind samples without their labels.
+        if type == 'ordinal':
+            if not isinstance(y, np.ndarray):
+                y = np.array(y)
+            ratings = y if len(y.shape) == 1 else y[:,0]
+            if (ratings <= 0).any():
+                raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
+        elif type == 'abs':
+            if not isinstance(y, (tuple, np.ndarray)):
+                print('abs type received unknown type for y')
+                return
+            v = y[0] if isinstance(y, tuple) else y
+            if (v < 0).any() or (v > 1.0).any():
+                raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
+
         if self.X_train is None:
             self.X_train = X
             len_X = 0
@@ -208,8 +224,6 @@ class PreferenceModel(Model):
                 self.y_train[self.probit_idxs[type]] = \
                     np.append(self.y_train[self.probit_idxs[type]], np.array(y), axis=0)
         elif type == 'ordinal':
-            if not isinstance(y, np.ndarray):
-                y = np.array(y)
             if len(y.shape) == 1:
                 new_y = np.empty((y.shape[0], 2), dtype=int)
                 new_y[:,0] = y
@@ -217,9 +231,6 @@ class PreferenceModel(Model):
             else:
                 new_y = y
 
-            if (new_y[:,0] <= 0).any():
-                raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
-
             if self.y_train[self.probit_idxs[type]] is None:
                 self.y_train[self.probit_idxs[type]] = (new_y[:,0], new_y[:,1])
             else:
@@ -236,12 +247,7 @@ class PreferenceModel(Model):
             elif isinstance(y, np.ndarray):
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
-            else:
-                print('abs type received unknown type for y')
-                return
 
-            if (v < 0).any() or (v > 1.0).any():
-                raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
             v = np.where(v < 0.001, 0.001, v)
             v = np.where(v > 0.999, 0.999, v)            
 
-- 
2.43.0


From 52ffd3e355ebdaae776d114060c285b836c1d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 14/42] fix: ratings given with explicit sample indices pointed
 at earlier samples

---
 src/lop/models/PreferenceModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index ea6c897..ad283b6 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -229,7 +229,8 @@ class PreferenceModel(Model):
                 new_y[:,0] = y
                 new_y[:,1] = np.arange(0, y.shape[0]) + len_X
             else:
-                new_y = y
+                # reset index of the rated samples
+                new_y = np.array([y[:,0], y[:,1] + len_X]).T
 
             if self.y_train[self.probit_idxs[type]] is None:
                 self.y_train[self.probit_idxs[type]] = (new_y[:,0], new_y[:,1])
@@ -243,7 +244,8 @@ class PreferenceModel(Model):
         elif type == 'abs':
             if isinstance(y, tuple):
                 v = y[0]
-                idxs = y[1]
+                # reset index of the rated samples
+                idxs = np.asarray(y[1]) + len_X
             elif isinstance(y, np.ndarray):
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
-- 
2.43.0


From 831b43db30b3376b7402c7be3e2ef746cb269784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 15/42] fix: prediction crashed when the training covariance
 could not be factorised

---
 src/lop/models/PreferenceGP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index e133de7..e5955fb 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -129,7 +129,7 @@ class PreferenceGP(PreferenceModel):
         except:
             try:
                 K_inv = np.linalg.pinv(K)
-                alpha = F.transpose() @ K_inv @ F
+                alpha = K_inv @ F
             except:
                 pdb.set_trace()
 
-- 
2.43.0


From 0edbe81c2873d15ef461e3913684c20efe9bc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 16/42] fix: GP without training data ignored its mean function

---
 src/lop/models/GP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index a189b62..10f02ef 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -95,7 +95,7 @@ class GP(Model):
             sigma = np.diagonal(self.cov)
             # just in case do to numerical instability a negative variance shows up
             sigma = np.maximum(0, sigma)
-            return np.zeros(len(X)), sigma
+            return np.zeros(len(X)) + self.mean_func(X), sigma
 
         #### This function treats Y as the training data
         Y = self.X_train
-- 
2.43.0


From afa2ef325849913ee2e0ee53f06e39ad13820d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 17/42] fix: random hyper-parameters were assigned to the wrong
 parameters when a label type had no data

---
 src/lop/models/PreferenceGP.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index e5955fb..3d7d8c0 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -483,12 +483,15 @@ class PreferenceGP(PreferenceModel):
     def randomize_hyper(self):
         probit_samples = np.array([])
         for i in range(len(self.probits)):
-            sample = self.probits[i].randomize_hyper()
-            probit_samples = np.append(probit_samples, sample, axis=0)
+            # only the probits with training data have hyperparameters in get/set_hyper
+            if self.y_train[i] is not None:
+                sample = self.probits[i].randomize_hyper()
+                probit_samples = np.append(probit_samples, sample, axis=0)
 
         if self.hyperparam_only_probit:
             self.set_hyper(probit_samples)
-        
+            return
+
         cov_samples = self.cov_func.randomize_hyper()
 
         self.set_hyper(np.append(probit_samples, cov_samples, axis=0))
-- 
2.43.0


From 9878d4b2f6f889fe1147b25f86f899619872818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 18/42] fix: pareto pairs were missing when an earlier sample
 dominates a new one

---
 src/lop/models/PreferenceModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index ad283b6..c192818 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -269,6 +269,10 @@ class PreferenceModel(Model):
                 cur_pairs = [(d_better, i+len_X, j) for j in range(len(dominate)) if dominate[j]]
                 pairs += cur_pairs
 
+                # earlier samples can also dominate the new sample
+                dominated = np.all(x < self.X_train[:len_X], axis=1)
+                pairs += [(d_better, j, i+len_X) for j in range(len_X) if dominated[j]]
+
             if self.y_train[self.probit_idxs['relative_discrete']] is None and len(pairs) > 0:
                 self.y_train[self.probit_idxs['relative_discrete']] = np.array(pairs)
             else:
-- 
2.43.0


From 3b7f36622e24374e96468cbe8546183a936fb1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 19/42] fix: adding prior points dropped rated samples and
 broke the label indices

---
 src/lop/models/PreferenceModel.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index c192818..6141913 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -116,15 +116,20 @@ class PreferenceModel(Model):
         # iterate through each type of training data
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     counts[pair[1]] += 1
                     counts[pair[2]] += 1
+            else:
+                np.add.at(counts, y[1], 1)
 
         # check which pts don't have any counts
         #idx_to_rm = [x for x in range(len(counts)) if counts[x] == 0]
         idx_to_rm = []
         cur_cts = 0
+        counts = counts.astype(int)
         for i in range(len(counts)):
             if counts[i] == 0:
                 idx_to_rm.append(i)
@@ -138,16 +143,25 @@ class PreferenceModel(Model):
         # reduce indicies of y_train to match removed indicies
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     pair[1] -= counts[pair[1]]
                     pair[2] -= counts[pair[2]]
+            else:
+                self.y_train[self.probit_idxs[type]] = (y[0], y[1] - counts[y[1]])
 
-
-        if remove_prior:
+        if remove_prior and self.prior_idx is not None:
             # update the index if they have been removed
-            prior_idx = (self.prior_idx[0], self.prior_idx[1] - len(idx_to_rm))
-            self.prior_idx = prior_idx
+            start, end = self.prior_idx
+            self.prior_idx = (start - sum(i < start for i in idx_to_rm),
+                                end - sum(i < end for i in idx_to_rm))
+
+        if len(self.X_train) == 0:
+            # nothing is left to train on
+            self.X_train = None
+            self.prior_idx = None
 
 
 
-- 
2.43.0


From bd6882bc5618f7afd44444d125c71f1189196692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 20/42] fix: generate_ranking_pairs did not return the pairs

---
 src/lop/utilities/preference_pairs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/utilities/preference_pairs.py b/src/lop/utilities/preference_pairs.py
index c70f7fb..073c7ab 100644
--- a/src/lop/utilities/preference_pairs.py
+++ b/src/lop/utilities/preference_pairs.py
@@ -112,5 +112,7 @@ def generate_ranking_pairs(X, real_f):
         for j, idx2 in enumerate(sorted_idx[i+1:]):
             pairs.append((get_dk(1,0), idx1, idx2))
 
+    return pairs
+
 
 
-- 
2.43.0


From e2564b83093300da011ce7412e44840d7a69b4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 21/42] fix: choice probabilities of a low reward row became
 NaN when given with other rows

---
 src/lop/utilities/human_choice_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/human_choice_model.py b/src/lop/utilities/human_choice_model.py
index 7b86ed1..3de1dd3 100644
--- a/src/lop/utilities/human_choice_model.py
+++ b/src/lop/utilities/human_choice_model.py
@@ -41,7 +41,7 @@ from scipy import stats
 #
 # @return output probability distribution of human choice
 def p_human_choice(r, p=1.0):
-    r = r - np.max(r)
+    r = r - np.max(r, axis=-1, keepdims=True)
     e = np.exp(r*p) # exponent of r
     if len(r.shape) > 1:
         sum_e = np.sum(e,axis=-1)
-- 
2.43.0


From a32128e61ad40424680365cd354c6e8be63824bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 22/42] fix: normal cdf divided by the variance instead of the
 standard deviation

---
 src/lop/utilities/probability_utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index 5ee8d68..a10fba4 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -38,7 +38,7 @@ def calc_cdf(mu, cov, method='mvn'):
 
     elif method == 'independent':
         
-        return np.prod(spec.ndtr((0 - mu) / np.diagonal(cov)))
+        return np.prod(spec.ndtr((0 - mu) / np.sqrt(np.diagonal(cov))))
 
 
     elif method == 'switch':
@@ -70,7 +70,7 @@ def calc_cdf(mu, cov, method='mvn'):
             mu = np.delete(mu, idx, 0)
 
         if cov.shape[0] == 1:
-            p *= spec.ndtr((0 - mu[0]) / cov[0,0])
+            p *= spec.ndtr((0 - mu[0]) / np.sqrt(cov[0,0]))
 
         return p
     
-- 
2.43.0


From 931ae07750849ed8048329a8bc5512a885eb9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 23/42] fix: switch cdf approximation failed on uncorrelated
 variables

---
 src/lop/utilities/probability_utility.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index a10fba4..61e94fc 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -50,6 +50,9 @@ def calc_cdf(mu, cov, method='mvn'):
 
         while cov.shape[0] > 1:
             idx = np.unravel_index(np.argmax(mod_cov), cov.shape)
+            if idx[0] == idx[1]:
+                # nothing left is correlated
+                return p * np.prod(spec.ndtr((0 - mu) / np.sqrt(np.diagonal(cov))))
 
             #pdb.set_trace()
 
-- 
2.43.0


From a091ead369f81c924326cd68934ca2aee6c22005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 24/42] fix: one dimensional fake functions collapsed a list of
 points to one value

---
 src/lop/utilities/FakeFunction.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 610dc1c..2e02302 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -145,8 +145,7 @@ class FakeWeightedMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.max(rewards * self.w)
         return np.max(rewards * self.w, axis=1)
@@ -172,8 +171,7 @@ class FakeWeightedMin(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.min(rewards * self.w)
         return np.min(rewards * self.w, axis=1)
@@ -199,8 +197,7 @@ class FakeSquaredMinMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.max(rewards * self.w)
         vals = rewards * self.w
-- 
2.43.0


From c39d57b9317fb221521108831a439bd6be1ef355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 25/42] fix: FakeSquaredMinMax gave a single point a different
 value than in a batch

---
 src/lop/utilities/FakeFunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 2e02302..d1aff4f 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -199,7 +199,8 @@ class FakeSquaredMinMax(FakeFunction):
                 rewards = np.array(rewards)
             return rewards
         if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
+            vals = rewards * self.w
+            return np.sqrt(np.max(vals)) + np.min(vals)**2
         vals = rewards * self.w
         mins = np.min(vals, axis=1)
         return np.sqrt(np.max(vals, axis=1)) + mins*mins
-- 
2.43.0


From 75e654fe89cbec1db74e9c2c17d8d4c9c5245174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 26/42] fix: FakeMixtureGaussian returned one value per
 dimension for a single point

---
 src/lop/utilities/FakeFunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index d1aff4f..9e4d23e 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -260,7 +260,7 @@ class FakeMixtureGaussian(FakeFunction):
     def calc(self, rewards):
         
 
-        if isinstance(rewards, np.ndarray):
+        if isinstance(rewards, np.ndarray) and (self.dim == 1 or len(rewards.shape) > 1):
             z = np.zeros(rewards.shape[0])
         else:
             z = 0
-- 
2.43.0


From 9e3189e3ab42c5d06401e88c6f82d5c76e0043da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 27/42] fix: select with return_not_selected failed although
 unprefered points were left

---
 src/lop/active_learning/ActiveLearner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 1d9cd6d..27963f2 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -128,6 +128,10 @@ class ActiveLearner:
                     not_selected.append(selected_idx)
                 all_not_selected.discard(selected_idx)
 
+            # the prefered points ran out, fill up with the best of the others.
+            while len(sel_pts) < num_alts and len(not_selected) > 0:
+                sel_pts.append(not_selected.pop(0))
+
             if len(sel_pts) != num_alts:
                 raise Exception("Something happened and there was not enough points to select")
 
-- 
2.43.0


From 8ef460e86bd06ba22f8e86f43dc02c010bf7f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 28/42] fix: greedy acquisition selection crashed without a
 previous selection

---
 src/lop/active_learning/AcquisitionSelection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index 8ec26be..d5330fb 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -100,7 +100,7 @@ class AcquisitionSelection(AcquisitionBase):
             # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
             # But needs at least a pair in order to calculate properly.
             self.sel_metric = 0
-            return np.random.choice(indicies)[0]
+            return np.random.choice(indicies)
             #return np.argmax(mu)
 
         x_rep, Q_rep = self.get_representative_Q(candidate_pts)
-- 
2.43.0


From 61804769269cd984838a276afc3afbb6c7def659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 29/42] fix: pair selection ignored the selectable points, the
 previous selection and the query size

---
 .../active_learning/AcquisitionSelection.py   |  2 +-
 src/lop/active_learning/ActiveLearner.py      | 21 ++++++++++++++-----
 src/lop/active_learning/BayesInfoGain.py      |  4 ++--
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index d5330fb..350a721 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -231,6 +231,6 @@ class AcquisitionSelection(AcquisitionBase):
         # represents the alignment metric for each pair being selected as align_Q
         align_Q = E_align_q + E_align_q.T
         
-        pair = self.pick_pair_from_metric(align_Q, prev_selection)
+        pair = self.pick_pair_from_metric(align_Q, prev_selection, indicies)
         self.sel_metric = align_Q[pair[0], pair[1]]
         return pair
diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 27963f2..0957d35 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -106,8 +106,8 @@ class ActiveLearner:
                     selected_idx = not_selected[0]
                     not_selected.pop(0) 
                 else:
-                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and hasattr(self, "select_pair"):
-                        selected_pair = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
+                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and len(all_not_selected) > 1 and hasattr(self, "select_pair"):
+                        selected_pair = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         selected_idx = selected_pair[0]
 
                         # handle second index
@@ -139,10 +139,13 @@ class ActiveLearner:
         else:
             all_not_selected = None            
 
+            # a pair can only be selected as the first two points of the query
+            pair_first = select_pair_first and len(prev_selection) == 0 and num_alts > 1 and hasattr(self, "select_pair")
+
             while len(sel_pts) < num_alts:
                 # only select from the prefered points if they still exist
                 if len(pref_not_sel) > 0:
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if pair_first and len(sel_pts) == 0 and len(pref_not_sel) > 1:
                         selected_idx = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         
                         if selected_idx[0] in pref_not_sel:
@@ -159,7 +162,7 @@ class ActiveLearner:
                     # ensure that there is at least some pts left to select from
                     if len(all_not_selected) == 0:
                         raise Exception("Not enough points for select to create a full set")
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if pair_first and len(sel_pts) == 0 and len(all_not_selected) > 1:
                         selected_idx = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         all_not_selected.remove(selected_idx[0])
                         all_not_selected.remove(selected_idx[1])
@@ -268,9 +271,17 @@ class ActiveLearner:
     # pick a particular pair from a matrix of info gain
     # @param info_gain - 2d matrix [Q,Q] each represents the info gain of picking
     #                   pair [i,j].
+    # @param indicies - [opt] the points to select the pair from (all if not given)
     #
     # @return (i,j) pair to select
-    def pick_pair_from_metric(self, info_gain, prev_selection):
+    def pick_pair_from_metric(self, info_gain, prev_selection, indicies=None):
+        if indicies is not None:
+            # only the pairs of the given indicies are allowed
+            allowed = np.ix_(list(indicies), list(indicies))
+            metric = np.full(info_gain.shape, -np.inf)
+            metric[allowed] = info_gain[allowed]
+            info_gain = metric
+
         # just a check to ensure the same points do not get selected twice.
         # Shouldn't happen, but in case it does... really makes sure.
         np.fill_diagonal(info_gain, -np.inf)
diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 92fa0f7..d9cccee 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -178,7 +178,7 @@ class BayesInfoGain(ActiveLearner):
         p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
 
         if self.model.X_train is None:
-            idxs = np.random.choice(list(indicies), 2)
+            idxs = np.random.choice(list(indicies), 2, replace=False)
             return (idxs[0], idxs[1])
 
         if debug:
@@ -257,7 +257,7 @@ class BayesInfoGain(ActiveLearner):
             print(info_gain)
 
 
-        idx_best = self.pick_pair_from_metric(info_gain, prev_selection)
+        idx_best = self.pick_pair_from_metric(info_gain, prev_selection, indicies)
         
 
         print('idx_best: ' + str(idx_best))
-- 
2.43.0


From 9b382fe80f0a3e094a0c87a16a36b79d43d3dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 30/42] fix: information gain selection crashed with a linear
 preference model

---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index d9cccee..79a4b15 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -104,7 +104,7 @@ class BayesInfoGain(ActiveLearner):
                 probit_mat = self.model.probits[0].likelihood_all_pairs(mu)
 
                 # Get the probabilities of which candidate_pts is the best.
-                p_B = self.p_B_pref_linear(candidate_pts, mu, probit_mat)
+                p_B = self.p_B_pref_linear(candidate_pts, mu)
             self.p_B = p_B
             self.probit_mat = probit_mat
             self.first_call_greedy = False
-- 
2.43.0


From c81d80d9165b42a7cf15f5f3bcfed5e363dd7451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 31/42] fix: alignment query decision crashed before the first
 decision and left the model fitted to ratings only

---
 src/lop/active_learning/MixedTypeDecision.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 4d77717..c4f3189 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -44,6 +44,10 @@ class AlignmentDecision(RateChooseLearner):
         self.num_calls = 0
         self.calls_to_decision = num_calls_decision
 
+        # scores used by the last query type decision (None before the first decision)
+        self.rating_score = None
+        self.pref_score = None
+
     
     #overide
     ## select
@@ -79,7 +83,7 @@ class AlignmentDecision(RateChooseLearner):
                 select_pair = False
         else:
             # select using decision metric.
-            select_pair, rating_score, pref_score = self.determine_query_type(candidate_pts)
+            select_pair, self.rating_score, self.pref_score = self.determine_query_type(candidate_pts)
 
 
         
@@ -92,7 +96,7 @@ class AlignmentDecision(RateChooseLearner):
 
         self.num_calls += 1
         # return the selected indicies from pairwise select
-        return sel_idxs, rating_score, pref_score
+        return sel_idxs
 
 
     def determine_query_type(self, candidate_pts):
@@ -142,6 +146,8 @@ class AlignmentDecision(RateChooseLearner):
         ## Reset model and start evaluating samples
         self.model.y_train[0] = pref_data
         self.model.y_train[2] = rating_data
+        # the model is still fitted to the rating data only, fit it again to all of the data
+        self.model.optimize()
 
         ## Evaluate samples
         align_pref_f = self.pairwise_l.alignment_between(pref_rep, all_rep)
-- 
2.43.0


From ea2dc2a14f87d26ee41d35600b5349a8b8e7af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 32/42] fix: query type decision kept its samples for later
 candidate sets

---
 src/lop/active_learning/MixedStrategy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index 344215d..6d86eae 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -287,6 +287,10 @@ class MixedDecision(MixedStrategyPeak3):
                     sel_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
                 self.state = 0
 
+            # the samples only describe these candidate points, later calls need their own
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
+
 
 
 
@@ -437,6 +441,10 @@ class MixedDecision2(MixedStrategyPeak3):
                     sel_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
                 self.state = 0
 
+            # the samples only describe these candidate points, later calls need their own
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
+
 
 
 
-- 
2.43.0


From 631290e9963d2e6c1c22f87eec89ba62c2ba8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 33/42] fix: mutual information was NaN when an option is never
 picked

---
 src/lop/active_learning/MutualInfoLearner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MutualInfoLearner.py b/src/lop/active_learning/MutualInfoLearner.py
index c9ff311..6ce6479 100644
--- a/src/lop/active_learning/MutualInfoLearner.py
+++ b/src/lop/active_learning/MutualInfoLearner.py
@@ -109,7 +109,10 @@ class MutualInfoLearner(ActiveLearner):
         sum_p_over_w = np.sum(p, axis=0)
 
         # Find the information gain using the sample equation (4) in [1]
-        info_gain = np.sum(p * np.log2(self.M * p / sum_p_over_w)) / self.M
+        # (an option that is never picked, p = 0, has no contribution as p log p -> 0)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            terms = p * np.log2(self.M * p / sum_p_over_w)
+        info_gain = np.sum(np.where(p > 0, terms, 0.0)) / self.M
 
         return info_gain
         
-- 
2.43.0


From b8941cc627c40570285c436ba2a98e8b95af9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 34/42] fix: weighted query comparison checked for ties against
 the unweighted metric

---
 src/lop/active_learning/RateChooseLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index c280ec0..0d4ce51 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -173,7 +173,7 @@ class MixedComparision(RateChooseLearner):
         print('Absloute selected metric: ' + str(abs_metric))
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
-- 
2.43.0


From 758d554bc3c92a7472bd9230d3a27f6911da79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 35/42] fix: ordinal derivative overflowed to NaN far above the
 rated category

---
 src/lop/probits/OrdinalProbit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 54f105e..322302a 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -192,9 +192,15 @@ class OrdinalProbit(ProbitBase):
                 else:
                     z1 = self.z_k(y[i], f[i])
                     z2 = self.z_k(y[i]-1, f[i])
-                    ep = np.exp(-0.5*(z1**2 - z2**2))
-                    dpy_df[i] = self._isigma*(z1*ep-z2)/(ep - 1.0)
-                    d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
+                    if abs(z1) > abs(z2):
+                        ep = np.exp(-0.5*(z1**2 - z2**2))
+                        wa, wb = ep, 1.0
+                    else:
+                        # divided by ep, which overflows far out in this tail
+                        ep = np.exp(-0.5*(z2**2 - z1**2))
+                        wa, wb = 1.0, ep
+                    dpy_df[i] = self._isigma*(z1*wa-z2*wb)/(wa - wb)
+                    d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *wa - z2**2 *wb)/(wa - wb)) + dpy_df[i]**2)
             else:
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
                 # the density, and so its slope, is zero at the infinite outer breakpoints
-- 
2.43.0


From 576c78f173f258ecd7316d0a66825c2d4a89de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:53 +0000
Subject: [PATCH 36/42] fix: gradient of the bounded probit parameter prior
 disagreed with the prior on the precision

---
 src/lop/probits/AbsBoundProbit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 2325e6b..23ce511 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -202,8 +202,9 @@ class AbsBoundProbit(ProbitBase):
                 return np.array([0.0])
                 return np.array([d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
             else:
-                return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta),
-                        d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
+                # param_likli has a flat prior on the precision v
+                return np.array([float(d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta)),
+                        0.0])
         else:
             return super().grad_param_likli()
 
-- 
2.43.0


From 08ad9eb1528bb6c8896ff7615b6b14c040dc5452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:53 +0000
Subject: [PATCH 37/42] fix: bounded probit with fixed parameters drew random
 ones, which shifted the other parameters

---
 src/lop/probits/AbsBoundProbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 23ce511..e68b73b 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -167,6 +167,8 @@ class AbsBoundProbit(ProbitBase):
     # liklihood function
     # @return numpy array of independent samples.
     def randomize_hyper(self):
+        if not self.optimize_parameters:
+            return super().randomize_hyper()
         if self.optimize_v_only:
             return np.array([np.random.gamma(self.v_k, self.v_theta)])
         else:
-- 
2.43.0


From a6dfb9ce41bedc88ce38f31e264fb66830bb00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 38/42] fix: GV_UCB failed on a linear model with a single
 candidate

---
 src/lop/active_learning/GV_UCBLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/GV_UCBLearner.py b/src/lop/active_learning/GV_UCBLearner.py
index 64227a5..4cbdaa5 100644
--- a/src/lop/active_learning/GV_UCBLearner.py
+++ b/src/lop/active_learning/GV_UCBLearner.py
@@ -53,7 +53,7 @@ class GV_UCBLearner(UCBLearner):
             # generate possible outputs from weighted samples
             all_w = (candidate_pts @ w_samples.T).T
 
-            cov = np.cov(all_w.T)
+            cov = np.atleast_2d(np.cov(all_w.T))
             variance = np.diagonal(cov)
         indicies = list(indicies)
         prev_selection = list(prev_selection)
-- 
2.43.0


From 80cb4f8c075c449677c71e0ade2b7128ab047396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 39/42] fix: GV_UCB selected repeated points when rounding made
 a determinant negative

---
 src/lop/active_learning/GV_UCBLearner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/GV_UCBLearner.py b/src/lop/active_learning/GV_UCBLearner.py
index 4cbdaa5..64a84fc 100644
--- a/src/lop/active_learning/GV_UCBLearner.py
+++ b/src/lop/active_learning/GV_UCBLearner.py
@@ -62,7 +62,8 @@ class GV_UCBLearner(UCBLearner):
 
         # calculate the Standardized general variance
         # The matrix covariance equivelant to the standard deviation
-        SGV = [np.linalg.det(cov[np.ix_(prev_selection+[idx], prev_selection+[idx])]) ** exp_v for idx in indicies]
+        # (the determinant is not negative, except for rounding if points are repeated)
+        SGV = [max(np.linalg.det(cov[np.ix_(prev_selection+[idx], prev_selection+[idx])]), 0.0) ** exp_v for idx in indicies]
 
         selected_GV_UCB = mu[indicies] + self.alpha*np.array(SGV)
 
-- 
2.43.0


From 299694742e6348a3512e398f3973a4a7efe12a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:24 +0000
Subject: [PATCH 40/42] fix: mixed comparison learners failed when the not
 selected points are to be returned

---
 src/lop/active_learning/RateChooseLearner.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index 0d4ce51..f2ea097 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -162,7 +162,9 @@ class MixedComparision(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        # the selected points come with the not selected ones if they are to be returned
+        abs_sel = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_sel, [])
         abs_metric = self.abs_comp.sel_metric
         
 
@@ -359,22 +361,25 @@ class MixedComparisionEqualChecking(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        # the selected points come with the not selected ones if they are to be returned
+        abs_sel = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_sel, [])
         abs_metric = self.abs_comp.sel_metric
         
         print('Pairwise selected metric: ' + str(pair_metric))
         print('Absloute selected metric: ' + str(abs_metric))
         
 
-        pair_samples = all_Q[:, pair_idxs]
-        if len(pair_idxs) == 2:
+        pair_sel = pair_idxs[0] if return_not_selected else pair_idxs
+        pair_samples = all_Q[:, pair_sel]
+        if len(pair_sel) == 2:
             eta2 = compute_effsize(pair_samples[:, 0], pair_samples[:, 1], paired=True, eftype='eta-square')
         else:
             raise NotImplementedError("Have not implemented effect size computation yet")
 
 
         # check if any selected pairs might be evaluating to the same value
-        if (candidate_pts[pair_idxs] == candidate_pts[pair_idxs[::-1]]).all(axis=0).any():
+        if (candidate_pts[pair_sel] == candidate_pts[pair_sel[::-1]]).all(axis=0).any():
             # there is at least one pair that is the same.
             # check if the estimated values are similar
 
-- 
2.43.0


From 5a4d608a22851220aaa375cca8e03fb713355f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:29 +0000
Subject: [PATCH 41/42] fix: training of a choice user ended at a wrong beta
 where the objective is flat

---
 src/lop/utilities/HumanChoiceUser2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/HumanChoiceUser2.py b/src/lop/utilities/HumanChoiceUser2.py
index 50f53db..26df895 100644
--- a/src/lop/utilities/HumanChoiceUser2.py
+++ b/src/lop/utilities/HumanChoiceUser2.py
@@ -116,14 +116,16 @@ class HumanChoiceUser2(HumanChoiceUser):
         #print(res)
 
         ## Pairwise tuning
-        res = minimize_scalar(self.obj, bounds=[0.01, 200.0], args=(diffs, p), options={'xatol': 0.001})
+        # (searched on a log scale, the objective is flat for large values of beta)
+        res = minimize_scalar(lambda log_b: self.obj(np.exp(log_b), diffs, p),
+                                bounds=[np.log(0.01), np.log(200.0)], options={'xatol': 0.0001})
 
         f_list = [[self.fake_f(r_problem) for r_problem in r_env] for r_env in rewards]
         min_max = np.array([min([min([np.min(f1) for f1 in f2]) for f2 in f_list]),  \
                             max([max([np.max(f1) for f1 in f2]) for f2 in f_list])])            
 
         self.k, self.b = self.get_k_b(min_max)
-        self.beta = res.x
+        self.beta = np.exp(res.x)
 
         
 
-- 
2.43.0


From ea6e3e8de7f58fcceb795758b081f229b68d27c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:11 +0000
Subject: [PATCH 42/42] fix: plotting with one feature uses the latent values
 of the current data

---
 src/lop/models/PreferenceModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 6141913..b04f3c1 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -511,7 +511,8 @@ class PreferenceModel(Model):
         if X_train is None:
             X_train = self.X_train
         if F is None and X_train is not None:
-            if hasattr(self, 'F'):
+            # latent values from before the last added data do not match the samples
+            if hasattr(self, 'F') and self.optimized:
                 F = self.F
             else:
                 F = self(X_train)
-- 
2.43.0

