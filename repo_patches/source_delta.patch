From 1d8e67671ff3e2615f29a754597f62c4d9f7cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 01/99] fix: QP derivatives with several outputs mixed points
 and outputs

---
 smt/surrogate_models/qp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index d8492e4..027ae66 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -116,19 +116,18 @@ class QP(SurrogateModel):
         dim = self.nx
 
         linear_coef = self.coef[1 + kx, :]
-        quad_coef = 2 * self.coef[1 + dim + kx, :] * x[:, kx]
-        neval = np.size(quad_coef, 0)
-        cross_coef = np.zeros(neval)
+        quad_coef = 2 * np.outer(x[:, kx], self.coef[1 + dim + kx, :])
+        cross_coef = np.zeros(quad_coef.shape)
 
         for i in range(dim):
             if i > kx:
                 k = int(
                     2 * dim + 2 + (kx) * dim - ((kx + 1) * (kx)) / 2 + (i - (kx + 2))
                 )
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
             elif i < kx:
                 k = int(2 * dim + 2 + (i) * dim - ((i + 1) * (i)) / 2 + (kx - (i + 2)))
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
 
         y = (linear_coef + quad_coef + cross_coef).reshape((x.shape[0], self.ny))
         return y
-- 
2.43.0


From 3c02f4ef7627e99b42fc50143533970c6084936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 02/99] fix: network Jacobian scales each output and input by
 its own deviation

---
 smt/utils/neural_net/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 3afba81..47e66fd 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -434,9 +434,10 @@ class Model(object):
         Y_norm, _ = L_model_forward(X_norm, self.parameters, self.activations)
         J_norm, _ = L_grads_forward(X_norm, self.parameters, self.activations)
 
-        J = (J_norm * sigma_y / sigma_x).reshape(
+        J_norm = J_norm.reshape(
             self.number_of_outputs, self.number_of_inputs, number_of_examples
         )
+        J = J_norm * sigma_y.reshape(-1, 1, 1) / sigma_x.reshape(1, -1, 1)
 
         return J
 
-- 
2.43.0


From 5cd0814cc685389e1384ad38155fb8574f15faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 03/99] fix: MFK derivatives with a linear trend added the
 slopes of all variables

---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 3cb50d9..63e56c9 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -590,7 +590,7 @@ class MFK(KrgBased):
             df = np.zeros([n_eval, 1])
         elif self.options["poly"] == "linear":
             df = np.zeros((n_eval, self.nx + 1))
-            df[:, 1:] = 1
+            df[:, 1 + kx] = 1
         else:
             raise ValueError(
                 "The derivative is only available for ordinary kriging or "
-- 
2.43.0


From 28d50cc015e5228be5899da67d8446d9751519d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 04/99] fix: RMTS derivatives outside the domain without
 extrapolation

---
 smt/surrogate_models/rmts.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index de7c46c..12112c2 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -535,6 +535,13 @@ class RMTS(SurrogateModel):
                     data_tmp *= 1 - isexternal[:, kx - 1]
 
                 data += data_tmp
+        elif kx != 0:
+            # Without extrapolation, the value outside the domain is that of the
+            # nearest domain point: it does not change with x_kx.
+            dx = np.empty(n * num["support"] * num["x"])
+            self.rmtsc.compute_ext_dist(n, num["support"], x.flatten(), dx)
+            dx = dx.reshape((n * num["support"], num["x"]))
+            data[dx[:, kx - 1] != 0] = 0.0
 
         mtx = scipy.sparse.csc_matrix((data, (rows, cols)), shape=(n, num["coeff"]))
         return mtx
-- 
2.43.0


From 1f9b92e9881a767c207cfed1172d1b6b1d925ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 05/99] fix: kriging variance with a linear or quadratic trend
 solved with the wrong triangle

---
 smt/surrogate_models/krg_based.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 38f750a..e35f708 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -751,6 +751,7 @@ class KrgBased(SurrogateModel):
             self.optimal_par["G"].T,
             np.dot(self.optimal_par["Ft"].T, rt)
             - self._regression_types[self.options["poly"]](x).T,
+            lower=True,
         )
 
         A = self.optimal_par["sigma2"]
-- 
2.43.0


From 3c5eabdd0689ae5fd100e11792039a79dc201ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 06/99] fix: MGP variance with a linear or quadratic trend
 solved with the wrong triangle

---
 smt/surrogate_models/krg_mgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8040e98..731b964 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -349,7 +349,7 @@ class MGP(KrgBased):
 
         F_Rinv_r = np.dot(Ft.T, rt)
 
-        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r)
+        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r, lower=True)
 
         MSE = self.optimal_par["sigma2"] * (
             1.0 - (rt ** 2.0).sum(axis=0) + (u_ ** 2.0).sum(axis=0)
-- 
2.43.0


From 2704f491945781873ea9f553ceef5b48f74e0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 07/99] fix: MGP variance mixed scaled and unscaled outputs

---
 smt/surrogate_models/krg_mgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 731b964..4d637f6 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -104,7 +104,8 @@ class MGP(KrgBased):
             u = None
             x = (x - self.X_offset) / self.X_scale
 
-        dy = self._predict_value_derivatives_hyper(x, u)
+        # derivatives of the mean, in the units of y as the variances are
+        dy = self.y_std * self._predict_value_derivatives_hyper(x, u)
         dMSE, MSE = self._predict_variance_derivatives_hyper(x, u)
 
         arg_1 = np.einsum("ij,ij->i", dy.T, linalg.solve(self.inv_sigma_R, dy).T)
-- 
2.43.0


From d65c152fe17947ea6b72b9bb724e90f2c45353ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 08/99] fix: compute_rms_error for a training derivative used
 an unset variable

---
 smt/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/misc.py b/smt/utils/misc.py
index 7ae6257..e2842c1 100644
--- a/smt/utils/misc.py
+++ b/smt/utils/misc.py
@@ -37,7 +37,7 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
         if kx is None:
             kx2 = 0
         else:
-            kx2 += 1
+            kx2 = kx + 1
         if kx2 not in sm.training_points[None]:
             raise ValueError(
                 "There is no training point data available for kx %s" % kx2
-- 
2.43.0


From 0a789faa0bda3f23257186a90dc907ad9c8dbb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 09/99] fix: IDW weights overflowed to NaN close to (or
 underflowed far from) training points

---
 smt/src/idw/idw.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/smt/src/idw/idw.cpp b/smt/src/idw/idw.cpp
index 089be6c..247f791 100644
--- a/smt/src/idw/idw.cpp
+++ b/smt/src/idw/idw.cpp
@@ -39,7 +39,7 @@ void IDW::compute_jac(int n, double* x, double* jac) {
   int min_loc;
 
   for (int i = 0; i < n; i++) {
-    min_val = 1.;
+    min_val = HUGE_VAL;
     min_loc = 0;
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
@@ -51,7 +51,7 @@ void IDW::compute_jac(int n, double* x, double* jac) {
         min_val = r2;
         min_loc = it;
       }
-      w[it] = pow(r2, -p / 2.);
+      w[it] = r2;
     }
 
     if (min_val == 0.) {
@@ -61,8 +61,10 @@ void IDW::compute_jac(int n, double* x, double* jac) {
       jac[i * nt + min_loc] = 1.;
     }
     else {
+      // Distances relative to the nearest point: the weights are in [0, 1]
       sum = 0;
       for (int it = 0; it < nt; it++) {
+        w[it] = pow(w[it] / min_val, -p / 2.);
         sum += w[it];
       }
       for (int it = 0; it < nt; it++) {
@@ -73,27 +75,20 @@ void IDW::compute_jac(int n, double* x, double* jac) {
 }
 
 void IDW::compute_jac_derivs(int n, int kx, double* x, double* jac) {
-  double r2, dr2_dx, min_val, sum, dsum_dx, d;
-  int min_loc;
+  double r2, min_val, sum, dsum_dx, d;
 
   for (int i = 0; i < n; i++) {
-    min_val = 1.;
-    min_loc = 0;
+    min_val = HUGE_VAL;
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
       for (int ix = 0; ix < nx; ix++) {
         d = x[i * nx + ix] - xt[it * nx + ix];
         r2 += pow(d, 2);
       }
-      d = x[i * nx + kx] - xt[it * nx + kx];
-      dr2_dx = 2. * d;
-
       if (r2 < min_val) {
         min_val = r2;
-        min_loc = it;
       }
-      w[it] = pow(r2, -p / 2.);
-      dw_dx[it] = -p / 2. * pow(r2, -p / 2. - 1.) * dr2_dx;
+      w[it] = r2;
     }
 
     if (min_val == 0.) {
@@ -102,9 +97,14 @@ void IDW::compute_jac_derivs(int n, int kx, double* x, double* jac) {
       }
     }
     else {
+      // Distances relative to the nearest point: the weights are in [0, 1]
       sum = 0;
       dsum_dx = 0;
       for (int it = 0; it < nt; it++) {
+        r2 = w[it];
+        d = x[i * nx + kx] - xt[it * nx + kx];
+        w[it] = pow(r2 / min_val, -p / 2.);
+        dw_dx[it] = -p * w[it] * d / r2;
         sum += w[it];
         dsum_dx += dw_dx[it];
       }
-- 
2.43.0


From 3ad848564973598847ed99a3316ed1f79bdeafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 10/99] fix: KPLSK with heteroscedastic noise dropped a
 hyperparameter as if it were the noise

---
 smt/surrogate_models/krg_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index e35f708..6b9a413 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -1105,7 +1105,7 @@ class KrgBased(SurrogateModel):
                         print("fmin_cobyla failed but the best value is retained")
 
             if "KPLSK" in self.name:
-                if self.options["eval_noise"]:
+                if self.options["eval_noise"] and not self.options["use_het_noise"]:
                     # best_optimal_theta contains [theta, noise] if eval_noise = True
                     theta = best_optimal_theta[:-1]
                 else:
-- 
2.43.0


From 667d1911bb9bd269d8542bdd83608b0a1427ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 11/99] fix: training failed with a KeyError when TNC met an
 ill-conditioned correlation matrix

---
 smt/surrogate_models/krg_based.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 6b9a413..6ee31bf 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -370,6 +370,8 @@ class KrgBased(SurrogateModel):
             List of all sigma derivatives
         """
         red, par = self._reduced_likelihood_function(theta)
+        if not par:
+            raise ValueError("The correlation matrix is ill conditioned.")
 
         C = par["C"]
         gamma = par["gamma"]
-- 
2.43.0


From 3ffd126b205cdb25b207c671e68660c404631281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 12/99] fix: likelihood gradient for several outputs

---
 smt/surrogate_models/krg_based.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 6ee31bf..c35e53c 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -430,8 +430,13 @@ class KrgBased(SurrogateModel):
             dsigma_all.append(dsigma_2)
 
             # Compute reduced log likelihood derivatives
+            # (the likelihood uses the sum of the variances of the scaled outputs)
+            dsigma_2_norma = np.trace(np.atleast_2d(dsigma_2 / self.y_std ** 2.0))
+            sigma_2_norma = np.sum(sigma_2 / self.y_std ** 2.0)
             grad_red[i_der] = (
-                -self.nt / np.log(10) * (dsigma_2 / sigma_2 + np.trace(tr) / self.nt)
+                -self.nt
+                / np.log(10)
+                * (dsigma_2_norma / sigma_2_norma + np.trace(tr) / self.nt)
             )
 
         par["dr"] = dr_all
-- 
2.43.0


From 16648c4ac124eba5f4cb6993a082efd0c9a81719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 13/99] fix: likelihood gradient with respect to an estimated
 noise

---
 smt/surrogate_models/krg_based.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index c35e53c..9126602 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -382,6 +382,11 @@ class KrgBased(SurrogateModel):
         nb_theta = len(theta)
         grad_red = np.zeros(nb_theta)
 
+        # With an estimated homoscedastic noise, the last hyperparameter is the noise
+        nb_corr = nb_theta
+        if self.options["eval_noise"] and not self.options["use_het_noise"]:
+            nb_corr = self.D.shape[1]
+
         dr_all = []
         tr_all = []
         dmu_all = []
@@ -391,15 +396,18 @@ class KrgBased(SurrogateModel):
 
         for i_der in range(nb_theta):
             # Compute R derivatives
-            dr = self._correlation_types[self.options["corr"]](
-                theta, self.D, grad_ind=i_der
-            )
+            if i_der < nb_corr:
+                dr = self._correlation_types[self.options["corr"]](
+                    theta[:nb_corr], self.D, grad_ind=i_der
+                )
 
-            dr_all.append(dr)
+                dr_all.append(dr)
 
-            dR = np.zeros((self.nt, self.nt))
-            dR[self.ij[:, 0], self.ij[:, 1]] = dr[:, 0]
-            dR[self.ij[:, 1], self.ij[:, 0]] = dr[:, 0]
+                dR = np.zeros((self.nt, self.nt))
+                dR[self.ij[:, 0], self.ij[:, 1]] = dr[:, 0]
+                dR[self.ij[:, 1], self.ij[:, 0]] = dr[:, 0]
+            else:
+                dR = np.eye(self.nt)
 
             # Compute beta derivatives
             Cinv_dR_gamma = linalg.solve_triangular(C, np.dot(dR, gamma), lower=True)
-- 
2.43.0


From 1c5abbbb6d12ff35f2eeba31402f61c692537d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 14/99] fix: COBYLA could return hyperparameters outside their
 bounds or worse than the starting point

---
 smt/surrogate_models/krg_based.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 9126602..ccea780 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -1050,6 +1050,16 @@ class KrgBased(SurrogateModel):
 
                     optimal_theta = optimal_theta_res["x"]
 
+                    # COBYLA may stop before convergence, slightly outside the
+                    # bounds or at a point worse than its starting point
+                    if self.options["hyper_opt"] == "Cobyla":
+                        lower, upper = np.array(bounds_hyp).T
+                        optimal_theta = np.clip(optimal_theta, lower, upper)
+                        if minus_reduced_likelihood_function(
+                            theta0
+                        ) < minus_reduced_likelihood_function(optimal_theta):
+                            optimal_theta = theta0
+
                     if self.name not in ["MGP"]:
                         optimal_theta = 10 ** optimal_theta
 
-- 
2.43.0


From a192ae2fad0deb393bb4a1b4f4988ba862120bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 15/99] fix: RMTS output derivatives used the system of the
 last output and a previous iterate

---
 smt/surrogate_models/rmts.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 12112c2..0874341 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -550,7 +550,7 @@ class RMTS(SurrogateModel):
         # dy_dyt = dy_dw * (dR_dw)^{-1} * dR_dyt
 
         n = x.shape[0]
-        nw = self.mtx.shape[0]
+        nw = self.sol.shape[0]
         nx = x.shape[1]
         ny = self.sol.shape[1]
 
@@ -561,29 +561,28 @@ class RMTS(SurrogateModel):
             dy_dw = dy_dw * self.full_dof2coeff
         dy_dw = dy_dw.todense()
 
-        dR_dw = self.mtx
-
         dy_dyt = {}
         for kx in self.training_points[None]:
             nt = self.training_points[None][kx][0].shape[0]
 
-            dR_dyt = np.zeros((nw, nt, ny))
+            dw_dyt = np.zeros((nw, nt, ny))
             for ind_y in range(ny):
                 yt_dict = self._get_yt_dict(ind_y)
-                dR_dyt[:, :, ind_y] = self._opt_dgrad_dyt(
-                    self.sol[:, ind_y], p, yt_dict, kx
-                )
 
-            solver = get_solver(self.options["derivative_solver"])
-            solver._setup(dR_dw, self.printer)
+                # The residual's Jacobian depends on the output (and on its
+                # solution) unless the approximation is quadratic.
+                dR_dw = self._opt_hess(self.sol[:, ind_y], p, yt_dict)
+                solver = get_solver(self.options["derivative_solver"])
+                solver._setup(dR_dw, self.printer)
 
-            dw_dyt = np.zeros((nw, nt, ny))
-            for ind_t in range(nt):
-                for ind_y in range(ny):
-                    solver._solve(
-                        dR_dyt[:, ind_t, ind_y], dw_dyt[:, ind_t, ind_y], ind_y=ind_y
-                    )
-                    dw_dyt[:, ind_t, ind_y] *= -1.0
+                dR_dyt = np.array(
+                    self._opt_dgrad_dyt(self.sol[:, ind_y], p, yt_dict, kx)
+                )
+                for ind_t in range(nt):
+                    rhs = np.array(dR_dyt[:, ind_t])
+                    dw = np.zeros(nw)
+                    solver._solve(rhs, dw, ind_y=ind_y)
+                    dw_dyt[:, ind_t, ind_y] = -dw
 
             if kx == 0:
                 dy_dyt[None] = np.einsum("ij,jkl->ikl", dy_dw, dw_dyt)
-- 
2.43.0


From b0bdcea04c07817e7a93cdb2fd384979f1fcbed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 16/99] fix: RMTS grad_weight had no effect, derivatives set
 before values broke training

---
 smt/surrogate_models/rmts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 0874341..5c92f14 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -167,7 +167,7 @@ class RMTS(SurrogateModel):
             if kx == 0:
                 c = 1.0
             else:
-                self.options["grad_weight"] / xlimits.shape[0]
+                c = self.options["grad_weight"] / xlimits.shape[0]
 
             full_jac = self._compute_jac(kx, 0, xt)
             full_jac_dict[kx] = (full_jac, full_jac.T.tocsc(), c)
-- 
2.43.0


From f1480eec158d75da864c0e764d30f22bbe0db044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 17/99] fix: RMTS training failed for outputs that are zero
 everywhere

---
 smt/surrogate_models/rmts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 5c92f14..99153d8 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -390,6 +390,9 @@ class RMTS(SurrogateModel):
         """
         Train the model
         """
+        # not set by the solver if the starting point already is the solution
+        self.mtx = None
+
         with self.printer._timed_context("Pre-computing matrices", "assembly"):
 
             with self.printer._timed_context("Computing dof2coeff", "dof2coeff"):
-- 
2.43.0


From 45e1af875122bff9c32483727fd5bbafc4b9a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 18/99] fix: bracketed line searches could loop forever, fail
 or return nothing

---
 smt/utils/line_search.py | 48 ++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 3981415..20b2695 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -167,12 +167,29 @@ class BracketedLineSearch(LineSearch):
                 p2 = self._phi(a2)
                 dp2 = self._dphi(a2)
 
+        # Still decreasing: the last step satisfying the sufficient decrease condition.
+        return self.x + a1 * self.dx
+
     def _zoom(self, a1, p1, dp1, a2, p2, dp2):
         """
         Find a solution in the interval, [a1, a2], assuming that phi(a1) < phi(a2).
         """
-        while True:
-            a, p, dp = self._compute_minimum(a1, p1, dp1, a2, p2, dp2)
+        for ind in range(100):
+            with np.errstate(all="ignore"):
+                try:
+                    a, p, dp = self._compute_minimum(a1, p1, dp1, a2, p2, dp2)
+                except np.linalg.LinAlgError:
+                    a = None
+
+            # Fall back on bisection if the interpolation fails or leaves the
+            # interval (and regularly, so that the interval keeps shrinking).
+            if a is None or not min(a1, a2) < a < max(a1, a2) or ind % 3 == 2:
+                a, p, dp = BracketedLineSearch._compute_minimum(
+                    self, a1, p1, dp1, a2, p2, dp2
+                )
+                if a == a1 or a == a2:
+                    # The interval cannot be divided any further.
+                    break
 
             if not self._func_decreased(a) or p > p1:
                 # If still lower than initial f or still higher than low
@@ -193,6 +210,10 @@ class BracketedLineSearch(LineSearch):
                 p1 = p
                 dp1 = dp
 
+        # The curvature condition cannot be met (to working precision), but the
+        # lower end of the interval satisfies the sufficient decrease condition.
+        return self.x + a1 * self.dx
+
     def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
         """
         Estimate the minimum as the midpoint.
@@ -240,21 +261,16 @@ class CubicLineSearch(BracketedLineSearch):
         d0 = c1
         d1 = 2 * c2
         d2 = 3 * c3
-        r1, r2 = np.roots([d2, d1, d0])
 
-        a = None
+        a, dp = None, None
         p = max(p1, p2)
-        if (a1 <= r1 <= a2 or a2 <= r1 <= a1) and np.isreal(r1):
-            px = self._phi(r1)
-            if px < p:
-                a = r1
-                p = px
-                dp = self._dphi(r1)
-        if (a1 <= r2 <= a2 or a2 <= r2 <= a1) and np.isreal(r2):
-            px = self._phi(r2)
-            if px < p:
-                a = r2
-                p = px
-                dp = self._dphi(r2)
+        # there are fewer than two roots if the cubic term vanishes
+        for r in np.roots([d2, d1, d0]):
+            if np.isreal(r) and min(a1, a2) <= np.real(r) <= max(a1, a2):
+                pr = self._phi(np.real(r))
+                if pr < p:
+                    a = np.real(r)
+                    p = pr
+                    dp = self._dphi(a)
 
         return a, p, dp
-- 
2.43.0


From 3fa05f41901d9ef02247714fe91f0ced543eaccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 19/99] fix: dense solvers ignored the back substitution for
 strided solutions and refused sparse matrices, clones lost their options

---
 smt/utils/linear_solvers.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 75939e6..5b78a2c 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -117,7 +117,7 @@ class LinearSolver(object):
 
     def _clone(self):
         clone = self.__class__()
-        clone.options.update(clone.options._dict)
+        clone.options.update(self.options._dict)
         return clone
 
     @contextlib.contextmanager
@@ -138,7 +138,7 @@ class DenseCholeskySolver(LinearSolver):
     def _setup(self, mtx, printer, mg_matrices=[]):
         self.printer = printer
         with self._active(self.options["print_init"]) as printer:
-            self.mtx = mtx.A
+            self.mtx = mtx.A if scipy.sparse.issparse(mtx) else mtx
             assert isinstance(self.mtx, np.ndarray), "mtx is of type %s" % type(mtx)
 
             with printer._timed_context(
@@ -154,11 +154,8 @@ class DenseCholeskySolver(LinearSolver):
                 sol = np.array(rhs)
 
             with printer._timed_context("Back solving (%i x %i mtx)" % self.mtx.shape):
-                sol[:] = rhs
-                scipy.linalg.solve_triangular(
-                    self.upper, sol, overwrite_b=True, trans="T"
-                )
-                scipy.linalg.solve_triangular(self.upper, sol, overwrite_b=True)
+                tmp = scipy.linalg.solve_triangular(self.upper, rhs, trans="T")
+                sol[:] = scipy.linalg.solve_triangular(self.upper, tmp)
 
         return sol
 
@@ -167,13 +164,13 @@ class DenseLUSolver(LinearSolver):
     def _setup(self, mtx, printer, mg_matrices=[]):
         self.printer = printer
         with self._active(self.options["print_init"]) as printer:
-            self.mtx = mtx
-            assert isinstance(mtx, np.ndarray), "mtx is of type %s" % type(mtx)
+            self.mtx = mtx.A if scipy.sparse.issparse(mtx) else mtx
+            assert isinstance(self.mtx, np.ndarray), "mtx is of type %s" % type(mtx)
 
             with printer._timed_context(
                 "Performing LU fact. (%i x %i mtx)" % mtx.shape
             ):
-                self.fact = scipy.linalg.lu_factor(mtx)
+                self.fact = scipy.linalg.lu_factor(self.mtx)
 
     def _solve(self, rhs, sol=None, ind_y=0):
         with self._active(self.options["print_solve"]) as printer:
-- 
2.43.0


From ce8d41ba56f88c49eec25a6165e0330299df7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 20/99] fix: printing state was not restored after a failed
 operation

---
 smt/utils/caching.py        | 13 +++++++------
 smt/utils/linear_solvers.py |  6 ++++--
 smt/utils/printer.py        |  6 ++++--
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/smt/utils/caching.py b/smt/utils/caching.py
index dd7a02c..cdd7af8 100644
--- a/smt/utils/caching.py
+++ b/smt/utils/caching.py
@@ -68,12 +68,13 @@ def _caching_checksum(obj):
     except:
         pass
 
-    self_pkl = pickle.dumps(obj)
-    checksum = hashlib.md5(self_pkl).hexdigest()
-
     try:
-        obj["self"].printer = tmp
-    except:
-        pass
+        self_pkl = pickle.dumps(obj)
+        checksum = hashlib.md5(self_pkl).hexdigest()
+    finally:
+        try:
+            obj["self"].printer = tmp
+        except:
+            pass
 
     return checksum
diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 5b78a2c..83c73be 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -125,8 +125,10 @@ class LinearSolver(object):
         orig_active = self.printer.active
 
         self.printer.active = self.printer.active and active
-        yield self.printer
-        self.printer.active = orig_active
+        try:
+            yield self.printer
+        finally:
+            self.printer.active = orig_active
 
 
 class NullSolver(LinearSolver):
diff --git a/smt/utils/printer.py b/smt/utils/printer.py
index 9377a60..30fa354 100644
--- a/smt/utils/printer.py
+++ b/smt/utils/printer.py
@@ -117,8 +117,10 @@ class Printer(object):
 
         start_time = time.time()
         self.depth += 1
-        yield
-        self.depth -= 1
+        try:
+            yield
+        finally:
+            self.depth -= 1
         stop_time = time.time()
 
         if string is not None:
-- 
2.43.0


From edb68c1c29b80ab409299bc975c403562dfd2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 21/99] fix: MOE accepted a selection that leaves no expert

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index ff373ef..88d07b4 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -367,7 +367,7 @@ class MOE(SurrogateBasedApplication):
                 if name not in self.options["deny"]
             }
         if not prototypes:
-            ValueError(
+            raise ValueError(
                 "List of possible experts is empty: check support, allow and deny options wrt"
             )
         return {name: self._surrogate_type[name] for name in prototypes}
-- 
2.43.0


From 274f30fbb2cfdb0d4eafd885b4d33352ce053ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 22/99] fix: MOE failed when derivative outputs for the
 clustering (ct) were given

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 88d07b4..684c4c9 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -206,7 +206,7 @@ class MOE(SurrogateBasedApplication):
             self.x = x = self.options["xt"]
             self.y = y = self.options["yt"]
         self.c = c = self.options["ct"]
-        if not self.c:
+        if self.c is None:
             self.c = c = y
 
         self.n_clusters = self.options["n_clusters"]
-- 
2.43.0


From abfeb5d26644d40f6977d8a644454bc336c0987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 23/99] fix: MOE ranked the experts by the error of every
 prediction against every reference

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 684c4c9..7c54617 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -551,7 +551,7 @@ class MOE(SurrogateBasedApplication):
             sm.train()
 
             expected = test_values[:, dim]
-            actual = sm.predict_values(test_values[:, 0:dim])
+            actual = sm.predict_values(test_values[:, 0:dim])[:, 0]
             l_two = np.linalg.norm(expected - actual, 2)
             # l_two_rel = l_two / np.linalg.norm(expected, 2)
             # mse = (l_two**2) / len(expected)
-- 
2.43.0


From f1b3c8ef88b6506c250da65a4c655c32a0d37ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 24/99] fix: MOE cluster probabilities were all zero far from
 the clusters

---
 smt/applications/moe.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 7c54617..477a080 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -701,14 +701,15 @@ class MOE(SurrogateBasedApplication):
         - prob: array_like
             x membership probability for each cluster
         """
+        # work with logarithms: densities underflow far from the clusters
         weights = np.array(self.cluster.weights_)
-        rvs = np.array([distribs[k].pdf(x) for k in range(len(weights))])
-
-        probs = weights * rvs
-        rad = np.sum(probs)
+        with np.errstate(divide="ignore"):
+            logs = np.log(weights) + np.array(
+                [distribs[k].logpdf(x) for k in range(len(weights))]
+            )
 
-        if rad > 0:
-            probs = probs / rad
+        probs = np.exp(logs - np.max(logs))
+        probs = probs / np.sum(probs)
         return probs
 
     def _proba_cluster(self, x, distribs=None):
-- 
2.43.0


From b7b469d5e72ec887a02e5cfa22afb5bee527cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 25/99] fix: components printed although global printing was
 disabled

---
 smt/applications/ego.py           |  6 +++---
 smt/applications/moe.py           | 21 ++++++++++++++++-----
 smt/surrogate_models/genn.py      |  2 +-
 smt/surrogate_models/krg_based.py | 30 ++++++++++++++++++------------
 4 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index bfecfad..b668e1a 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -351,9 +351,9 @@ class EGO(SurrogateBasedApplication):
                     )
 
                 except ValueError:  # in case "x0 violates bound constraints" error
-                    print("warning: `x0` violates bound constraints")
-                    print("x0={}".format(x_start[ii, :]))
-                    print("bounds={}".format(bounds))
+                    self.log("warning: `x0` violates bound constraints")
+                    self.log("x0={}".format(x_start[ii, :]))
+                    self.log("bounds={}".format(bounds))
                     opt_all.append({"success": False})
 
             opt_all = np.asarray(opt_all)
diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 477a080..26f5639 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -6,7 +6,6 @@ This package is distributed under New BSD license.
 Mixture of Experts
 """
 # TODO : support for best number of clusters
-# TODO : implement verbosity 'print_global'
 # TODO : documentation
 
 import numpy as np
@@ -102,6 +101,12 @@ class MOE(SurrogateBasedApplication):
         super(MOE, self)._initialize()
         declare = self.options.declare
 
+        declare(
+            "print_global",
+            True,
+            types=bool,
+            desc="Global print toggle. If False, all printing is suppressed",
+        )
         declare("xt", None, types=np.ndarray, desc="Training inputs")
         declare("yt", None, types=np.ndarray, desc="Training outputs")
         declare(
@@ -254,13 +259,17 @@ class MOE(SurrogateBasedApplication):
         # Heaviside factor
         if self.heaviside_optimization and self.n_clusters > 1:
             self.heaviside_factor = self._find_best_heaviside_factor(xtest, ytest)
-            print("Best Heaviside factor = {}".format(self.heaviside_factor))
+            self._print("Best Heaviside factor = {}".format(self.heaviside_factor))
             self.distribs = self._create_clusters_distributions(self.heaviside_factor)
 
         if not test_data_present:
             # if we have used part of data to validate, fit on overall data
             self._fit(x, y, c, new_model=False)
 
+    def _print(self, message):
+        if self.options["print_global"]:
+            print(message)
+
     def predict_values(self, x):
         """
         Predict the output values at a set of points.
@@ -328,7 +337,9 @@ class MOE(SurrogateBasedApplication):
         # choice of number of cluster
         max_n_clusters = int(len(self.x) / 10) + 1
         if self.n_clusters > max_n_clusters:
-            print("Number of clusters should be inferior to {0}".format(max_n_clusters))
+            self._print(
+                "Number of clusters should be inferior to {0}".format(max_n_clusters)
+            )
             raise ValueError(
                 "The number of clusters is too high considering the number of points"
             )
@@ -557,7 +568,7 @@ class MOE(SurrogateBasedApplication):
             # mse = (l_two**2) / len(expected)
             # rmse = mse ** 0.5
             scores[sm.name] = l_two
-            print(sm.name, l_two)
+            self._print("{} {}".format(sm.name, l_two))
             sms[sm.name] = sm
 
         best_name = None
@@ -566,7 +577,7 @@ class MOE(SurrogateBasedApplication):
             if best_score is None or rmse < best_score:
                 best_name, best_score = name, rmse
 
-        print("Best expert = {}".format(best_name))
+        self._print("Best expert = {}".format(best_name))
         return sms[best_name]
 
     def _find_best_heaviside_factor(self, x, y):
diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index ac20253..e7974e0 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -182,7 +182,7 @@ class GENN(SurrogateModel):
         num_iterations = self.options["num_iterations"]
         num_epochs = self.options["num_epochs"]
         seed = self.options["seed"]
-        is_print = self.options["is_print"]
+        is_print = self.options["is_print"] and self.options["print_global"]
 
         # number of inputs and outputs
         n_x = X.shape[0]
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index ccea780..063f358 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -161,9 +161,10 @@ class KrgBased(SurrogateModel):
         # Calculate matrix of distances D between samples
         D, self.ij = cross_distances(self.X_norma)
         if np.min(np.sum(np.abs(D), axis=1)) == 0.0:
-            print(
-                "Warning: multiple x input features have the same value (at least same row twice)."
-            )
+            if self.options["print_global"]:
+                print(
+                    "Warning: multiple x input features have the same value (at least same row twice)."
+                )
         ####
         # Regression matrix and parameters
         self.F = self._regression_types[self.options["poly"]](self.X_norma)
@@ -260,7 +261,8 @@ class KrgBased(SurrogateModel):
         try:
             C = linalg.cholesky(R, lower=True)
         except (linalg.LinAlgError, ValueError) as e:
-            print("exception : ", e)
+            if self.options["print_global"]:
+                print("exception : ", e)
             # raise e
             return reduced_likelihood_function_value, par
 
@@ -940,9 +942,10 @@ class KrgBased(SurrogateModel):
                         self.theta0[i] * (theta_bounds[1] - theta_bounds[0])
                         + theta_bounds[0]
                     )
-                    print(
-                        "Warning: theta0 is out the feasible bounds. A random initialisation is used instead."
-                    )
+                    if self.options["print_global"]:
+                        print(
+                            "Warning: theta0 is out the feasible bounds. A random initialisation is used instead."
+                        )
 
                 if self.name in ["MGP"]:  # to be discussed with R. Priem
                     constraints.append(lambda theta, i=i: theta[i] + theta_bounds[1])
@@ -985,9 +988,10 @@ class KrgBased(SurrogateModel):
                             or self.noise0[i] > noise_bounds[1]
                         ):
                             self.noise0[i] = noise_bounds[0]
-                            print(
-                                "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
-                            )
+                            if self.options["print_global"]:
+                                print(
+                                    "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
+                                )
 
                     theta0 = np.concatenate(
                         [theta0, np.log10(np.array([self.noise0]).flatten())]
@@ -1122,12 +1126,14 @@ class KrgBased(SurrogateModel):
                                 )
                     # Optimization fail
                     elif best_optimal_par == []:
-                        print("Optimization failed. Try increasing the ``nugget``")
+                        if self.options["print_global"]:
+                            print("Optimization failed. Try increasing the ``nugget``")
                         raise ve
                     # Break the while loop
                     else:
                         k = stop + 1
-                        print("fmin_cobyla failed but the best value is retained")
+                        if self.options["print_global"]:
+                            print("fmin_cobyla failed but the best value is retained")
 
             if "KPLSK" in self.name:
                 if self.options["eval_noise"] and not self.options["use_het_noise"]:
-- 
2.43.0


From a6e113861763ea58a6a118403511266db8ab8fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 26/99] fix: Krylov solver could diverge below the working
 precision and return that iterate

---
 smt/utils/linear_solvers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 83c73be..dbd378f 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -66,6 +66,8 @@ class Callback(object):
         self.mtx = None
         self.rhs = None
         self.norm0 = 1.0
+        self.best_norm = np.inf
+        self.best_sol = None
 
     def _print_norm(self, norm):
         if self.counter == 0:
@@ -92,6 +94,9 @@ class Callback(object):
     def _print_sol(self, sol):
         res = self.mtx.dot(sol) - self.rhs
         norm = np.linalg.norm(res)
+        if norm < self.best_norm:
+            self.best_norm = norm
+            self.best_sol = np.array(sol)
         self._print_norm(norm)
 
 
@@ -296,6 +301,7 @@ class KrylovSolver(LinearSolver):
                 self.callback.ind_y = ind_y
                 self.callback.mtx = self.mtx
                 self.callback.rhs = rhs
+                self.callback.best_norm = np.inf
 
                 self.callback._print_sol(sol)
                 tmp, info = self.solver(
@@ -307,6 +313,12 @@ class KrylovSolver(LinearSolver):
                     **self.solver_kwargs
                 )
 
+                # The iterations can diverge once they have reached the working
+                # precision: do not return anything worse than the best iterate.
+                norm = np.linalg.norm(self.mtx.dot(tmp) - rhs)
+                if not norm <= self.callback.best_norm:
+                    tmp = self.callback.best_sol
+
             sol[:] = tmp
 
         return sol
-- 
2.43.0


From 0ca5220286dcc4bbdfc1e9bf9c502cafacdb2f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 27/99] fix: VFM modified the option dictionaries and model
 names given by the caller

---
 smt/applications/vfm.py | 53 +++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 610e2af..0f08335 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -158,9 +158,12 @@ class VFM(SurrogateBasedApplication):
         self._check_param()
 
         # Train the low fidelity model
-        self.LF_deriv = self.options["options_LF"]["deriv"]
-        del self.options["options_LF"]["deriv"]
-        sm_LF = self.options["name_model_LF"](**self.options["options_LF"])
+        # (the caller's dictionaries are left unchanged)
+        options_LF = dict(self.options["options_LF"])
+        options_bridge = dict(self.options["options_bridge"])
+        self.LF_deriv = options_LF.pop("deriv", False)
+        self.B_deriv = options_bridge.pop("deriv", False)
+        sm_LF = self._get_model_class(self.options["name_model_LF"])(**options_LF)
         sm_LF.options["print_global"] = False
         sm_LF.set_training_values(X_LF, y_LF)
         if self.LF_deriv:
@@ -172,8 +175,6 @@ class VFM(SurrogateBasedApplication):
         # compute the bridge data
         if self.options["type_bridge"] == "Multiplicative":
             y_bridge = y_HF / sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -189,8 +190,6 @@ class VFM(SurrogateBasedApplication):
                     ).reshape(y_HF.shape[0])
         elif self.options["type_bridge"] == "Additive":
             y_bridge = y_HF - sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -202,7 +201,9 @@ class VFM(SurrogateBasedApplication):
             raise ValueError("Only Additive and Multiplicative bridges are available")
 
         # Construct of the bridge function
-        sm_bridge = self.options["name_model_bridge"](**self.options["options_bridge"])
+        sm_bridge = self._get_model_class(self.options["name_model_bridge"])(
+            **options_bridge
+        )
         sm_bridge.set_training_values(X_HF, y_bridge)
         if self.B_deriv and self.options["dy_HF"] is not None:
             for i in range(sm_bridge.nx):
@@ -245,32 +246,16 @@ class VFM(SurrogateBasedApplication):
         This function check some parameters of the model.
         """
         # Check surrogates
-        if not callable(self.options["name_model_LF"]):
-            if self.options["name_model_LF"] in self._surrogate_type:
-                self.options["name_model_LF"] = self._surrogate_type[
-                    self.options["name_model_LF"]
-                ]
-            else:
-                raise ValueError(
-                    "The LF surrogate should be one of %s, "
-                    "%s was given."
-                    % (self._surrogate_type.keys(), self.options["name_model_LF"])
-                )
-
-        if not callable(self.options["name_model_bridge"]):
-            if self.options["name_model_bridge"] in self._surrogate_type:
-                self.options["name_model_bridge"] = self._surrogate_type[
-                    self.options["name_model_bridge"]
-                ]
-            else:
+        for label, option in (
+            ("LF", "name_model_LF"),
+            ("bridge", "name_model_bridge"),
+        ):
+            name = self.options[option]
+            if not callable(name) and name not in self._surrogate_type:
                 raise ValueError(
-                    "The bridge surrogate should be one of %s, "
-                    "%s was given."
-                    % (self._surrogate_type.keys(), self.options["name_model_bridge"])
+                    "The %s surrogate should be one of %s, "
+                    "%s was given." % (label, self._surrogate_type.keys(), name)
                 )
 
-        # Initialize the parameter deriv
-        if "deriv" not in self.options["options_LF"].keys():
-            self.options["options_LF"]["deriv"] = False
-        if "deriv" not in self.options["options_bridge"].keys():
-            self.options["options_bridge"]["deriv"] = False
+    def _get_model_class(self, name):
+        return name if callable(name) else self._surrogate_type[name]
-- 
2.43.0


From c83df45f4c9fdd83020edb224dc3103ec1d587ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 28/99] fix: QP normal equations were singular for inputs that
 vary little around their mean

---
 smt/surrogate_models/qp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index 027ae66..17d8516 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -55,7 +55,11 @@ class QP(SurrogateModel):
             )
 
         X = self._response_surface(x)
-        self.coef = np.dot(np.linalg.inv(np.dot(X.T, X)), (np.dot(X.T, y)))
+        # Least squares with columns of equal length: the normal equations are
+        # singular to working precision when the inputs vary little around a mean
+        scale = np.linalg.norm(X, axis=0)
+        scale[scale == 0.0] = 1.0
+        self.coef = np.linalg.lstsq(X / scale, y, rcond=None)[0] / scale[:, np.newaxis]
 
     def _train(self):
         """
-- 
2.43.0


From 2ec0d35ad5959b6ae63c30cede0a8a7c049bd6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 29/99] fix: some models refused training data or queries not
 in double precision

---
 smt/surrogate_models/surrogate_model.py | 28 ++++++++++++++++---------
 smt/utils/checks.py                     |  9 ++++++++
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 32e4e08..ea7b0d0 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -12,7 +12,12 @@ from abc import ABCMeta, abstractmethod
 
 from smt.utils.printer import Printer
 from smt.utils.options_dictionary import OptionsDictionary
-from smt.utils.checks import check_support, check_nx, ensure_2d_array
+from smt.utils.checks import (
+    check_support,
+    check_nx,
+    copy_as_float,
+    ensure_2d_array,
+)
 
 
 class SurrogateModel(object, metaclass=ABCMeta):
@@ -125,7 +130,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         self.nx = xt.shape[1]
         self.ny = yt.shape[1]
         kx = 0
-        self.training_points[name][kx] = [np.array(xt), np.array(yt)]
+        self.training_points[name][kx] = [copy_as_float(xt), copy_as_float(yt)]
 
     def update_training_values(
         self, yt: np.ndarray, name: Optional[str] = None
@@ -164,7 +169,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
                 + "set_training_values."
             )
 
-        self.training_points[name][kx][1] = np.array(yt)
+        self.training_points[name][kx][1] = copy_as_float(yt)
 
     def set_training_derivatives(
         self, xt: np.ndarray, dyt_dxt: np.ndarray, kx: int, name: Optional[str] = None
@@ -197,7 +202,10 @@ class SurrogateModel(object, metaclass=ABCMeta):
         if not isinstance(kx, int):
             raise ValueError("kx must be an int")
 
-        self.training_points[name][kx + 1] = [np.array(xt), np.array(dyt_dxt)]
+        self.training_points[name][kx + 1] = [
+            copy_as_float(xt),
+            copy_as_float(dyt_dxt),
+        ]
 
     def update_training_derivatives(
         self, dyt_dxt: np.ndarray, kx: int, name: Optional[str] = None
@@ -238,7 +246,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
                 + "set_training_values."
             )
 
-        self.training_points[name][kx + 1][1] = np.array(dyt_dxt)
+        self.training_points[name][kx + 1][1] = copy_as_float(dyt_dxt)
 
     def train(self) -> None:
         """
@@ -287,7 +295,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
         n = x.shape[0]
-        x2 = np.copy(x)
+        x2 = copy_as_float(x)
         self.printer.active = (
             self.options["print_global"] and self.options["print_prediction"]
         )
@@ -343,7 +351,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         # Evaluate the unknown points using the specified model-method
         with self.printer._timed_context("Predicting", key="prediction"):
-            y = self._predict_derivatives(x, kx)
+            y = self._predict_derivatives(copy_as_float(x), kx)
 
         time_pt = self.printer._time("prediction")[-1] / n
         self.printer()
@@ -371,7 +379,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
 
-        dy_dyt = self._predict_output_derivatives(x)
+        dy_dyt = self._predict_output_derivatives(copy_as_float(x))
         return dy_dyt
 
     def predict_variances(self, x: np.ndarray) -> np.ndarray:
@@ -392,7 +400,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
         n = x.shape[0]
-        x2 = np.copy(x)
+        x2 = copy_as_float(x)
         s2 = self._predict_variances(x2)
         return s2.reshape((n, self.ny))
 
@@ -428,7 +436,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         # Evaluate the unknown points using the specified model-method
         with self.printer._timed_context("Predicting", key="prediction"):
-            y = self._predict_variance_derivatives(x)
+            y = self._predict_variance_derivatives(copy_as_float(x))
 
         time_pt = self.printer._time("prediction")[-1] / n
         self.printer()
diff --git a/smt/utils/checks.py b/smt/utils/checks.py
index 509ed1e..f6110ee 100644
--- a/smt/utils/checks.py
+++ b/smt/utils/checks.py
@@ -19,6 +19,15 @@ def ensure_2d_array(array, name):
     return array
 
 
+def copy_as_float(array):
+    """
+    Copy of the array in double precision (the compiled components accept nothing else).
+    """
+    if array.dtype.kind in "biuf":
+        return np.array(array, dtype=float)
+    return np.array(array)
+
+
 def check_support(sm, name, fail=False):
     if not sm.supports[name] or fail:
         class_name = sm.__class__.__name__
-- 
2.43.0


From 1540ad8dde9c372a07263aefe6f3c4a656e37f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 30/99] fix: network training gradient multiplied the
 gradient-enhancement factor once per layer

---
 smt/utils/neural_net/bwd_prop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 7af5550..22a6c01 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -142,7 +142,7 @@ def linear_activation_backward(dA, dA_prime, cache, J_cache, lambd, gamma):
                 * np.sum(dA_prime_j * G_prime_prime * Z_prime_j, axis=1, keepdims=True)
             )
             dA_prev += gamma * np.dot(W.T, dA_prime_j * G_prime_prime * Z_prime_j)
-            dA_prime_prev[:, j, :] = gamma * np.dot(W.T, dA_prime_j * G_prime)
+            dA_prime_prev[:, j, :] = np.dot(W.T, dA_prime_j * G_prime)
 
     return dA_prev, dW, db, dA_prime_prev
 
@@ -201,6 +201,10 @@ def L_model_backward(AL, Y, AL_prime, Y_prime, caches, J_caches, lambd, gamma):
     # Initialize grads
     grads = {}
 
+    # Same limits as in the cost function (see loss.py)
+    lambd = max(0.0, lambd)
+    gamma = min(max(0.0, gamma), 1.0)
+
     # Some quantities needed
     L = len(caches)  # the number of layers
     _, m = AL.shape
-- 
2.43.0


From 535f7c2771a35f5ecac6ddf141e42e2e68eeb99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 31/99] fix: network training failed when the last mini-batch
 held a single example

---
 smt/utils/neural_net/fwd_prop.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/smt/utils/neural_net/fwd_prop.py b/smt/utils/neural_net/fwd_prop.py
index 28cc49e..109da8e 100644
--- a/smt/utils/neural_net/fwd_prop.py
+++ b/smt/utils/neural_net/fwd_prop.py
@@ -198,7 +198,4 @@ def L_grads_forward(X, parameters, activations):
         # Store partial
         JL[:, j, :] = A_prime_j
 
-    if m == 1:
-        JL = JL[:, :, 0]
-
     return JL, J_caches
-- 
2.43.0


From e617fa5013e48c1263c9024ccbf7fbd7bc11cf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 32/99] fix: network training without derivatives failed

---
 smt/surrogate_models/genn.py     | 11 ++++++-----
 smt/utils/neural_net/bwd_prop.py |  8 +++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index e7974e0..e6eb282 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -88,6 +88,10 @@ def smt_to_genn(training_points):
     Y = yt
 
     # Loop to retrieve each partial derivative from SMT training_points
+    # (without them, there is no gradient-enhancement)
+    if not any(k + 1 in training_points[None] for k in range(n_x)):
+        return X.T, Y.T, None
+
     J = np.zeros((m, n_x, n_y))
     for k in range(0, n_x):
         xt, dyt_dxt = training_points[None][k + 1]
@@ -166,16 +170,13 @@ class GENN(SurrogateModel):
         # Convert training data to format expected by neural net module
         X, Y, J = smt_to_genn(self.training_points)
 
-        # If there are no training derivatives, turn off gradient-enhancement
-        if type(J) == np.ndarray and J.size == 0:
-            self.options["gamma"] = 0.0
-
         # Get hyperparameters from SMT API
         alpha = self.options["alpha"]
         beta1 = self.options["beta1"]
         beta2 = self.options["beta2"]
         lambd = self.options["lambd"]
-        gamma = self.options["gamma"]
+        # If there are no training derivatives, turn off gradient-enhancement
+        gamma = self.options["gamma"] if J is not None else 0.0
         deep = self.options["deep"]
         wide = self.options["wide"]
         mini_batch_size = self.options["mini_batch_size"]
diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 22a6c01..404cd2c 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -39,9 +39,11 @@ def initialize_back_prop(AL, Y, AL_prime, Y_prime):
     n_y, _ = AL.shape  # number layers, number examples
     Y = Y.reshape(AL.shape)
     dAL = AL - Y  # derivative of loss function w.r.t. to activations: dAL = d(L)/dAL
-    dAL_prime = (
-        AL_prime - Y_prime
-    )  # derivative of loss function w.r.t. to partials: dAL_prime = d(L)/d(AL_prime)
+    if Y_prime is None:  # no gradient-enhancement
+        dAL_prime = np.zeros(AL_prime.shape)
+    else:
+        # derivative of loss function w.r.t. to partials: dAL_prime = d(L)/d(AL_prime)
+        dAL_prime = AL_prime - Y_prime
 
     return dAL, dAL_prime
 
-- 
2.43.0


From 669558dbf421a6874b9bdb28932bc193af25e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 33/99] fix: Adam ignored the given beta1 and beta2

---
 smt/utils/neural_net/optimizer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/utils/neural_net/optimizer.py b/smt/utils/neural_net/optimizer.py
index 4d36f8f..dec0b52 100644
--- a/smt/utils/neural_net/optimizer.py
+++ b/smt/utils/neural_net/optimizer.py
@@ -267,10 +267,8 @@ class Adam(Optimizer):
         self.v = None
         self.s = None
 
-    def _update_current_design(self, learning_rate=0.05, beta_1=0.9, beta_2=0.99):
+    def _update_current_design(self, learning_rate=0.05):
         """Adam update"""
-        self.beta_1 = beta_1
-        self.beta_2 = beta_2
         t = self._current_iteration + 1
 
         if self.v is None:
@@ -286,9 +284,10 @@ class Adam(Optimizer):
 
         for key in self._current_design.keys():
             self.v[key] = (
-                self.beta_1 * self.v[key] + (1.0 - beta_1) * self._search_direction[key]
+                self.beta_1 * self.v[key]
+                + (1.0 - self.beta_1) * self._search_direction[key]
             )
-            self.s[key] = self.beta_2 * self.s[key] + (1.0 - beta_2) * np.square(
+            self.s[key] = self.beta_2 * self.s[key] + (1.0 - self.beta_2) * np.square(
                 self._search_direction[key]
             )
             v_corrected = self.v[key] / (1.0 - self.beta_1 ** t)
-- 
2.43.0


From b60bf3ef62547698cd3f0af4385fa42367cfba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 34/99] fix: network initial parameters did not follow the seed

---
 smt/surrogate_models/genn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index e6eb282..a24482f 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -189,7 +189,9 @@ class GENN(SurrogateModel):
         n_x = X.shape[0]
         n_y = Y.shape[0]
 
-        # Train neural net
+        # Train neural net (the seed also governs the initial parameters)
+        if seed is not None:
+            np.random.seed(seed)
         self.model = Model.initialize(n_x, n_y, deep, wide)
         self.model.train(
             X=X,
-- 
2.43.0


From c23b2c29759b6afb893dedd65c3dff86ca4d719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 35/99] fix: GENN goodness_of_fit replaced the training data by
 the validation data

---
 smt/surrogate_models/genn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index a24482f..5befb53 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -243,7 +243,10 @@ class GENN(SurrogateModel):
         :param dyv_dxv: np.ndarray[n, ny], dydx validation derivatives
         """
         # Store current training points
-        training_points = self.training_points
+        training_points = {
+            name: dict(points) for name, points in self.training_points.items()
+        }
+        sizes = self.nt, self.nx, self.ny
 
         # Replace training points with test (validation) points
         load_smt_data(self, xv, yv, dyv_dxv)
@@ -255,7 +258,9 @@ class GENN(SurrogateModel):
         self.model.goodness_of_fit(X, Y)
 
         # Restore training points
-        self.training_points = training_points
+        self.training_points.clear()
+        self.training_points.update(training_points)
+        self.nt, self.nx, self.ny = sizes
 
 
 def run_example(is_gradient_enhancement=True):  # pragma: no cover
-- 
2.43.0


From 32491f7647af9ea3b0991c22c106461f3dfa30f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 36/99] fix: network normalisation divided by zero for constant
 inputs or outputs

---
 smt/utils/neural_net/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 91f058c..7007d66 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -179,7 +179,7 @@ def normalize_data(X, Y, J=None, is_classification=False):
     sigma_x = np.ones((n_x, 1))
     for i in range(0, n_x):
         mu_x[i] = np.mean(X[i])
-        sigma_x[i] = np.std(X[i])
+        sigma_x[i] = np.std(X[i]) or 1.0  # constant input
         X_norm[i] = (X[i] - mu_x[i]) / sigma_x[i]
 
     # Normalize outputs
@@ -190,7 +190,7 @@ def normalize_data(X, Y, J=None, is_classification=False):
     else:
         for i in range(0, n_y):
             mu_y[i] = np.mean(Y[i])
-            sigma_y[i] = np.std(Y[i])
+            sigma_y[i] = np.std(Y[i]) or 1.0  # constant output
             Y_norm[i] = (Y[i] - mu_y[i]) / sigma_y[i]
 
     # Normalize partials
-- 
2.43.0


From b1c8a6c5b64a27d08d77b9867e705bd02bb3348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 37/99] fix: network training data Jacobian was not rescaled
 per output and input

---
 smt/utils/neural_net/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 47e66fd..df87533 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -98,7 +98,11 @@ class Model(object):
     def training_data(self):
         X = self._X_norm * self._scale_factors["x"][1] + self._scale_factors["x"][0]
         Y = self._Y_norm * self._scale_factors["y"][1] + self._scale_factors["y"][0]
-        J = self._J_norm * self._scale_factors["y"][1] / self._scale_factors["x"][1]
+        J = None
+        if self._J_norm is not None:
+            sigma_x = self._scale_factors["x"][1]
+            sigma_y = self._scale_factors["y"][1]
+            J = self._J_norm * sigma_y.reshape(-1, 1, 1) / sigma_x.reshape(1, -1, 1)
         return X, Y, J
 
     def __init__(self, **kwargs):
-- 
2.43.0


From d1a799b865ec76ab1fc75bb07bd3688a7882ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 38/99] fix: GENN accepted derivatives given at other points
 than the values

---
 smt/surrogate_models/genn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 5befb53..c48dfcb 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -103,7 +103,7 @@ def smt_to_genn(training_points):
         assert dyt_dxt.shape[1] == n_y
 
         # Assert that derivatives provided are for the same training points
-        assert xt.all() == X.all()
+        assert np.array_equal(xt, X)
 
         # Assign training derivative but transpose to match neural net implementation
         J[:, k, :] = dyt_dxt
-- 
2.43.0


From 41a2407a2fb0995a6d6b9eaa349d056b43272f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 39/99] fix: network normalisation divided by rounding noise
 for constants

---
 smt/utils/neural_net/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 7007d66..2df164a 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -179,7 +179,7 @@ def normalize_data(X, Y, J=None, is_classification=False):
     sigma_x = np.ones((n_x, 1))
     for i in range(0, n_x):
         mu_x[i] = np.mean(X[i])
-        sigma_x[i] = np.std(X[i]) or 1.0  # constant input
+        sigma_x[i] = np.std(X[i]) if np.ptp(X[i]) > 0 else 1.0  # constant input
         X_norm[i] = (X[i] - mu_x[i]) / sigma_x[i]
 
     # Normalize outputs
@@ -190,7 +190,7 @@ def normalize_data(X, Y, J=None, is_classification=False):
     else:
         for i in range(0, n_y):
             mu_y[i] = np.mean(Y[i])
-            sigma_y[i] = np.std(Y[i]) or 1.0  # constant output
+            sigma_y[i] = np.std(Y[i]) if np.ptp(Y[i]) > 0 else 1.0  # constant output
             Y_norm[i] = (Y[i] - mu_y[i]) / sigma_y[i]
 
     # Normalize partials
-- 
2.43.0


From 3bceed9c5574609659e53eee440a13bc2c1dd249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 40/99] fix: OptionsDictionary.clone shared mutable option
 values with the original

---
 smt/utils/options_dictionary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index c3b2b7c..9886201 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -3,6 +3,7 @@ Author: Dr. John T. Hwang <hwangjt@umich.edu>
         
 This package is distributed under New BSD license.
 """
+from copy import deepcopy
 
 
 class OptionsDictionary(object):
@@ -31,8 +32,8 @@ class OptionsDictionary(object):
             Deep-copied clone.
         """
         clone = self.__class__()
-        clone._dict = dict(self._dict)
-        clone._declared_entries = dict(self._declared_entries)
+        clone._dict = deepcopy(self._dict)
+        clone._declared_entries = deepcopy(self._declared_entries)
         return clone
 
     def __getitem__(self, name):
-- 
2.43.0


From ac8d473b82f8067671ab3a2b6e629a8c1737d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 41/99] fix: options declared with a list of types, or arrays
 with values and types, were refused

---
 smt/utils/options_dictionary.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index 9886201..2772ddb 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -83,8 +83,9 @@ class OptionsDictionary(object):
         types = self._declared_entries[name]["types"]
 
         if values is not None and types is not None:
-            assert value in values or isinstance(
-                value, types
+            # types first: arrays cannot be searched for in values
+            assert (
+                isinstance(value, types) or value in values
             ), "Option %s: value and type of %s are both invalid - " % (
                 name,
                 value,
@@ -137,6 +138,9 @@ class OptionsDictionary(object):
         desc : str
             Optional description of the option.
         """
+        if isinstance(types, list):
+            types = tuple(types)
+
         self._declared_entries[name] = {
             "values": values,
             "types": types,
-- 
2.43.0


From 2ad0dde361e36d7bb839d00d544510da230f29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 42/99] fix: FullFactorial modified the weights given by the
 caller and refused integer weights

---
 smt/sampling_methods/full_factorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/sampling_methods/full_factorial.py b/smt/sampling_methods/full_factorial.py
index b6a3856..0fc63bb 100644
--- a/smt/sampling_methods/full_factorial.py
+++ b/smt/sampling_methods/full_factorial.py
@@ -48,7 +48,7 @@ class FullFactorial(ScaledSamplingMethod):
             weights = np.ones(nx) / nx
         else:
             weights = np.atleast_1d(self.options["weights"])
-            weights /= np.sum(weights)
+            weights = weights / np.sum(weights)
 
         num_list = np.ones(nx, int)
         while np.prod(num_list) < nt:
-- 
2.43.0


From 85298bf060f1a5b44caa182affeffec70348d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 43/99] fix: kriging refused theta0 and noise0 given as arrays
 of length one

---
 smt/surrogate_models/krg_based.py | 4 ++--
 smt/surrogate_models/krg_mgp.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 063f358..baef9bc 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -1185,7 +1185,7 @@ class KrgBased(SurrogateModel):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the length of theta0 (%s) should be equal to the number of dim (%s)."
@@ -1195,7 +1195,7 @@ class KrgBased(SurrogateModel):
         if self.options["use_het_noise"] and not self.options["eval_noise"]:
             if len(self.options["noise0"]) != self.nt:
                 if len(self.options["noise0"]) == 1:
-                    self.options["noise0"] *= np.ones(self.nt)
+                    self.options["noise0"] = self.options["noise0"] * np.ones(self.nt)
                 else:
                     raise ValueError(
                         "for the heteroscedastic case, the length of noise0 (%s) should be equal to the number of observations (%s)."
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 4d637f6..b22c65e 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -511,7 +511,7 @@ class MGP(KrgBased):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the number of dim %s should be equal to the length of theta0 %s."
-- 
2.43.0


From cb53e14a9a4790b7de7ed551ae652d5607bf8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 44/99] fix: training kriging models changed their options, and
 so any later training

---
 smt/surrogate_models/krg_based.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index baef9bc..d738f21 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -196,7 +196,18 @@ class KrgBased(SurrogateModel):
         """
         # outputs['sol'] = self.sol
 
-        self._new_train()
+        # The training adapts these options to the data (e.g. one theta0 for each
+        # dimension): the values which were given are restored afterwards.
+        given = {}
+        for name in ["theta0", "noise0", "n_comp", "eval_noise"]:
+            if self.options.is_declared(name):
+                given[name] = self.options[name]
+                self.options[name] = deepcopy(given[name])
+
+        try:
+            self._new_train()
+        finally:
+            self.options.update(given)
 
     def _reduced_likelihood_function(self, theta):
         """
-- 
2.43.0


From b84a4bab804fab3aeada48ab1b9ca0cdfeb5979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 45/99] fix: RBF replaced its d0 option in training and did not
 check its length

---
 smt/surrogate_models/rbf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index dc0f3da..a88d3c1 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -60,9 +60,11 @@ class RBF(SurrogateModel):
         options = self.options
 
         nx = self.training_points[None][0][0].shape[1]
-        if isinstance(options["d0"], (int, float)):
-            options["d0"] = [options["d0"]] * nx
-        options["d0"] = np.array(np.atleast_1d(options["d0"]), dtype=float)
+        d0 = np.array(options["d0"], dtype=float)
+        if d0.ndim == 0:
+            d0 = np.repeat(d0, nx)
+        if d0.shape != (nx,):
+            raise ValueError("d0 should be a number or have one entry for each input")
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -92,7 +94,7 @@ class RBF(SurrogateModel):
             nt,
             num["dof"],
             options["poly_degree"],
-            options["d0"],
+            d0,
             xt.flatten(),
         )
 
-- 
2.43.0


From accadee65ce73b26db80c0c74e0befe72288372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 46/99] fix: RMTB and RMTC replaced options in training, and
 did not check the length of list options

---
 smt/surrogate_models/rmtb.py |  9 ++-------
 smt/surrogate_models/rmtc.py |  7 +------
 smt/surrogate_models/rmts.py | 23 ++++++++++++++++++-----
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/smt/surrogate_models/rmtb.py b/smt/surrogate_models/rmtb.py
index f0b6b19..fd1853f 100644
--- a/smt/surrogate_models/rmtb.py
+++ b/smt/surrogate_models/rmtb.py
@@ -59,20 +59,15 @@ class RMTB(RMTS):
         options = self.options
         nx = self.training_points[None][0][0].shape[1]
 
-        for name in ["smoothness", "num_ctrl_pts", "order"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
-
         self.printer.max_print_depth = options["max_print_depth"]
 
         num = {}
         # number of inputs and outputs
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
-        num["order_list"] = np.array(options["order"], int)
+        num["order_list"] = np.array(self._get_list_option("order", nx), int)
         num["order"] = np.prod(num["order_list"])
-        num["ctrl_list"] = np.array(options["num_ctrl_pts"], int)
+        num["ctrl_list"] = np.array(self._get_list_option("num_ctrl_pts", nx), int)
         num["ctrl"] = np.prod(num["ctrl_list"])
         num["elem_list"] = np.array(num["ctrl_list"] - num["order_list"] + 1, int)
         num["elem"] = np.prod(num["elem_list"])
diff --git a/smt/surrogate_models/rmtc.py b/smt/surrogate_models/rmtc.py
index 7a43602..880e586 100644
--- a/smt/surrogate_models/rmtc.py
+++ b/smt/surrogate_models/rmtc.py
@@ -52,11 +52,6 @@ class RMTC(RMTS):
         options = self.options
         nx = self.training_points[None][0][0].shape[1]
 
-        for name in ["smoothness", "num_elements"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
-
         self.printer.max_print_depth = options["max_print_depth"]
 
         num = {}
@@ -64,7 +59,7 @@ class RMTC(RMTS):
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
         # number of elements
-        num["elem_list"] = np.array(options["num_elements"], int)
+        num["elem_list"] = np.array(self._get_list_option("num_elements", nx), int)
         num["elem"] = np.prod(num["elem_list"])
         # number of terms/coefficients per element
         num["term_list"] = 4 * np.ones(num["x"], int)
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 99153d8..70b5fe9 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -128,6 +128,17 @@ class RMTS(SurrogateModel):
         supports["derivatives"] = True
         supports["output_derivatives"] = True
 
+    def _get_list_option(self, name, nx):
+        # the value of the option for each input, given as one number or as a list
+        value = np.array(self.options[name])
+        if value.ndim == 0:
+            value = np.repeat(value, nx)
+        if value.shape != (nx,):
+            raise ValueError(
+                "%s should be a number or have one entry for each input" % name
+            )
+        return value
+
     def _setup_hessian(self):
         diag = np.ones(self.num["dof"])
         arange = np.arange(self.num["dof"])
@@ -211,6 +222,7 @@ class RMTS(SurrogateModel):
 
                 outputs["sq_mtx"] = sq_mtx
 
+        smoothness = self._get_list_option("smoothness", num["x"])
         elem_vol = np.prod((xlimits[:, 1] - xlimits[:, 0]) / (2 * num["elem_list"]))
         total_vol = np.prod(xlimits[:, 1] - xlimits[:, 0])
 
@@ -219,7 +231,7 @@ class RMTS(SurrogateModel):
             full_hess += sq_mtx[kx] * (
                 elem_vol
                 / total_vol
-                * self.options["smoothness"][kx]
+                * smoothness[kx]
                 / (xlimits[kx, 1] - xlimits[kx, 0]) ** 4
             )
 
@@ -373,10 +385,11 @@ class RMTS(SurrogateModel):
             options["approx_order"] = 2
             options["nonlinear_maxiter"] = 1
 
-            self._run_newton_solver(sol)
-
-            options["approx_order"] = approx_order
-            options["nonlinear_maxiter"] = nonlinear_maxiter
+            try:
+                self._run_newton_solver(sol)
+            finally:
+                options["approx_order"] = approx_order
+                options["nonlinear_maxiter"] = nonlinear_maxiter
 
         with self.printer._timed_context(
             "Solving nonlinear problem (n=%i)" % total_size
-- 
2.43.0


From 5eed5609e6fa8b0735bff8b90ccf2b74dae678e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 47/99] fix: standardization divided constant columns by
 rounding noise or by zero

---
 smt/utils/kriging_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index bbd53f6..61ce6ce 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -69,14 +69,16 @@ def standardization(X, y, scale_X_to_unit=False):
         X_offset = np.min(X, axis=0)
         X_max = np.max(X, axis=0)
         X_scale = X_max - X_offset
+        X_scale[X_scale == 0.0] = 1.0
     else:
         X_offset = np.mean(X, axis=0)
         X_scale = X.std(axis=0, ddof=1)
-        X_scale[X_scale == 0.0] = 1.0
+        # the standard deviation of a constant may be rounding noise
+        X_scale[(X_scale == 0.0) | np.all(X == X[0], axis=0)] = 1.0
 
     y_mean = np.mean(y, axis=0)
     y_std = y.std(axis=0, ddof=1)
-    y_std[y_std == 0.0] = 1.0
+    y_std[(y_std == 0.0) | np.all(y == y[0], axis=0)] = 1.0
 
     # scale X and y
     X = (X - X_offset) / X_scale
-- 
2.43.0


From 4450318bc6a88bae0e3eb81a37e3fda17ec57ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 48/99] fix: compute_rms_error was wrong for one-dimensional
 predictions, and returned None when only xe or ye was given

---
 smt/utils/misc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/smt/utils/misc.py b/smt/utils/misc.py
index e2842c1..96d5126 100644
--- a/smt/utils/misc.py
+++ b/smt/utils/misc.py
@@ -17,7 +17,7 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
         Surrogate model instance.
     xe : np.ndarray[ne, dim] or None
         Input values. If None, the input values at the training points are used instead.
-    ye : np.ndarray[ne, 1] or None
+    ye : np.ndarray[ne, ny] or None
         Output / deriv. values. If None, the training pt. outputs / derivs. are used.
     kx : int or None
         If None, we are checking the output values.
@@ -25,11 +25,13 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
     """
 
     if xe is not None and ye is not None:
-        ye = ye.reshape((xe.shape[0], 1))
+        ye = ye.reshape((xe.shape[0], -1))
         if kx == None:
             ye2 = sm.predict_values(xe)
         else:
             ye2 = sm.predict_derivatives(xe, kx)
+        # some models return one-dimensional predictions
+        ye2 = ye2.reshape(ye.shape)
         return np.linalg.norm(ye2 - ye) / np.linalg.norm(ye)
     elif xe is None and ye is None:
         num = 0.0
@@ -47,6 +49,8 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
             yt2 = sm.predict_values(xt)
         else:
             yt2 = sm.predict_derivatives(xt, kx)
-        num = np.linalg.norm(yt2 - yt)
+        num = np.linalg.norm(yt2.reshape(yt.shape) - yt)
         den = np.linalg.norm(yt)
         return num / den
+    else:
+        raise ValueError("xe and ye must be given together")
-- 
2.43.0


From f2a111e9fd6ea0cd9a787e1ee73b7ee0560044e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 49/99] fix: derivatives of the Lp norm failed for orders other
 than 1 and 2

---
 smt/problems/lp_norm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smt/problems/lp_norm.py b/smt/problems/lp_norm.py
index 25048c5..604bb04 100644
--- a/smt/problems/lp_norm.py
+++ b/smt/problems/lp_norm.py
@@ -44,7 +44,6 @@ class LpNorm(Problem):
         if kx is None:
             y[:, 0] = lp_norm
         else:
-            norm_p = np.linalg.norm(x, ord=p)
             y[:, 0] = np.sign(x[:, kx]) * (np.absolute(x[:, kx]) / lp_norm) ** (p - 1)
 
         return y
-- 
2.43.0


From 4eb766eb4df858021c10009e5dc3a6c4c4e7b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 50/99] fix: welded beam problem did not follow its formula (l
 instead of its square)

---
 doc/_src_docs/problems/weldedbeam.rst  | 2 +-
 doc/_src_docs/problems/weldedbeam.rstx | 2 +-
 smt/problems/welded_beam.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doc/_src_docs/problems/weldedbeam.rst b/doc/_src_docs/problems/weldedbeam.rst
index 73f38ed..5a1794f 100644
--- a/doc/_src_docs/problems/weldedbeam.rst
+++ b/doc/_src_docs/problems/weldedbeam.rst
@@ -2,7 +2,7 @@ Welded beam function
 ====================
 
 .. math ::
-  \sqrt{\frac{\tau'^2+\tau''^2+l\tau'\tau''}{\sqrt{0.25\left(l^2+(h+t)^2\right)}}},
+  \sqrt{\tau'^2+\tau''^2+\frac{l\tau'\tau''}{\sqrt{0.25\left(l^2+(h+t)^2\right)}}},
 
 where
 :math:`\tau'=\frac{6000}{\sqrt{2}hl}, \quad\tau''=\frac{6000(14+0.5l)\sqrt{0.25\left(l^2+(h+t)^2\right)}}{2\left[0.707hl\left(\frac{l^2}{12}+0.25(h+t)^2\right)\right]},\quad \text{for}\quad h\in[0.125,1],\quad l,t\in[5,10].`
diff --git a/doc/_src_docs/problems/weldedbeam.rstx b/doc/_src_docs/problems/weldedbeam.rstx
index bf49873..84d53d3 100644
--- a/doc/_src_docs/problems/weldedbeam.rstx
+++ b/doc/_src_docs/problems/weldedbeam.rstx
@@ -2,7 +2,7 @@ Welded beam function
 ====================
 
 .. math ::
-  \sqrt{\frac{\tau'^2+\tau''^2+l\tau'\tau''}{\sqrt{0.25\left(l^2+(h+t)^2\right)}}},
+  \sqrt{\tau'^2+\tau''^2+\frac{l\tau'\tau''}{\sqrt{0.25\left(l^2+(h+t)^2\right)}}},
 
 where
 :math:`\tau'=\frac{6000}{\sqrt{2}hl}, \quad\tau''=\frac{6000(14+0.5l)\sqrt{0.25\left(l^2+(h+t)^2\right)}}{2\left[0.707hl\left(\frac{l^2}{12}+0.25(h+t)^2\right)\right]},\quad \text{for}\quad h\in[0.125,1],\quad l,t\in[5,10].`
diff --git a/smt/problems/welded_beam.py b/smt/problems/welded_beam.py
index a2f8341..b0e5f85 100644
--- a/smt/problems/welded_beam.py
+++ b/smt/problems/welded_beam.py
@@ -57,7 +57,7 @@ class WeldedBeam(Problem):
                 6000
                 * (14 + 0.5 * x2)
                 * np.sqrt(0.25 * (x2 ** 2 + (x1 + x0) ** 2))
-                / (2 * (0.707 * x1 * x2 * (x2 / 12.0 + 0.25 * (x1 + x0) ** 2)))
+                / (2 * (0.707 * x1 * x2 * (x2 ** 2 / 12.0 + 0.25 * (x1 + x0) ** 2)))
             )
             return np.sqrt(
                 tau1 ** 2
-- 
2.43.0


From 6a8ee197623d7127d90acb64b8c0f15c2bd363fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 51/99] fix: finite-difference derivatives of problems were
 rounding noise for large variables

---
 smt/problems/torsion_vibration.py    | 4 +++-
 smt/problems/water_flow.py           | 4 +++-
 smt/problems/water_flow_lfidelity.py | 4 +++-
 smt/problems/welded_beam.py          | 4 +++-
 smt/problems/wing_weight.py          | 4 +++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/smt/problems/torsion_vibration.py b/smt/problems/torsion_vibration.py
index 627d159..e70fc0b 100644
--- a/smt/problems/torsion_vibration.py
+++ b/smt/problems/torsion_vibration.py
@@ -84,7 +84,9 @@ class TorsionVibration(Problem):
                 args[var] = x
                 return func(*args)
 
-            return derivative(wraps, point[var], dx=1e-6)
+            # the step follows the size of the variable
+            dx = 1e-6 * max(1.0, abs(point[var]))
+            return derivative(wraps, point[var], dx=dx)
 
         def func(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14):
             K1 = np.pi * x2 * x0 / (32 * x1)
diff --git a/smt/problems/water_flow.py b/smt/problems/water_flow.py
index 13e874d..e4b95f7 100644
--- a/smt/problems/water_flow.py
+++ b/smt/problems/water_flow.py
@@ -52,7 +52,9 @@ class WaterFlow(Problem):
                 args[var] = x
                 return func(*args)
 
-            return derivative(wraps, point[var], dx=1e-6)
+            # the step follows the size of the variable
+            dx = 1e-6 * max(1.0, abs(point[var]))
+            return derivative(wraps, point[var], dx=dx)
 
         def func(x0, x1, x2, x3, x4, x5, x6, x7):
             return (
diff --git a/smt/problems/water_flow_lfidelity.py b/smt/problems/water_flow_lfidelity.py
index a48cf53..b5cb7af 100644
--- a/smt/problems/water_flow_lfidelity.py
+++ b/smt/problems/water_flow_lfidelity.py
@@ -49,7 +49,9 @@ class WaterFlowLFidelity(Problem):
                 args[var] = x
                 return func(*args)
 
-            return derivative(wraps, point[var], dx=1e-6)
+            # the step follows the size of the variable
+            dx = 1e-6 * max(1.0, abs(point[var]))
+            return derivative(wraps, point[var], dx=dx)
 
         def func(x0, x1, x2, x3, x4, x5, x6, x7):
             return (
diff --git a/smt/problems/welded_beam.py b/smt/problems/welded_beam.py
index b0e5f85..5abe96c 100644
--- a/smt/problems/welded_beam.py
+++ b/smt/problems/welded_beam.py
@@ -49,7 +49,9 @@ class WeldedBeam(Problem):
                 args[var] = x
                 return func(*args)
 
-            return derivative(wraps, point[var], dx=1e-6)
+            # the step follows the size of the variable
+            dx = 1e-6 * max(1.0, abs(point[var]))
+            return derivative(wraps, point[var], dx=dx)
 
         def func(x0, x1, x2):
             tau1 = 6000 / (np.sqrt(2) * x1 * x2)
diff --git a/smt/problems/wing_weight.py b/smt/problems/wing_weight.py
index 93fcc6f..bd9002a 100644
--- a/smt/problems/wing_weight.py
+++ b/smt/problems/wing_weight.py
@@ -57,7 +57,9 @@ class WingWeight(Problem):
                 args[var] = x
                 return func(*args)
 
-            return derivative(wraps, point[var], dx=1e-6)
+            # the step follows the size of the variable
+            dx = 1e-6 * max(1.0, abs(point[var]))
+            return derivative(wraps, point[var], dx=dx)
 
         def func(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9):
             return (
-- 
2.43.0


From 6f64a57a91ea5784f17703c415d223ae6a56aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 52/99] fix: documented formulas of the Rosenbrock and torsion
 vibration problems

---
 doc/_src_docs/problems/rosenbrock.rst        | 2 +-
 doc/_src_docs/problems/rosenbrock.rstx       | 2 +-
 doc/_src_docs/problems/torsionvibration.rst  | 2 +-
 doc/_src_docs/problems/torsionvibration.rstx | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/doc/_src_docs/problems/rosenbrock.rst b/doc/_src_docs/problems/rosenbrock.rst
index 2aea19e..102ee03 100644
--- a/doc/_src_docs/problems/rosenbrock.rst
+++ b/doc/_src_docs/problems/rosenbrock.rst
@@ -2,7 +2,7 @@ Rosenbrock function
 ===================
 
 .. math ::
-  \sum\limits_{i=1}^{nx-1}\left[(x_{i+1}-x_i^2)^2+(x_i-1)^2\right],\quad-2\leq x_i\leq 2,\quad\text{ for }i=1,\ldots,nx.
+  \sum\limits_{i=1}^{nx-1}\left[100(x_{i+1}-x_i^2)^2+(x_i-1)^2\right],\quad-2\leq x_i\leq 2,\quad\text{ for }i=1,\ldots,nx.
 
 Usage
 -----
diff --git a/doc/_src_docs/problems/rosenbrock.rstx b/doc/_src_docs/problems/rosenbrock.rstx
index b8b1aa4..79c67a6 100644
--- a/doc/_src_docs/problems/rosenbrock.rstx
+++ b/doc/_src_docs/problems/rosenbrock.rstx
@@ -2,7 +2,7 @@ Rosenbrock function
 ===================
 
 .. math ::
-  \sum\limits_{i=1}^{nx-1}\left[(x_{i+1}-x_i^2)^2+(x_i-1)^2\right],\quad-2\leq x_i\leq 2,\quad\text{ for }i=1,\ldots,nx.
+  \sum\limits_{i=1}^{nx-1}\left[100(x_{i+1}-x_i^2)^2+(x_i-1)^2\right],\quad-2\leq x_i\leq 2,\quad\text{ for }i=1,\ldots,nx.
 
 Usage
 -----
diff --git a/doc/_src_docs/problems/torsionvibration.rst b/doc/_src_docs/problems/torsionvibration.rst
index 4fd0304..507b752 100644
--- a/doc/_src_docs/problems/torsionvibration.rst
+++ b/doc/_src_docs/problems/torsionvibration.rst
@@ -5,7 +5,7 @@ Torsion vibration function
   \frac{1}{2\pi}\sqrt{\frac{-b-\sqrt{b^2-4ac}}{2a}},
 
 where
-:math:`K_i=\frac{\pi G_id_i}{32L_i},\quad M_j=\frac{\rho_j \pi t_jD_j}{4g},\quad J_j=0.5M_j\frac{D_j}{2},\quad a = 1,\quad b=-\left(\frac{K_1+K2}{J_1}+\frac{K_2+K3}{J_2}\right),\quad c=\frac{K_1K_2+K_2K_3+K_3K_1}{J_1J_2},\quad \text{for}\quad d_1\in [1.8,2.2],\quad L_1\in[9,11],\quad G_1\in [105300000,128700000],`
+:math:`K_i=\frac{\pi G_id_i}{32L_i},\quad M_j=\frac{\rho_j \pi t_jD_j}{4g},\quad J_j=0.5M_j\left(\frac{D_j}{2}\right)^2,\quad a = 1,\quad b=-\left(\frac{K_1+K2}{J_1}+\frac{K_2+K3}{J_2}\right),\quad c=\frac{K_1K_2+K_2K_3+K_3K_1}{J_1J_2},\quad \text{for}\quad d_1\in [1.8,2.2],\quad L_1\in[9,11],\quad G_1\in [10530000,12870000],`
 :math:`d_2\in [1.638,2.002],\quad L_2\in[10.8,13.2],\quad G_2\in[5580000,6820000],\quad d_3\in[2.025,2.475],\quad L_3\in[7.2,8.8],\quad G_3\in[3510000,4290000],\quad D_1\in[10.8,13.2],\quad t_1\in[2.7,3.3],`
 :math:`\rho_1\in[0.252,0.308], \quad D_2\in[12.6,15.4],\quad t_2\in[3.6,4.4],\quad\rho_1\in[0.09,0.11].`
 
diff --git a/doc/_src_docs/problems/torsionvibration.rstx b/doc/_src_docs/problems/torsionvibration.rstx
index 00a3536..baf5918 100644
--- a/doc/_src_docs/problems/torsionvibration.rstx
+++ b/doc/_src_docs/problems/torsionvibration.rstx
@@ -5,7 +5,7 @@ Torsion vibration function
   \frac{1}{2\pi}\sqrt{\frac{-b-\sqrt{b^2-4ac}}{2a}},
 
 where
-:math:`K_i=\frac{\pi G_id_i}{32L_i},\quad M_j=\frac{\rho_j \pi t_jD_j}{4g},\quad J_j=0.5M_j\frac{D_j}{2},\quad a = 1,\quad b=-\left(\frac{K_1+K2}{J_1}+\frac{K_2+K3}{J_2}\right),\quad c=\frac{K_1K_2+K_2K_3+K_3K_1}{J_1J_2},\quad \text{for}\quad d_1\in [1.8,2.2],\quad L_1\in[9,11],\quad G_1\in [105300000,128700000],`
+:math:`K_i=\frac{\pi G_id_i}{32L_i},\quad M_j=\frac{\rho_j \pi t_jD_j}{4g},\quad J_j=0.5M_j\left(\frac{D_j}{2}\right)^2,\quad a = 1,\quad b=-\left(\frac{K_1+K2}{J_1}+\frac{K_2+K3}{J_2}\right),\quad c=\frac{K_1K_2+K_2K_3+K_3K_1}{J_1J_2},\quad \text{for}\quad d_1\in [1.8,2.2],\quad L_1\in[9,11],\quad G_1\in [10530000,12870000],`
 :math:`d_2\in [1.638,2.002],\quad L_2\in[10.8,13.2],\quad G_2\in[5580000,6820000],\quad d_3\in[2.025,2.475],\quad L_3\in[7.2,8.8],\quad G_3\in[3510000,4290000],\quad D_1\in[10.8,13.2],\quad t_1\in[2.7,3.3],`
 :math:`\rho_1\in[0.252,0.308], \quad D_2\in[12.6,15.4],\quad t_2\in[3.6,4.4],\quad\rho_1\in[0.09,0.11].`
 
-- 
2.43.0


From a098f84f7b15d7f89a99b732ad5dc881a9df07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 53/99] fix: finite-difference derivatives of problems
 truncated the steps at integer points

---
 smt/problems/torsion_vibration.py    | 2 +-
 smt/problems/water_flow.py           | 2 +-
 smt/problems/water_flow_lfidelity.py | 2 +-
 smt/problems/welded_beam.py          | 2 +-
 smt/problems/wing_weight.py          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/smt/problems/torsion_vibration.py b/smt/problems/torsion_vibration.py
index e70fc0b..18d218c 100644
--- a/smt/problems/torsion_vibration.py
+++ b/smt/problems/torsion_vibration.py
@@ -140,7 +140,7 @@ class TorsionVibration(Problem):
                     x14,
                 ]
                 if self.options["use_FD"]:
-                    point = np.real(np.array(point))
+                    point = np.real(np.array(point)).astype(float)
                     y[i, 0] = partial_derivative(func, var=kx, point=point)
                 else:
                     ch = 1e-20
diff --git a/smt/problems/water_flow.py b/smt/problems/water_flow.py
index e4b95f7..083f7b0 100644
--- a/smt/problems/water_flow.py
+++ b/smt/problems/water_flow.py
@@ -82,7 +82,7 @@ class WaterFlow(Problem):
             else:
                 point = [x0, x1, x2, x3, x4, x5, x6, x7]
                 if self.options["use_FD"]:
-                    point = np.real(np.array(point))
+                    point = np.real(np.array(point)).astype(float)
                     y[i, 0] = partial_derivative(func, var=kx, point=point)
                 else:
                     ch = 1e-20
diff --git a/smt/problems/water_flow_lfidelity.py b/smt/problems/water_flow_lfidelity.py
index b5cb7af..9f2f483 100644
--- a/smt/problems/water_flow_lfidelity.py
+++ b/smt/problems/water_flow_lfidelity.py
@@ -78,7 +78,7 @@ class WaterFlowLFidelity(Problem):
             else:
                 point = [x0, x1, x2, x3, x4, x5, x6, x7]
                 if self.options["use_FD"]:
-                    point = np.real(np.array(point))
+                    point = np.real(np.array(point)).astype(float)
                     y[i, 0] = partial_derivative(func, var=kx, point=point)
                 else:
                     ch = 1e-20
diff --git a/smt/problems/welded_beam.py b/smt/problems/welded_beam.py
index 5abe96c..7bf4e50 100644
--- a/smt/problems/welded_beam.py
+++ b/smt/problems/welded_beam.py
@@ -76,7 +76,7 @@ class WeldedBeam(Problem):
             else:
                 point = [x0, x1, x2]
                 if self.options["use_FD"]:
-                    point = np.real(np.array(point))
+                    point = np.real(np.array(point)).astype(float)
                     y[i, 0] = partial_derivative(func, var=kx, point=point)
                 else:
                     ch = 1e-20
diff --git a/smt/problems/wing_weight.py b/smt/problems/wing_weight.py
index bd9002a..848ab28 100644
--- a/smt/problems/wing_weight.py
+++ b/smt/problems/wing_weight.py
@@ -90,7 +90,7 @@ class WingWeight(Problem):
             else:
                 point = [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9]
                 if self.options["use_FD"]:
-                    point = np.real(np.array(point))
+                    point = np.real(np.array(point)).astype(float)
                     y[i, 0] = partial_derivative(func, var=kx, point=point)
                 else:
                     ch = 1e-20
-- 
2.43.0


From 6331422f6c504160225fea0495bf2c3a40fa9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 54/99] fix: Latin hypercube sampling failed or did not end for
 one point, two points or one variable

---
 smt/sampling_methods/lhs.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/smt/sampling_methods/lhs.py b/smt/sampling_methods/lhs.py
index 3742894..da03ee5 100644
--- a/smt/sampling_methods/lhs.py
+++ b/smt/sampling_methods/lhs.py
@@ -64,14 +64,22 @@ class LHS(ScaledSamplingMethod):
         else:
             self.random_state = np.random.RandomState()
 
-        if self.options["criterion"] != "ese":
+        criterion = self.options["criterion"]
+        if nt == 1:
+            # there is nothing to choose between designs of one point
+            criterion = "center" if criterion[0] == "c" and criterion[:3] != "cor" else None
+        elif criterion[:3] == "cor" and (nx == 1 or nt == 2):
+            # the correlation is the same for all designs
+            criterion = None
+
+        if criterion != "ese":
             return lhs(
                 nx,
                 samples=nt,
-                criterion=self.options["criterion"],
+                criterion=criterion,
                 random_state=self.random_state,
             )
-        elif self.options["criterion"] == "ese":
+        elif criterion == "ese":
             return self._ese(nx, nt)
 
     def _maximinESE(
@@ -308,11 +316,6 @@ class LHS(ScaledSamplingMethod):
         outer_loop = min(int(1.5 * dim), 30)
         inner_loop = min(20 * dim, 100)
 
-        D0 = pdist(P0)
-        R0 = np.corrcoef(P0)
-        corr0 = np.max(np.abs(R0[R0 != 1]))
-        phip0 = self._PhiP(P0)
-
         P, historic = self._maximinESE(
             P0,
             outer_loop=outer_loop,
-- 
2.43.0


From 7af074cc55b486870a5ee18daccbea1e868a8e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 55/99] fix: samples at the upper limit could lie outside it by
 rounding

---
 smt/sampling_methods/sampling_method.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/sampling_methods/sampling_method.py b/smt/sampling_methods/sampling_method.py
index 9561a84..3fb203d 100644
--- a/smt/sampling_methods/sampling_method.py
+++ b/smt/sampling_methods/sampling_method.py
@@ -148,4 +148,6 @@ def _scale_to_xlimits(samples: np.ndarray, xlimits: np.ndarray) -> np.ndarray:
     nx = xlimits.shape[0]
     for kx in range(nx):
         samples[:, kx] = xlimits[kx, 0] + samples[:, kx] * (xlimits[kx, 1] - xlimits[kx, 0])
+        # rounding must not move a point out of the limits
+        samples[:, kx] = np.clip(samples[:, kx], xlimits[kx, 0], xlimits[kx, 1])
     return samples
-- 
2.43.0


From 0aee89ea105e4741118607f3f6397aca83a7cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 56/99] fix: a new attempt to find the hyperparameters added
 the noise once more, attempts of earlier trainings counted

---
 smt/surrogate_models/krg_based.py | 70 ++++++++++++++++---------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index d738f21..a7ada7b 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -892,6 +892,7 @@ class KrgBased(SurrogateModel):
         # reinitialize optimization best values
         self.best_iteration_fail = None
         self._thetaMemory = None
+        self.nb_ill_matrix = 5
         # Initialize the hyperparameter-optimization
         if self.name in ["MGP"]:
 
@@ -987,44 +988,45 @@ class KrgBased(SurrogateModel):
 
             # Initialization
             k, incr, stop, best_optimal_rlf_value, max_retry = 0, 0, 1, -1e20, 10
-            while k < stop:
-                # Use specified starting point as first guess
-                self.noise0 = np.array(self.options["noise0"])
-                noise_bounds = self.options["noise_bounds"]
-                if self.options["eval_noise"] and not self.options["use_het_noise"]:
-                    self.noise0[self.noise0 == 0.0] = noise_bounds[0]
-                    for i in range(len(self.noise0)):
-                        if (
-                            self.noise0[i] < noise_bounds[0]
-                            or self.noise0[i] > noise_bounds[1]
-                        ):
-                            self.noise0[i] = noise_bounds[0]
-                            if self.options["print_global"]:
-                                print(
-                                    "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
-                                )
+            # Use specified starting point as first guess
+            self.noise0 = np.array(self.options["noise0"])
+            noise_bounds = self.options["noise_bounds"]
+            if self.options["eval_noise"] and not self.options["use_het_noise"]:
+                self.noise0[self.noise0 == 0.0] = noise_bounds[0]
+                for i in range(len(self.noise0)):
+                    if (
+                        self.noise0[i] < noise_bounds[0]
+                        or self.noise0[i] > noise_bounds[1]
+                    ):
+                        self.noise0[i] = noise_bounds[0]
+                        if self.options["print_global"]:
+                            print(
+                                "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
+                            )
 
-                    theta0 = np.concatenate(
-                        [theta0, np.log10(np.array([self.noise0]).flatten())]
+                theta0 = np.concatenate(
+                    [theta0, np.log10(np.array([self.noise0]).flatten())]
+                )
+                theta0_rand = np.concatenate(
+                    [
+                        theta0_rand,
+                        np.log10(np.array([self.noise0]).flatten()),
+                    ]
+                )
+
+                for i in range(len(self.noise0)):
+                    noise_bounds = np.log10(noise_bounds)
+                    constraints.append(
+                        lambda log10t: log10t[i + len(self.theta0)]
+                        - noise_bounds[0]
                     )
-                    theta0_rand = np.concatenate(
-                        [
-                            theta0_rand,
-                            np.log10(np.array([self.noise0]).flatten()),
-                        ]
+                    constraints.append(
+                        lambda log10t: noise_bounds[1]
+                        - log10t[i + len(self.theta0)]
                     )
+                    bounds_hyp.append(noise_bounds)
 
-                    for i in range(len(self.noise0)):
-                        noise_bounds = np.log10(noise_bounds)
-                        constraints.append(
-                            lambda log10t: log10t[i + len(self.theta0)]
-                            - noise_bounds[0]
-                        )
-                        constraints.append(
-                            lambda log10t: noise_bounds[1]
-                            - log10t[i + len(self.theta0)]
-                        )
-                        bounds_hyp.append(noise_bounds)
+            while k < stop:
                 try:
 
                     if self.options["hyper_opt"] == "Cobyla":
-- 
2.43.0


From 203a1da947348f9d9b0828b380050edfe1620e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 57/99] fix: training again a kriging model with extra points
 or repeated points used the number of points of the last training

---
 smt/surrogate_models/gekpls.py    | 1 -
 smt/surrogate_models/krg_based.py | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/gekpls.py b/smt/surrogate_models/gekpls.py
index 392dedb..73a60cf 100644
--- a/smt/surrogate_models/gekpls.py
+++ b/smt/surrogate_models/gekpls.py
@@ -49,7 +49,6 @@ class GEKPLS(KPLS):
                 self.options["extra_points"],
             )
             if self.options["extra_points"] != 0:
-                self.nt *= self.options["extra_points"] + 1
                 X = np.vstack((X, XX))
                 y = np.vstack((y, yy))
 
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index a7ada7b..ea5f9e2 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -122,6 +122,7 @@ class KrgBased(SurrogateModel):
         if self.name not in ["Kriging", "MGP"]:
             X, y = self._compute_pls(X.copy(), y.copy())
 
+        self.nt = X.shape[0]
         self._check_param()
 
         # Center and scale X and y
-- 
2.43.0


From 53e33812f50f3d7ac4ecbcaa94afc05a4759bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 58/99] fix: updating training derivatives checked the data of
 another variable

---
 smt/surrogate_models/surrogate_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index ea7b0d0..27ffb2c 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -156,7 +156,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         kx = 0
 
-        if kx not in self.training_points[name]:
+        if kx not in self.training_points.get(name, {}):
             raise ValueError(
                 "The training points must be set first with set_training_values "
                 + "before calling update_training_values."
@@ -233,13 +233,13 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx not in self.training_points[name]:
+        if kx + 1 not in self.training_points.get(name, {}):
             raise ValueError(
-                "The training points must be set first with set_training_values "
-                + "before calling update_training_values."
+                "The training points must be set first with set_training_derivatives "
+                + "before calling update_training_derivatives."
             )
 
-        xt = self.training_points[name][kx][0]
+        xt = self.training_points[name][kx + 1][0]
         if xt.shape[0] != dyt_dxt.shape[0]:
             raise ValueError(
                 "The number of training points does not agree with the earlier call of "
-- 
2.43.0


From f25d837c7781b34b41342ff2cc0c7999ccc449e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 59/99] fix: training data with different numbers of inputs or
 outputs were accepted

---
 smt/surrogate_models/surrogate_model.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 27ffb2c..b345f46 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -202,6 +202,11 @@ class SurrogateModel(object, metaclass=ABCMeta):
         if not isinstance(kx, int):
             raise ValueError("kx must be an int")
 
+        if not 0 <= kx < xt.shape[1]:
+            raise ValueError(
+                "kx must be an index of an input between 0 and %i" % (xt.shape[1] - 1)
+            )
+
         self.training_points[name][kx + 1] = [
             copy_as_float(xt),
             copy_as_float(dyt_dxt),
@@ -252,6 +257,18 @@ class SurrogateModel(object, metaclass=ABCMeta):
         """
         Train the model
         """
+        if 0 not in self.training_points.get(None, {}):
+            raise ValueError(
+                "The training points must be set with set_training_values "
+                + "before calling train."
+            )
+        for data in self.training_points.values():
+            for kx, (xt, yt) in data.items():
+                if (xt.shape[1], yt.shape[1]) != (self.nx, self.ny) or kx > self.nx:
+                    raise ValueError(
+                        "all training points must have the same number of inputs "
+                        + "and outputs"
+                    )
         n_exact = self.training_points[None][0][0].shape[0]
 
         self.printer.active = self.options["print_global"]
-- 
2.43.0


From 5b7e81c7dc61617a7cdcac52e33a2ae4e7306ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 60/99] fix: the number of columns of the second fidelity level
 was not checked

---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 63e56c9..649a60d 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -157,7 +157,7 @@ class MFK(KrgBased):
         n_samples_y = np.zeros(nlevel, dtype=int)
         for i in range(nlevel):
             n_samples[i], n_features[i] = X[i].shape
-            if i > 1 and n_features[i] != n_features[i - 1]:
+            if i > 0 and n_features[i] != n_features[i - 1]:
                 raise ValueError("All X must have the same number of columns.")
             y[i] = np.asarray(y[i]).ravel()[:, np.newaxis]
             n_samples_y[i] = y[i].shape[0]
-- 
2.43.0


From e6728ab0533d83615c0ab1b1f587e94982cc64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 61/99] fix: mixed-integer models ignored the name of the
 training points

---
 smt/applications/mixed_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index ba5d4c2..f2dde63 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -288,7 +288,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
             xt2 = unfold_with_enum_mask(self._xtypes, xt)
         else:
             xt2 = xt
-        super().set_training_values(xt2, yt)
+        super().set_training_values(xt2, yt, name)
         self._surrogate.set_training_values(xt2, yt, name)
 
     def update_training_values(self, yt, name=None):
-- 
2.43.0


From 00d830bd343f705901cc8f1b0a83c385a6b5b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 62/99] fix: mixtures of experts kept references to the
 training arrays and stored mismatched data

---
 smt/applications/moe.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 26f5639..1457110 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -23,6 +23,7 @@ from scipy.stats import multivariate_normal
 from smt.utils.options_dictionary import OptionsDictionary
 from smt.applications.application import SurrogateBasedApplication
 from smt.utils.misc import compute_rms_error
+from smt.utils.checks import ensure_2d_array
 from smt.surrogate_models.surrogate_model import SurrogateModel
 
 warnings.filterwarnings("ignore", category=DeprecationWarning)
@@ -195,8 +196,16 @@ class MOE(SurrogateBasedApplication):
             An optional label for the group of training points being set.
             This is only used in special situations (e.g., multi-fidelity applications).
         """
-        self.xt = xt
-        self.yt = yt
+        xt = ensure_2d_array(xt, "xt")
+        yt = ensure_2d_array(yt, "yt")
+
+        if xt.shape[0] != yt.shape[0]:
+            raise ValueError(
+                "the first dimension of xt and yt must have the same length"
+            )
+
+        self.xt = np.array(xt)
+        self.yt = np.array(yt)
 
     def train(self):
         """
-- 
2.43.0


From 151ef60ffad29e3b167ebdce2e0dd6e5e811f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 63/99] fix: optimising the variance of noisy multi-fidelity
 models replaced the training data

---
 smt/applications/mfk.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 649a60d..c826305 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -339,6 +339,9 @@ class MFK(KrgBased):
     def _new_train_finalize(self, lvl):
         if self.options["eval_noise"] and self.options["optim_var"]:
             X = self.X
+            # the predictions replace the training data for this second training only
+            training_points = self.training_points
+            self.training_points = deepcopy(training_points)
             for lvl in range(self.nlvl - 1):
                 self.set_training_values(
                     X[lvl], self._predict_intermediate_values(X[lvl], lvl + 1), name=lvl
@@ -347,7 +350,10 @@ class MFK(KrgBased):
                 X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
             )
             self.options["eval_noise"] = False
-            self._new_train()
+            try:
+                self._new_train()
+            finally:
+                self.training_points = training_points
 
     def _componentwise_distance(self, dx, opt=0):
         d = componentwise_distance(dx, self.options["corr"], self.nx)
-- 
2.43.0


From d52fb2e9c20fe119f73ca3557db6546d93f5b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 64/99] fix: multi-fidelity kriging failed with a single level
 or one noise value for each level

---
 smt/applications/mfk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index c826305..35fcd5e 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -714,6 +714,11 @@ class MFK(KrgBased):
                     % (len(self.options["noise0"]), self.nlvl)
                 )
 
+        # one array for each level
+        self.options["noise0"] = [
+            np.atleast_1d(noise).astype(float) for noise in self.options["noise0"]
+        ]
+
         for i in range(self.nlvl):
             if self.options["use_het_noise"]:
                 if len(self.X[i]) == len(np.unique(self.X[i])):
-- 
2.43.0


From 5186da3ad5b491b54a68a4a8c35e3c6c2a2583ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 65/99] fix: option values followed later changes of the
 caller's arrays, lists and dictionaries

---
 smt/utils/options_dictionary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index 2772ddb..b7e0dc1 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -5,6 +5,8 @@ This package is distributed under New BSD license.
 """
 from copy import deepcopy
 
+import numpy as np
+
 
 class OptionsDictionary(object):
     """
@@ -70,6 +72,9 @@ class OptionsDictionary(object):
         """
         assert name in self._declared_entries, "Option %s has not been declared" % name
         self._assert_valid(name, value)
+        # the caller may go on to change its own arrays, lists and dictionaries
+        if type(value) in (list, dict, np.ndarray):
+            value = value.copy()
         self._dict[name] = value
 
     def __contains__(self, key):
-- 
2.43.0


From 8bf789eff1a1cef4e6ee17ae0d59bfe79402eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 66/99] fix: derivatives of earlier training data with another
 number of inputs were kept

---
 smt/surrogate_models/surrogate_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index b345f46..c6fccdc 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -130,6 +130,10 @@ class SurrogateModel(object, metaclass=ABCMeta):
         self.nx = xt.shape[1]
         self.ny = yt.shape[1]
         kx = 0
+        # derivatives of a function of other inputs do not belong to these values
+        for other in list(self.training_points[name]):
+            if self.training_points[name][other][0].shape[1] != self.nx:
+                del self.training_points[name][other]
         self.training_points[name][kx] = [copy_as_float(xt), copy_as_float(yt)]
 
     def update_training_values(
-- 
2.43.0


From 4ed5b5578506bec3def8c8c323d84cee12b475a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 67/99] fix: folding and unfolding accepted points with wrong
 numbers of columns or unknown categories

---
 smt/applications/mixed_integer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index f2dde63..b436f4f 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -6,7 +6,7 @@ This package is distributed under New BSD license.
 import numpy as np
 from smt.surrogate_models.surrogate_model import SurrogateModel
 from smt.sampling_methods.sampling_method import SamplingMethod
-from smt.utils.checks import ensure_2d_array
+from smt.utils.checks import check_nx, ensure_2d_array
 
 FLOAT = "float_type"
 INT = "int_type"
@@ -142,6 +142,7 @@ def fold_with_enum_index(xtypes, x):
     see MixedIntegerContext.fold_with_enum_index
     """
     x = np.atleast_2d(x)
+    check_nx(compute_unfolded_dimension(xtypes), x)
     xfold = np.zeros((x.shape[0], len(xtypes)))
     unfold_index = 0
     for i, xtyp in enumerate(xtypes):
@@ -162,6 +163,7 @@ def unfold_with_enum_mask(xtypes, x):
     see MixedIntegerContext.unfold_with_enum_mask
     """
     x = np.atleast_2d(x)
+    check_nx(len(xtypes), x)
     xunfold = np.zeros((x.shape[0], compute_unfolded_dimension(xtypes)))
     unfold_index = 0
     for i, xtyp in enumerate(xtypes):
@@ -171,7 +173,13 @@ def unfold_with_enum_mask(xtypes, x):
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
             enum_slice = xunfold[:, unfold_index : unfold_index + xtyp[1]]
             for row in range(x.shape[0]):
-                enum_slice[row, x[row, i].astype(int)] = 1
+                index = x[row, i].astype(int)
+                if not 0 <= index < xtyp[1]:
+                    raise ValueError(
+                        "Bad index {} of a categorical variable with {} levels "
+                        "(index={})".format(x[row, i], xtyp[1], i)
+                    )
+                enum_slice[row, index] = 1
             unfold_index += xtyp[1]
         else:
             _raise_value_error(xtyp)
-- 
2.43.0


From a00b282c581f0b0c1b01bd4984d5444caad0bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 68/99] fix: casting to discrete values selected several
 categories when their levels were equal

---
 smt/applications/mixed_integer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index b436f4f..e671b85 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -126,11 +126,11 @@ def cast_to_discrete_values(xtypes, x):
 
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
             # Categorial : The biggest level is selected.
+            # The first one is taken when several levels are equal.
             xenum = ret[:, x_col : x_col + xtyp[1]]
-            maxx = np.max(xenum, axis=1).reshape((-1, 1))
-            mask = xenum < maxx
-            xenum[mask] = 0
-            xenum[~mask] = 1
+            index = np.argmax(xenum, axis=1)
+            xenum[:] = 0
+            xenum[np.arange(len(index)), index] = 1
             x_col = x_col + xtyp[1]
         else:
             _raise_value_error(xtyp)
-- 
2.43.0


From f846c0ff97adf3bc37649eb17fb9355f18345742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 69/99] fix: casting to integers truncated the values

---
 smt/applications/mixed_integer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index e671b85..2a85f2a 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -203,9 +203,9 @@ def cast_to_mixed_integer(xtypes, xlimits, x):
         if xtyp == FLOAT:
             res.append(xi)
         elif xtyp == INT:
-            res.append(int(xi))
+            res.append(int(round(xi)))
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
-            res.append(xlimits[i][int(xi)])
+            res.append(xlimits[i][int(round(xi))])
         else:
             _raise_value_error(xtyp)
     return res
-- 
2.43.0


From fbff9d464a1e58677407124b689883d649169664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 70/99] fix: mixed-integer models accepted training points with
 a wrong number of columns

---
 smt/applications/mixed_integer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 2a85f2a..62f64b4 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -296,6 +296,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
             xt2 = unfold_with_enum_mask(self._xtypes, xt)
         else:
             xt2 = xt
+        check_nx(compute_unfolded_dimension(self._xtypes), xt2)
         super().set_training_values(xt2, yt, name)
         self._surrogate.set_training_values(xt2, yt, name)
 
-- 
2.43.0


From 6f9d7b79f265c280e4674d2e0573b2126907dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 71/99] fix: the variance of multi-fidelity models with PLS
 halved one part of the process variance

---
 smt/applications/mfk.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 35fcd5e..d8bac83 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -523,7 +523,6 @@ class MFK(KrgBased):
             f = np.vstack((g.T * mu[:, i - 1], f0.T))
 
             Ft = solve_triangular(C, F, lower=True)
-            yt = solve_triangular(C, self.y_norma_all[i], lower=True)
             r_t = solve_triangular(C, r_.T, lower=True)
             G = self.optimal_par[i]["G"]
             beta = self.optimal_par[i]["beta"]
@@ -540,23 +539,12 @@ class MFK(KrgBased):
             sigma2_rho = (sigma2_rho * g).sum(axis=1)
             sigma2_rhos.append(sigma2_rho)
 
-            if self.name in ["MFKPLS", "MFKPLSK"]:
-                p = self.p_all[i]
-                Q_ = (np.dot((yt - np.dot(Ft, beta)).T, yt - np.dot(Ft, beta)))[0, 0]
-                MSE[:, i] = (
-                    sigma2_rho * MSE[:, i - 1]
-                    + Q_ / (2 * (self.nt_all[i] - p - q))
-                    # * (1 + self.optimal_noise_all[i] - (r_t ** 2).sum(axis=0))
-                    * (1 - (r_t ** 2).sum(axis=0))
-                    + sigma2 * (u_ ** 2).sum(axis=0)
-                )
-            else:
-                MSE[:, i] = sigma2_rho * MSE[:, i - 1] + sigma2 * (
-                    # 1 + self.optimal_noise_all[i] - (r_t ** 2).sum(axis=0) + (u_ ** 2).sum(axis=0)
-                    1
-                    - (r_t ** 2).sum(axis=0)
-                    + (u_ ** 2).sum(axis=0)
-                )
+            MSE[:, i] = sigma2_rho * MSE[:, i - 1] + sigma2 * (
+                # 1 + self.optimal_noise_all[i] - (r_t ** 2).sum(axis=0) + (u_ ** 2).sum(axis=0)
+                1
+                - (r_t ** 2).sum(axis=0)
+                + (u_ ** 2).sum(axis=0)
+            )
 
         # scaled predictor
         MSE *= self.y_std ** 2
-- 
2.43.0


From 57a9ab7e28ec59b63a4b043055c7118cc8a31c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 72/99] fix: multi-fidelity models predicted slightly negative
 variances

---
 smt/applications/mfk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index d8bac83..6b4bd94 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -549,6 +549,10 @@ class MFK(KrgBased):
         # scaled predictor
         MSE *= self.y_std ** 2
 
+        # Mean Squared Error might be slightly negative depending on
+        # machine precision: force to zero in that case
+        MSE[MSE < 0.0] = 0.0
+
         return MSE, sigma2_rhos
 
     def _predict_derivatives(self, x, kx):
-- 
2.43.0


From a2c214f57a5d22f7421b627272c2e21b2c72da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 73/99] fix: the variance of multi-fidelity models with three
 or more levels ignored the mean of the intermediate levels

---
 smt/applications/mfk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 6b4bd94..d684cf6 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -526,8 +526,11 @@ class MFK(KrgBased):
             r_t = solve_triangular(C, r_.T, lower=True)
             G = self.optimal_par[i]["G"]
             beta = self.optimal_par[i]["beta"]
+            gamma = self.optimal_par[i]["gamma"]
 
             # scaled predictor
+            mu[:, i] = (np.dot(f.T, beta) + np.dot(r_, gamma)).ravel()
+
             sigma2 = self.optimal_par[i]["sigma2"] / self.y_std ** 2
             q = self.q_all[i]
             u_ = solve_triangular(G.T, f - np.dot(Ft.T, r_t), lower=True)
-- 
2.43.0


From 5f1767e341f57c9e1d685b5c69e1da6db103bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 74/99] fix: the dense preconditioner of the Krylov solver was
 ignored

---
 smt/utils/linear_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index dbd378f..c671f31 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -28,7 +28,7 @@ VALID_SOLVERS = (
 
 
 def get_solver(solver):
-    if solver == "dense-lu":
+    if solver == "dense-lu" or solver == "dense":
         return DenseLUSolver()
     elif solver == "dense-chol":
         return DenseCholeskySolver()
-- 
2.43.0


From ad51ff18dd11772de820bf0568db32a2fca66988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 75/99] fix: the backtracking line search never returned if no
 step decreased the function

---
 smt/utils/line_search.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 20b2695..15da086 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -125,6 +125,10 @@ class BacktrackingLineSearch(LineSearch):
         a = initial_a
         while not self._func_decreased(a):
             a *= rho
+            if a == 0.0:
+                # No step along this direction (e.g. of a diverged linear solver)
+                # decreases the function.
+                return np.array(self.x)
         return self.x + a * self.dx
 
 
-- 
2.43.0


From d7416e1066235b0a08ff40eaec6894d278ed7e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 76/99] fix: predicting output derivatives ignored the print
 options

---
 smt/surrogate_models/surrogate_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index c6fccdc..08485dc 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -399,6 +399,9 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "output_derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        self.printer.active = (
+            self.options["print_global"] and self.options["print_prediction"]
+        )
 
         dy_dyt = self._predict_output_derivatives(copy_as_float(x))
         return dy_dyt
-- 
2.43.0


From b4862c7d1486277657a080facf0f07799ae938d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 77/99] fix: the option print_solver had no effect

---
 smt/surrogate_models/rbf.py             |  6 ++++--
 smt/surrogate_models/rmts.py            | 14 ++++++++++----
 smt/surrogate_models/surrogate_model.py | 13 +++++++++++++
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index a88d3c1..bd4d2b9 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -120,11 +120,13 @@ class RBF(SurrogateModel):
 
         solver = get_solver("dense-lu")
         with self.printer._timed_context("Initializing linear solver"):
-            solver._setup(mtx, self.printer)
+            with self._solver_printing():
+                solver._setup(mtx, self.printer)
 
         for ind_y in range(rhs.shape[1]):
             with self.printer._timed_context("Solving linear system (col. %i)" % ind_y):
-                solver._solve(rhs[:, ind_y], sol[:, ind_y], ind_y=ind_y)
+                with self._solver_printing():
+                    solver._solve(rhs[:, ind_y], sol[:, ind_y], ind_y=ind_y)
 
         self.sol = sol
 
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 70b5fe9..58c0acb 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -339,10 +339,14 @@ class RMTS(SurrogateModel):
                             rhs[:, ind_y] = -self._opt_grad(sol[:, ind_y], p, yt_dict)
 
                         with self.printer._timed_context("Initializing linear solver"):
-                            solver._setup(mtx, self.printer)
+                            with self._solver_printing():
+                                solver._setup(mtx, self.printer)
 
                         with self.printer._timed_context("Solving linear system"):
-                            solver._solve(rhs[:, ind_y], d_sol[:, ind_y], ind_y=ind_y)
+                            with self._solver_printing():
+                                solver._solve(
+                                    rhs[:, ind_y], d_sol[:, ind_y], ind_y=ind_y
+                                )
 
                         func = lambda x: self._opt_func(x, p, yt_dict)
                         grad = lambda x: self._opt_grad(x, p, yt_dict)
@@ -589,7 +593,8 @@ class RMTS(SurrogateModel):
                 # solution) unless the approximation is quadratic.
                 dR_dw = self._opt_hess(self.sol[:, ind_y], p, yt_dict)
                 solver = get_solver(self.options["derivative_solver"])
-                solver._setup(dR_dw, self.printer)
+                with self._solver_printing():
+                    solver._setup(dR_dw, self.printer)
 
                 dR_dyt = np.array(
                     self._opt_dgrad_dyt(self.sol[:, ind_y], p, yt_dict, kx)
@@ -597,7 +602,8 @@ class RMTS(SurrogateModel):
                 for ind_t in range(nt):
                     rhs = np.array(dR_dyt[:, ind_t])
                     dw = np.zeros(nw)
-                    solver._solve(rhs, dw, ind_y=ind_y)
+                    with self._solver_printing():
+                        solver._solve(rhs, dw, ind_y=ind_y)
                     dw_dyt[:, ind_t, ind_y] = -dw
 
             if kx == 0:
diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 08485dc..1aad1ee 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -5,6 +5,7 @@ Author: Dr. Mohamed A. Bouhlel <mbouhlel@umich.edu>
 This package is distributed under New BSD license.
 Paul Saves : Mixed Integer
 """
+import contextlib
 from typing import Optional
 import numpy as np
 from collections import defaultdict
@@ -469,6 +470,18 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         return y
 
+    @contextlib.contextmanager
+    def _solver_printing(self):
+        """
+        Context manager for what the linear solvers do, printed if print_solver is set.
+        """
+        active = self.printer.active
+        self.printer.active = active and self.options["print_solver"]
+        try:
+            yield
+        finally:
+            self.printer.active = active
+
     def _initialize(self):
         """
         Implemented by surrogate models to declare options and declare what they support (optional).
-- 
2.43.0


From b8a76b274275ac405025a9b82366d61412eeb913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 78/99] fix: MOESurrogateModel printed training information
 without print_training

---
 smt/applications/moe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 1457110..fd6a14e 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -62,6 +62,8 @@ class MOESurrogateModel(SurrogateModel):
         for key in self.moe.options._declared_entries:
             if key in self.options:
                 self.moe.options[key] = self.options[key]
+        # the trained experts are reported in the training section
+        self.moe.options["print_global"] = self.printer.active
 
         # self.supports['derivatives'] = self.options['derivatives_support']  # Interface not yet implemented
         self.supports["variances"] = self.options["variances_support"]
-- 
2.43.0


From ce532ac27b0a3d397aa036c43569eb9d4919e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 79/99] fix: EGO took a success of the last allowed inner
 optimization for a failure

---
 smt/applications/ego.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index b668e1a..e8c9d28 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -365,7 +365,7 @@ class EGO(SurrogateBasedApplication):
                 self.log("New start point for the internal optimization")
                 n_optim += 1
 
-        if n_optim >= n_max_optim:
+        if not success:
             # self.log("Internal optimization failed at EGO iter = {}".format(k))
             return np.atleast_2d(0), False
         ind_min = np.argmin(obj_success)
-- 
2.43.0


From d91bf2199c3ea70372f2d503750910dac453bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 80/99] fix: EGO evaluated points of the record again after a
 failed inner optimization

---
 smt/applications/ego.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index e8c9d28..d59ee4d 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -150,6 +150,7 @@ class EGO(SurrogateBasedApplication):
         for k in range(n_iter):
 
             # Virtual enrichement loop
+            n_added = 0
             for p in range(n_parallel):
                 # find next best x-coord point to evaluate
                 x_et_k, success = self._find_best_point(
@@ -172,13 +173,17 @@ class EGO(SurrogateBasedApplication):
                 # Update y_data with predicted value
                 y_data = np.atleast_2d(np.append(y_data, y_et_k)).T
                 x_data = np.atleast_2d(np.append(x_data, x_et_k, axis=0))
+                n_added += 1
+
+            if n_added == 0:
+                continue
 
             # Compute the real values of y_data
-            x_to_compute = np.atleast_2d(x_data[-n_parallel:])
+            x_to_compute = np.atleast_2d(x_data[-n_added:])
             if self.mixint:
                 x_to_compute = self.mixint.fold_with_enum_index(x_to_compute)
             y = self._evaluator.run(fun, x_to_compute)
-            y_data[-n_parallel:] = y
+            y_data[-n_added:] = y
 
         # Find the optimal point
         ind_best = np.argmin(y_data)
-- 
2.43.0


From fba3769b4219545ee36ad42f6208ede4365bad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 81/99] fix: EGO gave category masks of a sampled or given
 initial design to the function

---
 smt/applications/ego.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index d59ee4d..847cd26 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -293,7 +293,10 @@ class EGO(SurrogateBasedApplication):
 
         ydoe = self.options["ydoe"]
         if ydoe is None:
-            y_doe = self._evaluator.run(fun, x_doe)
+            x_to_compute = x_doe
+            if self.mixint:
+                x_to_compute = self.mixint.fold_with_enum_index(x_doe)
+            y_doe = self._evaluator.run(fun, x_to_compute)
         else:  # to save time if y_doe is already given to EGO
             y_doe = ydoe
 
-- 
2.43.0


From 355d5ad222ffdef7a329fd809baf420e62e0429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 82/99] fix: EGO gave non-integer values of integer variables
 to the function

---
 smt/applications/ego.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 847cd26..891357b 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -167,6 +167,8 @@ class EGO(SurrogateBasedApplication):
                             k, p
                         )
                     )
+                if self.mixint:
+                    x_et_k = self.mixint.cast_to_discrete_values(x_et_k)
                 # Set temporaly the y-coord point based on the kriging prediction
                 y_et_k = self._get_virtual_point(np.atleast_2d(x_et_k), y_data)
 
-- 
2.43.0


From 87350c7819b41f44a5e07702cca25d82bedcc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 83/99] fix: the expected improvement of several points was NaN
 at points without variance

---
 smt/applications/ego.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 891357b..6d3587f 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -206,12 +206,12 @@ class EGO(SurrogateBasedApplication):
         f_min = np.min(y_data)
         pred = self.gpr.predict_values(points)
         sig = np.sqrt(self.gpr.predict_variances(points))
-        args0 = (f_min - pred) / sig
+        # without uncertainty, the improvement is the predicted one
+        certain = sig == 0.0
+        args0 = (f_min - pred) / np.where(certain, 1.0, sig)
         args1 = (f_min - pred) * norm.cdf(args0)
         args2 = sig * norm.pdf(args0)
-        if sig.size == 1 and sig == 0.0:  # can be use only if one point is computed
-            return 0.0
-        ei = args1 + args2
+        ei = np.where(certain, np.maximum(f_min - pred, 0.0), args1 + args2)
         # penalize the points already evaluated with tunneling
         if enable_tunneling:
             for i in range(len(points)):
-- 
2.43.0


From f4011dc54af0e1e90ab58dcd585820b48a5386b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:55 +0000
Subject: [PATCH 84/99] fix: training GEKPLS failed if the first components
 explain a local model exactly

---
 smt/utils/kriging_utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index 61ce6ce..bd3ef8f 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -681,7 +681,6 @@ def ge_compute_pls(X, y, n_comp, pts, delta_x, xlimits, extra_points):
     nt, dim = X.shape
     XX = np.empty(shape=(0, dim))
     yy = np.empty(shape=(0, 1))
-    _pls = pls(n_comp)
 
     coeff_pls = np.zeros((nt, dim, n_comp))
     for i in range(nt):
@@ -753,8 +752,18 @@ def ge_compute_pls(X, y, n_comp, pts, delta_x, xlimits, extra_points):
                 - pts[None][2][1][i, 0] * delta_x * (xlimits[1, 1] - xlimits[1, 0])
             )
 
-        _pls.fit(_X.copy(), _y.copy())
-        coeff_pls[i, :, :] = _pls.x_rotations_
+        # The local model is linear: its first components can explain it exactly,
+        # the others are then undetermined (left at zero) and their fit can fail.
+        for n_fit in range(n_comp, 0, -1):
+            try:
+                _pls = pls(n_fit)
+                _pls.fit(_X.copy(), _y.copy())
+            except ValueError:
+                if n_fit == 1:
+                    raise
+            else:
+                coeff_pls[i, :, :n_fit] = _pls.x_rotations_
+                break
         # Add additional points
         if extra_points != 0:
             max_coeff = np.argsort(np.abs(coeff_pls[i, :, 0]))[-extra_points:]
-- 
2.43.0


From 7e2c31b6007d4b123f2789d58d87c38f85645702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 85/99] fix: an RBF loaded from the cache had no output
 derivatives

---
 smt/surrogate_models/rbf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index bd4d2b9..0b77054 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -145,9 +145,11 @@ class RBF(SurrogateModel):
 
             if outputs:
                 self.sol = outputs["sol"]
+                self.mtx = outputs["mtx"]
             else:
                 self._new_train()
                 outputs["sol"] = self.sol
+                outputs["mtx"] = self.mtx
 
     def _predict_values(self, x):
         """
-- 
2.43.0


From 9734c3b2b5a5fc7c41e304f414abac9de61c2799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 86/99] fix: a directory named None was read as a cache
 although caching was disabled

---
 smt/utils/caching.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smt/utils/caching.py b/smt/utils/caching.py
index cdd7af8..a319533 100644
--- a/smt/utils/caching.py
+++ b/smt/utils/caching.py
@@ -31,6 +31,10 @@ def cached_operation(inputs_dict, data_dir, desc=""):
     outputs_dict : dict
         Dictionary containing the outputs of the operation.
     """
+    if not data_dir:
+        yield {}
+        return
+
     checksum = _caching_checksum(inputs_dict)
     filename = "%s/%s_%s.dat" % (data_dir, desc, checksum)
     try:
@@ -43,7 +47,7 @@ def cached_operation(inputs_dict, data_dir, desc=""):
 
     yield outputs_dict
 
-    if not load_successful and data_dir:
+    if not load_successful:
         with open(filename, "wb") as f:
             pickle.dump(outputs_dict, f)
 
-- 
2.43.0


From dda9c1629ce02adcc5e2469280e0f27f3cce0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 87/99] fix: damaged cache files changed the trained model or
 made training fail

---
 smt/utils/caching.py | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/smt/utils/caching.py b/smt/utils/caching.py
index a319533..5632df4 100644
--- a/smt/utils/caching.py
+++ b/smt/utils/caching.py
@@ -10,6 +10,8 @@ except:
     import pickle
 import hashlib
 import contextlib
+import os
+import uuid
 
 
 @contextlib.contextmanager
@@ -39,17 +41,46 @@ def cached_operation(inputs_dict, data_dir, desc=""):
     filename = "%s/%s_%s.dat" % (data_dir, desc, checksum)
     try:
         with open(filename, "rb") as f:
-            outputs_dict = pickle.load(f)
-        load_successful = True
-    except:
+            digest, payload = f.read().split(b"\n", 1)
+        load_successful = digest == _digest(checksum, payload)
+        outputs_dict = pickle.loads(payload) if load_successful else {}
+    except Exception:
         outputs_dict = {}
         load_successful = False
 
     yield outputs_dict
 
     if not load_successful:
-        with open(filename, "wb") as f:
-            pickle.dump(outputs_dict, f)
+        payload = pickle.dumps(outputs_dict)
+        # never leave an incomplete file under the final name
+        tmpname = "%s.%s.tmp" % (filename, uuid.uuid4().hex)
+        try:
+            with open(tmpname, "wb") as f:
+                f.write(_digest(checksum, payload) + b"\n" + payload)
+            os.replace(tmpname, filename)
+        except BaseException:
+            if os.path.exists(tmpname):
+                os.remove(tmpname)
+            raise
+
+
+def _digest(checksum, payload):
+    """
+    Compute what identifies the content of a cache file.
+
+    Arguments
+    ---------
+    checksum : str
+        Checksum of the inputs of the operation.
+    payload : bytes
+        Pickled outputs of the operation.
+
+    Returns
+    -------
+    bytes
+        Hexadecimal digest that a valid cache file starts with.
+    """
+    return hashlib.md5(checksum.encode() + payload).hexdigest().encode()
 
 
 def _caching_checksum(obj):
-- 
2.43.0


From 89dc3be8ebfac8b53904a24ce6ff93c88ff5b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 88/99] fix: predict_derivatives read outside the arrays of IDW
 and RBF for an index that is not an input

---
 smt/surrogate_models/surrogate_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 1aad1ee..08cb923 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -358,6 +358,10 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        if not 0 <= kx < self.nx:
+            raise ValueError(
+                "kx must be an index of an input between 0 and %i" % (self.nx - 1)
+            )
         n = x.shape[0]
         self.printer.active = (
             self.options["print_global"] and self.options["print_prediction"]
-- 
2.43.0


From ecc6c7437efa587b2215f4df71b281a498464d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 89/99] fix: compiled code read and wrote outside its arrays
 when a model was used with data of another size than it was trained with

---
 smt/src/idw/idwclib.pyx   | 12 ++++++++++++
 smt/src/rbf/rbfclib.pyx   | 12 ++++++++++++
 smt/src/rmts/rmtsclib.pyx | 20 ++++++++++++++++++++
 3 files changed, 44 insertions(+)

diff --git a/smt/src/idw/idwclib.pyx b/smt/src/idw/idwclib.pyx
index 0af8131..d3f9160 100644
--- a/smt/src/idw/idwclib.pyx
+++ b/smt/src/idw/idwclib.pyx
@@ -15,13 +15,25 @@ cdef extern from "idw.hpp":
 cdef class PyIDW:
 
     cdef IDW *thisptr
+    cdef int nx, nt
     def __cinit__(self):
         self.thisptr = new IDW()
     def __dealloc__(self):
         del self.thisptr
     def setup(self, int nx, int nt, double p, np.ndarray[double] xt):
+        if xt.shape[0] != nt * nx:
+            raise ValueError("the training points have the wrong size")
         self.thisptr.setup(nx, nt, p, &xt[0])
+        self.nx = nx
+        self.nt = nt
+    cdef _check(self, Py_ssize_t n, np.ndarray[double] x, np.ndarray[double] jac):
+        if x.shape[0] != n * self.nx or jac.shape[0] != n * self.nt:
+            raise ValueError("the model was not trained with data of this size")
     def compute_jac(self, int n, np.ndarray[double] x, np.ndarray[double] jac):
+        self._check(n, x, jac)
         self.thisptr.compute_jac(n, &x[0], &jac[0])
     def compute_jac_derivs(self, int n, int kx, np.ndarray[double] x, np.ndarray[double] jac):
+        self._check(n, x, jac)
+        if not 0 <= kx < self.nx:
+            raise ValueError("kx is not the index of an input")
         self.thisptr.compute_jac_derivs(n, kx, &x[0], &jac[0])
diff --git a/smt/src/rbf/rbfclib.pyx b/smt/src/rbf/rbfclib.pyx
index 18492bc..2e3a124 100644
--- a/smt/src/rbf/rbfclib.pyx
+++ b/smt/src/rbf/rbfclib.pyx
@@ -15,6 +15,7 @@ cdef extern from "rbf.hpp":
 cdef class PyRBF:
 
     cdef RBF *thisptr
+    cdef int nx, num_dof
     def __cinit__(self):
         self.thisptr = new RBF()
     def __dealloc__(self):
@@ -22,8 +23,19 @@ cdef class PyRBF:
     def setup(self,
             int nx, int nt, int num_dof, int poly_degree,
             np.ndarray[double] d0, np.ndarray[double] xt):
+        if xt.shape[0] != nt * nx or d0.shape[0] != nx:
+            raise ValueError("the training points have the wrong size")
         self.thisptr.setup(nx, nt, num_dof, poly_degree, &d0[0], &xt[0])
+        self.nx = nx
+        self.num_dof = num_dof
+    cdef _check(self, Py_ssize_t n, np.ndarray[double] x, np.ndarray[double] jac):
+        if x.shape[0] != n * self.nx or jac.shape[0] != n * self.num_dof:
+            raise ValueError("the model was not trained with data of this size")
     def compute_jac(self, int n, np.ndarray[double] x, np.ndarray[double] jac):
+        self._check(n, x, jac)
         self.thisptr.compute_jac(n, &x[0], &jac[0])
     def compute_jac_derivs(self, int n, int kx, np.ndarray[double] x, np.ndarray[double] jac):
+        self._check(n, x, jac)
+        if not 0 <= kx < self.nx:
+            raise ValueError("kx is not the index of an input")
         self.thisptr.compute_jac_derivs(n, kx, &x[0], &jac[0])
diff --git a/smt/src/rmts/rmtsclib.pyx b/smt/src/rmts/rmtsclib.pyx
index f7aec80..9895aa5 100644
--- a/smt/src/rmts/rmtsclib.pyx
+++ b/smt/src/rmts/rmtsclib.pyx
@@ -26,6 +26,8 @@ cdef extern from "rmtc.hpp":
 cdef class PyRMTB:
 
     cdef RMTB *thisptr
+    cdef int nx
+    cdef Py_ssize_t nterm
     def __cinit__(self):
         self.thisptr = new RMTB()
     def __dealloc__(self):
@@ -33,18 +35,28 @@ cdef class PyRMTB:
     def setup(self, int nx,
             np.ndarray[double] lower, np.ndarray[double] upper,
             np.ndarray[int] order_list, np.ndarray[int] ncp_list):
+        if not lower.shape[0] == upper.shape[0] == order_list.shape[0] == ncp_list.shape[0] == nx:
+            raise ValueError("there must be limits and sizes for each input")
         self.thisptr.setup(nx, &lower[0], &upper[0], &order_list[0], &ncp_list[0])
+        self.nx = nx
+        self.nterm = np.prod(order_list)
     def compute_ext_dist(self, int n, int nterm, np.ndarray[double] x, np.ndarray[double] dx):
+        if x.shape[0] != <Py_ssize_t>n * self.nx or dx.shape[0] != x.shape[0] * nterm:
+            raise ValueError("the model was not trained with data of this size")
         self.thisptr.compute_ext_dist(n, nterm, &x[0], &dx[0])
     def compute_quadrature_points(self, int n, np.ndarray[int] nelem_list, np.ndarray[double] x):
         self.thisptr.compute_quadrature_points(n, &nelem_list[0], &x[0])
     def compute_jac(self, int ix1, int ix2, int n, np.ndarray[double] t,
             np.ndarray[double] data, np.ndarray[int] rows, np.ndarray[int] cols):
+        if t.shape[0] != <Py_ssize_t>n * self.nx or data.shape[0] != n * self.nterm:
+            raise ValueError("the model was not trained with data of this size")
         self.thisptr.compute_jac(ix1, ix2, n, &t[0], &data[0], &rows[0], &cols[0])
 
 cdef class PyRMTC:
 
     cdef RMTC *thisptr
+    cdef int nx
+    cdef Py_ssize_t nterm
     def __cinit__(self):
         self.thisptr = new RMTC()
     def __dealloc__(self):
@@ -52,8 +64,14 @@ cdef class PyRMTC:
     def setup(self, int nx,
             np.ndarray[double] lower, np.ndarray[double] upper,
             np.ndarray[int] nelem_list, np.ndarray[int] nterm_list):
+        if not lower.shape[0] == upper.shape[0] == nelem_list.shape[0] == nterm_list.shape[0] == nx:
+            raise ValueError("there must be limits and sizes for each input")
         self.thisptr.setup(nx, &lower[0], &upper[0], &nelem_list[0], &nterm_list[0])
+        self.nx = nx
+        self.nterm = np.prod(nterm_list)
     def compute_ext_dist(self, int n, int nterm, np.ndarray[double] x, np.ndarray[double] dx):
+        if x.shape[0] != <Py_ssize_t>n * self.nx or dx.shape[0] != x.shape[0] * nterm:
+            raise ValueError("the model was not trained with data of this size")
         self.thisptr.compute_ext_dist(n, nterm, &x[0], &dx[0])
     def compute_quadrature_points(self, int n, np.ndarray[int] nelem_list, np.ndarray[double] x):
         self.thisptr.compute_quadrature_points(n, &nelem_list[0], &x[0])
@@ -67,4 +85,6 @@ cdef class PyRMTC:
         self.thisptr.compute_full_from_block(&mtx[0], &data[0], &rows[0], &cols[0])
     def compute_jac(self, int ix1, int ix2, int n, np.ndarray[double] x,
             np.ndarray[double] data, np.ndarray[int] rows, np.ndarray[int] cols):
+        if x.shape[0] != <Py_ssize_t>n * self.nx or data.shape[0] != n * self.nterm:
+            raise ValueError("the model was not trained with data of this size")
         self.thisptr.compute_jac(ix1, ix2, n, &x[0], &data[0], &rows[0], &cols[0])
-- 
2.43.0


From 4e27737a2ff460dda3787cfb42408086eb695b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 90/99] fix: RMTS read outside its arrays, or used the wrong
 element, at points that are not a number or far outside the domain

---
 smt/src/rmts/rmtb.cpp | 3 ++-
 smt/src/rmts/rmtc.cpp | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/src/rmts/rmtb.cpp b/smt/src/rmts/rmtb.cpp
index feec6a3..3634d74 100644
--- a/smt/src/rmts/rmtb.cpp
+++ b/smt/src/rmts/rmtb.cpp
@@ -15,7 +15,8 @@ void compute_knot_vector_uniform(int order, int ncp, double * knots) {
 }
 
 int compute_i_start(int order, int ncp, double param, double * knots) {
-  int istart = -1;
+  // kept if no interval contains the parameter (not a number)
+  int istart = 0;
 
   for (int i = order - 1; i < ncp; i++) {
     if ((knots[i] <= param) && (param < knots[i + 1])) {
diff --git a/smt/src/rmts/rmtc.cpp b/smt/src/rmts/rmtc.cpp
index 7ab91d0..c711524 100644
--- a/smt/src/rmts/rmtc.cpp
+++ b/smt/src/rmts/rmtc.cpp
@@ -43,9 +43,8 @@ void RMTC::find_interval(int ix, int num, double x, int * index, double * xbar)
   double a = lower[ix];
   double b = upper[ix];
 
-  *index = (int) ceil( (x - a) / (b - a) * num );
-  *index = max(1, *index);
-  *index = min(num, *index);
+  // limited before the conversion: the interval may not be representable as an integer
+  *index = (int) min(1. * num, max(1., ceil( (x - a) / (b - a) * num )));
 
   double a2 = a + (b - a) * (*index - 1) / num;
   double b2 = a + (b - a) * (*index    ) / num;
-- 
2.43.0


From 5407e45600269db3c7bfdad71d2430a1adec6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 91/99] fix: RMTS read outside its arrays for numbers of
 elements, orders or limits that do not fit

---
 smt/surrogate_models/rmtb.py |  2 ++
 smt/surrogate_models/rmtc.py |  1 +
 smt/surrogate_models/rmts.py | 12 ++++++++++++
 3 files changed, 15 insertions(+)

diff --git a/smt/surrogate_models/rmtb.py b/smt/surrogate_models/rmtb.py
index fd1853f..2f62498 100644
--- a/smt/surrogate_models/rmtb.py
+++ b/smt/surrogate_models/rmtb.py
@@ -66,8 +66,10 @@ class RMTB(RMTS):
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
         num["order_list"] = np.array(self._get_list_option("order", nx), int)
+        self._check_sizes("order", num["order_list"])
         num["order"] = np.prod(num["order_list"])
         num["ctrl_list"] = np.array(self._get_list_option("num_ctrl_pts", nx), int)
+        self._check_sizes("num_ctrl_pts", num["ctrl_list"], num["order_list"])
         num["ctrl"] = np.prod(num["ctrl_list"])
         num["elem_list"] = np.array(num["ctrl_list"] - num["order_list"] + 1, int)
         num["elem"] = np.prod(num["elem_list"])
diff --git a/smt/surrogate_models/rmtc.py b/smt/surrogate_models/rmtc.py
index 880e586..8890bb1 100644
--- a/smt/surrogate_models/rmtc.py
+++ b/smt/surrogate_models/rmtc.py
@@ -60,6 +60,7 @@ class RMTC(RMTS):
         num["y"] = self.training_points[None][0][1].shape[1]
         # number of elements
         num["elem_list"] = np.array(self._get_list_option("num_elements", nx), int)
+        self._check_sizes("num_elements", num["elem_list"])
         num["elem"] = np.prod(num["elem_list"])
         # number of terms/coefficients per element
         num["term_list"] = 4 * np.ones(num["x"], int)
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 58c0acb..2aabe08 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -139,6 +139,18 @@ class RMTS(SurrogateModel):
             )
         return value
 
+    def _check_sizes(self, name, sizes, lower=1):
+        # the compiled code relies on these
+        if np.any(sizes < lower):
+            raise ValueError("%s is too small" % name)
+        xlimits = self.options["xlimits"]
+        if xlimits.shape != (len(sizes), 2) or not np.all(
+            xlimits[:, 0] < xlimits[:, 1]
+        ):
+            raise ValueError(
+                "xlimits should have a lower and a greater upper bound for each input"
+            )
+
     def _setup_hessian(self):
         diag = np.ones(self.num["dof"])
         arange = np.arange(self.num["dof"])
-- 
2.43.0


From 1773d64f660c38cf9b947b617d5818442364e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 92/99] fix: RBF, IDW and RMTS crashed when the number of
 points times the number of terms exceeded the range of an integer

---
 smt/src/idw/idw.cpp   |  5 +++--
 smt/src/rbf/rbf.cpp   | 13 +++++++------
 smt/src/rmts/rmtb.cpp |  7 ++++---
 smt/src/rmts/rmtc.cpp |  9 +++++----
 smt/src/rmts/rmts.cpp |  5 +++--
 5 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/smt/src/idw/idw.cpp b/smt/src/idw/idw.cpp
index 247f791..714ac82 100644
--- a/smt/src/idw/idw.cpp
+++ b/smt/src/idw/idw.cpp
@@ -2,6 +2,7 @@
 #include <assert.h>
 #include <math.h>
 #include <iostream>
+#include <cstddef>
 #include <cstring>
 
 using namespace std;
@@ -38,7 +39,7 @@ void IDW::compute_jac(int n, double* x, double* jac) {
   double r2, min_val, sum, d;
   int min_loc;
 
-  for (int i = 0; i < n; i++) {
+  for (ptrdiff_t i = 0; i < n; i++) {
     min_val = HUGE_VAL;
     min_loc = 0;
     for (int it = 0; it < nt; it++) {
@@ -77,7 +78,7 @@ void IDW::compute_jac(int n, double* x, double* jac) {
 void IDW::compute_jac_derivs(int n, int kx, double* x, double* jac) {
   double r2, min_val, sum, dsum_dx, d;
 
-  for (int i = 0; i < n; i++) {
+  for (ptrdiff_t i = 0; i < n; i++) {
     min_val = HUGE_VAL;
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
diff --git a/smt/src/rbf/rbf.cpp b/smt/src/rbf/rbf.cpp
index 01e9891..ca07f0d 100644
--- a/smt/src/rbf/rbf.cpp
+++ b/smt/src/rbf/rbf.cpp
@@ -2,6 +2,7 @@
 #include <assert.h>
 #include <math.h>
 #include <iostream>
+#include <cstddef>
 #include <cstring>
 
 using namespace std;
@@ -34,7 +35,7 @@ void RBF::setup(int nx, int nt, int num_dof, int poly_degree, double * d0, doubl
 void RBF::compute_jac(int n, double* x, double* jac) {
   double r2, d;
 
-  for (int i = 0; i < n; i++) {
+  for (ptrdiff_t i = 0; i < n; i++) {
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
       for (int ix = 0; ix < nx; ix++) {
@@ -47,13 +48,13 @@ void RBF::compute_jac(int n, double* x, double* jac) {
   }
 
   if (poly_degree >= 0) {
-    for (int i = 0; i < n; i++) {
+    for (ptrdiff_t i = 0; i < n; i++) {
       jac[i * num_dof + nt] = 1.;
     }
   }
 
   if (poly_degree == 1) {
-    for (int i = 0; i < n; i++) {
+    for (ptrdiff_t i = 0; i < n; i++) {
       for (int ix = 0; ix < nx; ix++) {
         jac[i * num_dof + nt + 1 + ix] = x[i * nx + ix];
       }
@@ -64,7 +65,7 @@ void RBF::compute_jac(int n, double* x, double* jac) {
 void RBF::compute_jac_derivs(int n, int kx, double* x, double* jac) {
   double r2, dr2_dx, d;
 
-  for (int i = 0; i < n; i++) {
+  for (ptrdiff_t i = 0; i < n; i++) {
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
       for (int ix = 0; ix < nx; ix++) {
@@ -80,13 +81,13 @@ void RBF::compute_jac_derivs(int n, int kx, double* x, double* jac) {
   }
 
   if (poly_degree >= 0) {
-    for (int i = 0; i < n; i++) {
+    for (ptrdiff_t i = 0; i < n; i++) {
       jac[i * num_dof + nt] = 0.;
     }
   }
 
   if (poly_degree == 1) {
-    for (int i = 0; i < n; i++) {
+    for (ptrdiff_t i = 0; i < n; i++) {
       for (int ix = 0; ix < nx; ix++) {
         jac[i * num_dof + nt + 1 + ix] = 0.;
       }
diff --git a/smt/src/rmts/rmtb.cpp b/smt/src/rmts/rmtb.cpp
index 3634d74..a882992 100644
--- a/smt/src/rmts/rmtb.cpp
+++ b/smt/src/rmts/rmtb.cpp
@@ -4,6 +4,7 @@
 #include <assert.h>
 #include <math.h>
 #include <iostream>
+#include <cstddef>
 #include <cstring>
 
 using namespace std;
@@ -202,7 +203,7 @@ void RMTB::compute_jac(
     nnz_row *= order_list[ix];
   }
 
-  for (int i = 0; i < n; i++) {
+  for (ptrdiff_t i = 0; i < n; i++) {
     for (int inz_row = 0; inz_row < nnz_row; inz_row++) {
       data[i * nnz_row + inz_row] = 1.;
       rows[i * nnz_row + inz_row] = i;
@@ -219,7 +220,7 @@ void RMTB::compute_jac(
 
     compute_knot_vector_uniform(order, ncp, knots);
 
-    for (int i = 0; i < n; i++) {
+    for (ptrdiff_t i = 0; i < n; i++) {
       int istart;
       int (*compute_basis)(int, int, double, double *, double *);
 
@@ -243,7 +244,7 @@ void RMTB::compute_jac(
           rem -= inz_dim * prod;
         }
 
-        int inz = i * nnz_row + inz_row;
+        ptrdiff_t inz = i * nnz_row + inz_row;
 
         int prod = 1;
         for (int jx = ix + 1; jx < nx; jx++) {
diff --git a/smt/src/rmts/rmtc.cpp b/smt/src/rmts/rmtc.cpp
index c711524..c70925f 100644
--- a/smt/src/rmts/rmtc.cpp
+++ b/smt/src/rmts/rmtc.cpp
@@ -4,6 +4,7 @@
 #include <assert.h>
 #include <math.h>
 #include <iostream>
+#include <cstddef>
 #include <cstring>
 #include <algorithm>
 
@@ -117,7 +118,7 @@ void RMTC::compute_uniq2elem(double * data, int * rows, int * cols) {
     nuniq *= nuniq_list[ix];
   }
 
-  int inz = 0;
+  ptrdiff_t inz = 0;
 
   for (int ielem = 0; ielem < nelem; ielem++) {
     int * ielem_list;
@@ -160,7 +161,7 @@ void RMTC::compute_uniq2elem(double * data, int * rows, int * cols) {
 }
 
 void RMTC::compute_full_from_block(double * mtx, double * data, int * rows, int * cols){
-  int inz = 0;
+  ptrdiff_t inz = 0;
 
   for (int ielem = 0; ielem < nelem; ielem++) {
     for (int iterm1 = 0; iterm1 < nterm; iterm1++) {
@@ -186,9 +187,9 @@ void RMTC::compute_jac(
     dxb_dx[ix] = 1. / bma_d2;
   }
 
-  int inz = 0;
+  ptrdiff_t inz = 0;
 
-  for (int i = 0; i < n; i++) {
+  for (ptrdiff_t i = 0; i < n; i++) {
     int * ielem_list;
     ielem_list = work_int_nx_1;
 
diff --git a/smt/src/rmts/rmts.cpp b/smt/src/rmts/rmts.cpp
index cc62971..879776e 100644
--- a/smt/src/rmts/rmts.cpp
+++ b/smt/src/rmts/rmts.cpp
@@ -3,6 +3,7 @@
 #include <assert.h>
 #include <math.h>
 #include <iostream>
+#include <cstddef>
 #include <cstring>
 #include <algorithm>
 
@@ -77,7 +78,7 @@ void RMTS::setup(int nx, double * lower, double * upper) {
 void RMTS::compute_ext_dist(int n, int nterm, double * x, double * dx) {
   double work;
 
-  for (int i = 0; i < n; i++) {
+  for (ptrdiff_t i = 0; i < n; i++) {
     for (int ix = 0; ix < nx; ix++) {
       // compute the vector pointing from the nearest point in the domain to the current x
       work = x[i * nx + ix];
@@ -97,7 +98,7 @@ void RMTS::compute_quadrature_points(int n, int * nelem_list, double * x) {
 
   double t;
 
-  for (int i = 0; i < n; i++) {
+  for (ptrdiff_t i = 0; i < n; i++) {
     expand_index(nx, nelem_list, i, ielem_list);
     for (int ix = 0; ix < nx; ix++) {
       t = (1. + 2. * ielem_list[ix]) / 2. / nelem_list[ix];
-- 
2.43.0


From a1ae34e52430c26866792b1e6e488a1de9860379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 93/99] fix: GEKPLS failed for one input, and used the
 derivatives of the first output for all outputs

---
 smt/utils/kriging_utils.py | 86 +++++++-------------------------------
 1 file changed, 15 insertions(+), 71 deletions(-)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index bd3ef8f..2deade2 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -647,8 +647,8 @@ def ge_compute_pls(X, y, n_comp, pts, delta_x, xlimits, extra_points):
     X: np.ndarray [n_obs,dim]
             - - The input variables.
 
-    y: np.ndarray [n_obs,1]
-            - The output variable
+    y: np.ndarray [n_obs,ny]
+            - The output variables
 
     n_comp: int
             - Number of principal components used.
@@ -674,83 +674,27 @@ def ge_compute_pls(X, y, n_comp, pts, delta_x, xlimits, extra_points):
     XX: np.ndarray[extra_points*nt, dim]
             - Extra points added (when extra_points > 0)
 
-    yy: np.ndarray[extra_points*nt, 1]
+    yy: np.ndarray[extra_points*nt, ny]
             - Extra points added (when extra_points > 0)
 
     """
     nt, dim = X.shape
     XX = np.empty(shape=(0, dim))
-    yy = np.empty(shape=(0, 1))
+    yy = np.empty(shape=(0, y.shape[1]))
 
     coeff_pls = np.zeros((nt, dim, n_comp))
     for i in range(nt):
+        # Steps around the point (first step: the point itself)
         if dim >= 3:
             sign = np.roll(bbdesign(int(dim), center=1), 1, axis=0)
-            _X = np.zeros((sign.shape[0], dim))
-            _y = np.zeros((sign.shape[0], 1))
-            sign = sign * delta_x * (xlimits[:, 1] - xlimits[:, 0])
-            _X = X[i, :] + sign
-            for j in range(1, dim + 1):
-                sign[:, j - 1] = sign[:, j - 1] * pts[None][j][1][i, 0]
-            _y = y[i, :] + np.sum(sign, axis=1).reshape((sign.shape[0], 1))
         else:
-            _X = np.zeros((9, dim))
-            _y = np.zeros((9, 1))
-            # center
-            _X[:, :] = X[i, :].copy()
-            _y[0, 0] = y[i, 0].copy()
-            # right
-            _X[1, 0] += delta_x * (xlimits[0, 1] - xlimits[0, 0])
-            _y[1, 0] = _y[0, 0].copy() + pts[None][1][1][i, 0] * delta_x * (
-                xlimits[0, 1] - xlimits[0, 0]
-            )
-            # up
-            _X[2, 1] += delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            _y[2, 0] = _y[0, 0].copy() + pts[None][2][1][i, 0] * delta_x * (
-                xlimits[1, 1] - xlimits[1, 0]
-            )
-            # left
-            _X[3, 0] -= delta_x * (xlimits[0, 1] - xlimits[0, 0])
-            _y[3, 0] = _y[0, 0].copy() - pts[None][1][1][i, 0] * delta_x * (
-                xlimits[0, 1] - xlimits[0, 0]
-            )
-            # down
-            _X[4, 1] -= delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            _y[4, 0] = _y[0, 0].copy() - pts[None][2][1][i, 0] * delta_x * (
-                xlimits[1, 1] - xlimits[1, 0]
-            )
-            # right up
-            _X[5, 0] += delta_x * (xlimits[0, 1] - xlimits[0, 0])
-            _X[5, 1] += delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            _y[5, 0] = (
-                _y[0, 0].copy()
-                + pts[None][1][1][i, 0] * delta_x * (xlimits[0, 1] - xlimits[0, 0])
-                + pts[None][2][1][i, 0] * delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            )
-            # left up
-            _X[6, 0] -= delta_x * (xlimits[0, 1] - xlimits[0, 0])
-            _X[6, 1] += delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            _y[6, 0] = (
-                _y[0, 0].copy()
-                - pts[None][1][1][i, 0] * delta_x * (xlimits[0, 1] - xlimits[0, 0])
-                + pts[None][2][1][i, 0] * delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            )
-            # left down
-            _X[7, 0] -= delta_x * (xlimits[0, 1] - xlimits[0, 0])
-            _X[7, 1] -= delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            _y[7, 0] = (
-                _y[0, 0].copy()
-                - pts[None][1][1][i, 0] * delta_x * (xlimits[0, 1] - xlimits[0, 0])
-                - pts[None][2][1][i, 0] * delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            )
-            # right down
-            _X[8, 0] += delta_x * (xlimits[0, 1] - xlimits[0, 0])
-            _X[8, 1] -= delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            _y[8, 0] = (
-                _y[0, 0].copy()
-                + pts[None][1][1][i, 0] * delta_x * (xlimits[0, 1] - xlimits[0, 0])
-                - pts[None][2][1][i, 0] * delta_x * (xlimits[1, 1] - xlimits[1, 0])
-            )
+            levels = np.meshgrid(*[[0.0, 1.0, -1.0]] * dim, indexing="ij")
+            sign = np.stack(levels, axis=-1).reshape((-1, dim))
+        sign = sign * delta_x * (xlimits[:, 1] - xlimits[:, 0])
+        # First-order Taylor approximation of each output
+        grad = np.array([pts[None][j][1][i, :] for j in range(1, dim + 1)])
+        _X = X[i, :] + sign
+        _y = y[i, :] + np.dot(sign, grad)
 
         # The local model is linear: its first components can explain it exactly,
         # the others are then undetermined (left at zero) and their fit can fail.
@@ -770,9 +714,9 @@ def ge_compute_pls(X, y, n_comp, pts, delta_x, xlimits, extra_points):
             for ii in max_coeff:
                 XX = np.vstack((XX, X[i, :]))
                 XX[-1, ii] += delta_x * (xlimits[ii, 1] - xlimits[ii, 0])
-                yy = np.vstack((yy, y[i, 0]))
-                yy[-1, 0] += (
-                    pts[None][1 + ii][1][i, 0]
+                yy = np.vstack((yy, y[i, :]))
+                yy[-1, :] += (
+                    pts[None][1 + ii][1][i, :]
                     * delta_x
                     * (xlimits[ii, 1] - xlimits[ii, 0])
                 )
-- 
2.43.0


From 2982eb8ae047029aee18a6e55b7e1d4e8b5b59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 94/99] fix: GEKPLS accepted derivatives given at other points
 than the values

---
 smt/surrogate_models/gekpls.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smt/surrogate_models/gekpls.py b/smt/surrogate_models/gekpls.py
index 73a60cf..27ebf48 100644
--- a/smt/surrogate_models/gekpls.py
+++ b/smt/surrogate_models/gekpls.py
@@ -39,6 +39,12 @@ class GEKPLS(KPLS):
 
     def _compute_pls(self, X, y):
         if 0 in self.training_points[None]:
+            xt = self.training_points[None][0][0]
+            for kx in range(self.nx):
+                if not np.array_equal(self.training_points[None][kx + 1][0], xt):
+                    raise ValueError(
+                        "the training derivatives must be given at the training points"
+                    )
             self.coeff_pls, XX, yy = ge_compute_pls(
                 X.copy(),
                 y.copy(),
-- 
2.43.0


From ee89d6aaa77a5660bdf477b19098e0c75fc4b40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:24 +0000
Subject: [PATCH 95/99] fix: MixedIntegerSurrogateModel claimed the
 capabilities of the wrapped model that it does not have, and shared its
 dictionary

---
 smt/applications/mixed_integer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 62f64b4..f8afb4c 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -280,7 +280,9 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         self._xtypes = xtypes
         self._xlimits = xlimits
         self._input_in_folded_space = input_in_folded_space
-        self.supports = self._surrogate.supports
+        # only the values and the variances are those of the surrogate
+        for name in ("variances", "adjoint_api"):
+            self.supports[name] = self._surrogate.supports[name]
         self.options["print_global"] = False
 
     @property
-- 
2.43.0


From eb25d36ea022f2e5dbce68f01d6b40f663181669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:24 +0000
Subject: [PATCH 96/99] fix: MGP and MFK claimed derivatives they cannot
 predict

---
 smt/applications/mfk.py         | 1 +
 smt/surrogate_models/krg_mgp.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index d684cf6..f7efaa3 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -123,6 +123,7 @@ class MFK(KrgBased):
             desc="If True, the variance at HF samples is forced to zero",
         )
         self.name = "MFK"
+        self.supports["variance_derivatives"] = False
 
     def _differences(self, X, Y):
         """
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index b22c65e..7d14240 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -36,6 +36,8 @@ class MGP(KrgBased):
         )
         self.options["hyper_opt"] = "TNC"
         self.options["corr"] = "act_exp"
+        self.supports["derivatives"] = False
+        self.supports["variance_derivatives"] = False
 
     def _componentwise_distance(self, dx, small=False, opt=0):
         """
-- 
2.43.0


From 44be2742807db11dea20755b7708325fcac7600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 97/99] fix: LS dropped inputs whose unit is many orders of
 magnitude smaller than that of another input

---
 smt/surrogate_models/ls.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/ls.py b/smt/surrogate_models/ls.py
index 8b3fc86..a6a2ca9 100644
--- a/smt/surrogate_models/ls.py
+++ b/smt/surrogate_models/ls.py
@@ -52,8 +52,13 @@ class LS(SurrogateModel):
             x = pts[None][0][0]
             y = pts[None][0][1]
 
+        # Columns of equal size: inputs whose units differ by many orders of magnitude
+        # would otherwise be dropped as linearly dependent
+        scale = np.ptp(x, axis=0)
+        scale[scale <= 1e-12 * np.max(np.abs(x), axis=0)] = 1.0
         self.mod = linear_model.LinearRegression()
-        self.mod.fit(x, y)
+        self.mod.fit(x / scale, y)
+        self.mod.coef_ = self.mod.coef_ / scale
 
     def _train(self):
         """
-- 
2.43.0


From 8a912eaa52f12d544b958637c4ac89d70e26338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 98/99] fix: EGO with KBRand ignored random_state, and GENN
 reseeded the global random generator

---
 smt/applications/ego.py      | 14 ++++++++++++-
 smt/surrogate_models/genn.py | 40 +++++++++++++++++++++---------------
 smt/utils/neural_net/data.py |  4 ++--
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 6d3587f..e88759f 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -261,6 +261,7 @@ class EGO(SurrogateBasedApplication):
         # Set the model
         self.gpr = self.options["surrogate"]
         self.xlimits = self.options["xlimits"]
+        self._randn = self._build_randn()
 
         # Handle mixed integer optimization
         xtypes = self.options["xtypes"]
@@ -384,6 +385,17 @@ class EGO(SurrogateBasedApplication):
 
         return x_et_k, True
 
+    def _build_randn(self):
+        """
+        Source of normal random numbers: the generator or seed in the options, else numpy's
+        """
+        random_state = self.options["random_state"]
+        if random_state is None:
+            return np.random.randn
+        if not isinstance(random_state, np.random.RandomState):
+            random_state = np.random.RandomState(random_state)
+        return random_state.randn
+
     def _get_virtual_point(self, x, y_data):
         """
         Depending on the qEI attribute return a predicted value at given point x
@@ -414,7 +426,7 @@ class EGO(SurrogateBasedApplication):
             conf = -3.0
 
         if qEI == "KBRand":
-            conf = np.random.randn()
+            conf = getattr(self, "_randn", np.random.randn)()
         pred = self.gpr.predict_values(x)
         var = self.gpr.predict_variances(x)
 
diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index c48dfcb..e0bb19f 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -189,25 +189,31 @@ class GENN(SurrogateModel):
         n_x = X.shape[0]
         n_y = Y.shape[0]
 
-        # Train neural net (the seed also governs the initial parameters)
+        # Train neural net (the seed also governs the initial parameters,
+        # the global random state is left as it was)
+        random_state = np.random.get_state()
         if seed is not None:
             np.random.seed(seed)
-        self.model = Model.initialize(n_x, n_y, deep, wide)
-        self.model.train(
-            X=X,
-            Y=Y,
-            J=J,
-            num_iterations=num_iterations,
-            mini_batch_size=mini_batch_size,
-            num_epochs=num_epochs,
-            alpha=alpha,
-            beta1=beta1,
-            beta2=beta2,
-            lambd=lambd,
-            gamma=gamma,
-            seed=seed,
-            silent=not is_print,
-        )
+        try:
+            self.model = Model.initialize(n_x, n_y, deep, wide)
+            self.model.train(
+                X=X,
+                Y=Y,
+                J=J,
+                num_iterations=num_iterations,
+                mini_batch_size=mini_batch_size,
+                num_epochs=num_epochs,
+                alpha=alpha,
+                beta1=beta1,
+                beta2=beta2,
+                lambd=lambd,
+                gamma=gamma,
+                seed=seed,
+                silent=not is_print,
+            )
+        finally:
+            if seed is not None:
+                np.random.set_state(random_state)
 
         self._is_trained = True
 
diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 2df164a..64992b2 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -95,12 +95,12 @@ def random_mini_batches(X, Y, J, mini_batch_size=64, seed=None):
     :param: mini_batch_size: size of the mini-batches, integer
     :return: mini_batches: list of synchronous (mini_batch_X, mini_batch_Y, mini_batch_J)
     """
-    np.random.seed(seed)
+    rng = np.random if seed is None else np.random.RandomState(seed)
     m = X.shape[1]
     mini_batches = []
 
     # Step 1: Shuffle (X, Y, J)
-    permutations = list(np.random.permutation(m))
+    permutations = list(rng.permutation(m))
     shuffled_X = X[:, permutations].reshape(X.shape)
     shuffled_Y = Y[:, permutations].reshape(Y.shape)
     if J is not None:
-- 
2.43.0


From f5a6838aba0b4e8fe50bbdab96810b10bc489930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 99/99] fix: the finite differences of the network optimiser
 changed the design they were asked about

---
 smt/utils/neural_net/optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/smt/utils/neural_net/optimizer.py b/smt/utils/neural_net/optimizer.py
index dec0b52..4c0a898 100644
--- a/smt/utils/neural_net/optimizer.py
+++ b/smt/utils/neural_net/optimizer.py
@@ -25,20 +25,21 @@ def finite_difference(parameters, fun=None, dx=1e-6):
     """
     grads = dict()
     for key in parameters.keys():
-        x = np.copy(parameters[key])
+        x = parameters[key]
         n, p = x.shape
         dy = np.zeros((n, p))
         for i in range(0, n):
             for j in range(0, p):
                 # Forward step
+                parameters[key] = np.copy(x)
                 parameters[key][i, j] = x[i, j] + dx
                 y_fwd = fun(parameters)
-                parameters[key] = np.copy(x)
 
                 # Backward step
+                parameters[key] = np.copy(x)
                 parameters[key][i, j] = x[i, j] - dx
                 y_bwd = fun(parameters)
-                parameters[key] = np.copy(x)
+                parameters[key] = x
 
                 # Central difference
                 dy[i, j] = np.divide(y_fwd - y_bwd, 2 * dx)
-- 
2.43.0

