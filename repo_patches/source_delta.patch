From 3baada98f65a47bce578d0f31d530f1ebd3538d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 01/49] fix: use builtin int/float instead of the
 numpy.int/numpy.float aliases removed from NumPy

---
 pyparticleest/filter.py            | 16 ++++++++--------
 pyparticleest/paramest/paramest.py |  2 +-
 pyparticleest/smoother.py          |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9fdfae7..6a9fad4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -355,8 +355,8 @@ class CSIRAS(SIR):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext(particles=traj[cur_ind].pa.part,
                                        next_part=self.ctraj[cur_ind + 1].pa.part[find],
@@ -613,8 +613,8 @@ class CPFAS(CPF):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -738,8 +738,8 @@ class CPFYAS(CPFAS):
         ancestors[:-1] = sample(tmp, self.N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.arange(self.N, dtype=numpy.int)
-        find = numpy.zeros((self.N,), dtype=numpy.int)
+        pind = numpy.arange(self.N, dtype=int)
+        find = numpy.zeros((self.N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -857,7 +857,7 @@ class ParticleTrajectory(object):
         else:
             self.uvec = numpy.empty(1, dtype=utype)
             self.yvec = numpy.empty(1, dtype=ytype)
-            self.tvec = numpy.empty(1, dtype=numpy.float)
+            self.tvec = numpy.empty(1, dtype=float)
             self.T = 0
         #TODO, this isn't correctly used in the code, assumed = 0
         assert(t0 == 0)
@@ -1116,7 +1116,7 @@ class ParticleApproximation(object):
         new_ind = sample(numpy.exp(tmp), N)
         new_part = model.copy_ind(self.part, new_ind)
 
-        self.w = numpy.log(numpy.ones(N, dtype=numpy.float) / N)
+        self.w = numpy.log(numpy.ones(N, dtype=float) / N)
         self.part = new_part
         self.num = N
         self.w_offset = 0.0
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 1e8f917..d4490ef 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -228,7 +228,7 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
-        ind = numpy.asarray(range(num_part), dtype=numpy.int)
+        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 01cebda..45983ce 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -360,7 +360,7 @@ class SmoothTrajectory(object):
         else:
             raise ValueError('Unknown sampler: %s' % method)
 
-        find = numpy.arange(M, dtype=numpy.int)
+        find = numpy.arange(M, dtype=int)
 
         for cur_ind in reversed(range(len(pt) - 1)):
 
@@ -523,7 +523,7 @@ class SmoothTrajectory(object):
         ut = self.u
         yt = self.y
         tt = self.t
-        pind = numpy.arange(self.M, dtype=numpy.int)
+        pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
         pt = self.traj[:T - 1]
-- 
2.43.0


From fed3fd615a3fd33106e5b2cd1a274d58aa7d1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 02/49] fix: use range instead of xrange, which no longer
 exists, in the parameter estimation code

---
 pyparticleest/paramest/interfaces.py | 8 ++++----
 pyparticleest/paramest/paramest.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 3430427..0a26a18 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -61,7 +61,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T - 1):
+        for i in range(T - 1):
             val = self.eval_logp_xnext(sest[i],
                                        sest[i + 1],
                                        ut[i], tt[i])
@@ -73,7 +73,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T):
+        for i in range(T):
             if (yt[i] is not None):
                 val = self.eval_logp_y(sest[i], yt[i], tt[i])
                 logp_y += numpy.sum(val)
@@ -142,7 +142,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T):
+        for t in range(T):
             if (straj.y[t] is not None):
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
@@ -157,7 +157,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T - 1):
+        for t in range(T - 1):
             (val, grad) = self.eval_logp_xnext_val_grad(sest[t],
                                                         sest[t + 1],
                                                         straj.u[t],
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index d4490ef..64bcae7 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -44,7 +44,7 @@ class ParamEstimation(Simulator):
 
         params_local = numpy.copy(param0)
         Q = -numpy.Inf
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             Q_old = Q
             self.set_params(params_local)
             if (numpy.isscalar(num_part)):
@@ -132,7 +132,7 @@ class ParamEstimationSAEM(Simulator):
         alltrajs = None
         weights = None
 
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             if (numpy.isscalar(num_part)):
@@ -331,7 +331,7 @@ class ParamEstimationPSAEM2(Simulator):
         weights = numpy.empty((max_iter * num_part,))
 
         datalen = 0
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
@@ -345,7 +345,7 @@ class ParamEstimationPSAEM2(Simulator):
 
             newtrajs = numpy.empty((T, N, D))
 
-            for t in xrange(T):
+            for t in range(T):
                 newtrajs[t] = tmp[t].pa.part
 
             w = 1.0
-- 
2.43.0


From 67453402506b646aa94e1a9684cfebcf13b086c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 03/49] fix: NonlinearGaussian evaluates scalar densities with
 the variance, not the standard deviation

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 407a0aa..9efb939 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -200,7 +200,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         diff = yrep - g
         if (R is None):
             if (self.Rcholtri.shape[0] == 1):
-                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri)
+                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri ** 2)
             else:
                 lpy = kalman.lognormpdf_cho_vec(diff, self.Rchol)
         else:
@@ -287,7 +287,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         Q = self.calc_Q(particles, u, t)
         if (Q is None):
             if (self.Qcholtri.shape[0] == 1):
-                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri)
+                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri ** 2)
             else:
                 lpx = kalman.lognormpdf_cho_vec(diff, self.Qchol)
         else:
-- 
2.43.0


From 615918ed16187350189f09e3137f7814abdc652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 04/49] fix: draw the initial NonlinearGaussian particles with
 covariance Px0

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 9efb939..d93ad97 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -412,9 +412,9 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
          of all particles """
         particles = numpy.repeat(self.x0, N, 1).T
         if (numpy.any(self.Px0)):
-            Pchol = scipy.linalg.cho_factor(self.Px0)[0]
+            Pchol = numpy.triu(scipy.linalg.cho_factor(self.Px0)[0])
             noise = numpy.random.normal(size=(self.lxi, N))
-            particles += (Pchol.dot(noise)).T
+            particles += (Pchol.T.dot(noise)).T
         return particles
 
     def eval_logp_x0(self, particles, t):
-- 
2.43.0


From 8805d0ae071c8f3fbf219ce3da771250510c0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 05/49] fix: do not create integer particles when x0 is given
 as integers

---
 pyparticleest/models/nlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index d93ad97..4b67a1d 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -385,7 +385,7 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
     def __init__(self, x0=None, Px0=None, lxi=None, **kwargs):
 
         if (x0 is not None):
-            self.x0 = numpy.copy(x0).reshape((-1, 1))
+            self.x0 = numpy.array(x0, dtype=float).reshape((-1, 1))
         elif (lxi is not None):
             self.x0 = numpy.zeros((lxi, 1))
         elif (Px0 is not None):
-- 
2.43.0


From a93d7512f370bc339374b679f39164eb9bba445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 06/49] fix: LTV.sample_smooth uses the dynamics of the current
 time step and each particle's own estimate

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 402b133..b1baae2 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -277,11 +277,11 @@ class LTV(FFBSi, ParticleFiltering):
         res = numpy.empty((M, lz + 2 * lz ** 2))
         for j in range(M):
             if (future_trajs is not None):
-                zn = future_trajs[0].pa.part[j, :lz].reshape((lz, 1))
-                Pn = future_trajs[0].pa.part[j, lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[0], t=tt[0])
+                zn = future_trajs[0].pa.part[find[j], :lz].reshape((lz, 1))
+                Pn = future_trajs[0].pa.part[find[j], lz:lzP].reshape((lz, lz))
+                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
                 self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[0], Pl[0], zn, Pn, self.kf.A,
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
                                               self.kf.f_k, self.kf.Q)
             else:
                 zs = zl[j]
-- 
2.43.0


From 087081dd3003484d0ceabb519f07a6087aecb9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 07/49] fix: LTV gradient of the measurement term with respect
 to C and h

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index b1baae2..665c586 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -494,7 +494,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i])
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -623,12 +623,12 @@ class LTV(FFBSi, ParticleFiltering):
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
-                tmp = -h_grad[j].dot(meas_diff)
+                tmp = -h_grad[j].dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
         if (C_grad is not None):
             for j in range(lparam):
-                tmp = -C_grad[j].dot(z).dot(meas_diff)
+                tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C)
+                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
-- 
2.43.0


From 61b81e0eeec44a02244a4bf3536757c1ac67a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 08/49] fix: HierarchicalBase.sample_smooth conditions each
 trajectory on its own particle

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 589436b..c00e9e4 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -160,7 +160,7 @@ class HierarchicalBase(RBPSBase):
         res = numpy.zeros((M, self.lxi + self.kf.lz + 2 * self.kf.lz ** 2))
         for j in range(M):
             partj = numpy.copy(part[j:j + 1])
-            (xil, zl, Pl) = self.get_states(part,)
+            (xil, zl, Pl) = self.get_states(partj)
             if (future_trajs is not None):
                 (A, f, Q, _, _, _) = self.get_lin_pred_dynamics_int(partj,
                                                                     ut[cur_ind],
-- 
2.43.0


From 8808ce1060f51b15d524968907582baeb4581550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 09/49] fix: HierarchicalRSBase.logp_xnext_max is the peak of
 the Gaussian density

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index c00e9e4..3b731bb 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -259,7 +259,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         for i in range(N):
             # Predict z_{t+1}
             Pn = Az[i].dot(Pl[i]).dot(Az[i].T) + Qz[i]
-            lpz[i] = -0.5 * nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1]
+            lpz[i] = -0.5 * (nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1])
         lpmax = numpy.max(lpxi + lpz)
         return lpmax
 
-- 
2.43.0


From b4f517777a09d7c20f861d9b85c4eab82cec6b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 10/49] fix: conditional process noise covariance for
 correlated noise in MLNLG models

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8138cb7..a21850b 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -265,7 +265,7 @@ class MixedNLGaussianSampled(RBPSBase):
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
             fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
-            Qcond.append(Qz[i])
+            Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
 
-- 
2.43.0


From 91a8142647046801929511d143ebc0a70a036880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 11/49] fix: eval_logp_y_val_grad with one R per particle

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index a21850b..8a52ac7 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1023,7 +1023,7 @@ class MixedNLGaussianSampled(RBPSBase):
                                                                       l3[i], l3_grad[i][j])
             else:
                 for i in range(N):
-                    Rzcho = scipy.linalg.cho_factor(Rzcho, check_finite=False)
+                    Rzcho = scipy.linalg.cho_factor(Rz[i], check_finite=False)
                     # (_tmp, ld) = numpy.linalg.slogdet(Rz[i])
                     ld = numpy.sum(numpy.log(numpy.diagonal(Rzcho[0]))) * 2
                     tmp = scipy.linalg.cho_solve(Rzcho, l3[i])
-- 
2.43.0


From 5c7a2f7bfa722cd0ecd9b3facf54706f6706236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 12/49] fix: do not discard C_grad when calculating the MLNLG
 measurement gradient

---
 pyparticleest/models/mlnlg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8a52ac7..4739ca3 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -936,7 +936,6 @@ class MixedNLGaussianSampled(RBPSBase):
             l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
 
             if (C_grad is not None):
-                C_grad = N * (numpy.zeros((len(self.params), len(y), self.kf.lz)),)
                 for j in range(len(self.params)):
                     tmp2 = C_grad[i][j].dot(Pl[i]).dot(Cl[i].T)
                     tmp = C_grad[i][j].dot(zl[i]).dot(meas_diff.T)
-- 
2.43.0


From 5b477ed6425667647cb76a869f0621b479e2d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 13/49] fix: shape of the default get_rb_initial_grad

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 4739ca3..893e831 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1113,8 +1113,8 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
          P is a list of element-wise gradients for the covariance matrices
         """
         N = len(xi0)
-        return (N * (numpy.zeros((N, len(self.params), self.kf.lz, 1)),),
-                N * (numpy.zeros((N, len(self.params), self.kf.lz, self.kf.lz)),))
+        return (N * (numpy.zeros((len(self.params), self.kf.lz, 1)),),
+                N * (numpy.zeros((len(self.params), self.kf.lz, self.kf.lz)),))
 
     def eval_logp_xi0(self, xil):
         """
-- 
2.43.0


From 03873e9823e5cebed7e5e386ae7003e4711d5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 14/49] fix: eval_logp_x0_val_grad adds the summed density of
 the nonlinear states

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 893e831..3820186 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -779,7 +779,7 @@ class MixedNLGaussianSampled(RBPSBase):
                 dl1 = -tmp - tmp.T
                 lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[i][j], l1, dl1)
 
-        return ((lpxi0 + lpz0) / N,
+        return ((numpy.sum(lpxi0) + lpz0) / N,
                 (lpxi0_grad + lpz0_grad) / N)
 
 
-- 
2.43.0


From 11f516cb8fa87ec19ef0d46bcc28fb6890231868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 15/49] fix: MLNLG models can be created without Pz0

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 3820186..98f72f6 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1043,12 +1043,11 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
             self.Pxi0 = numpy.zeros((len(self.xi0), len(self.xi0)))
         else:
             self.Pxi0 = numpy.copy((Pxi0))
+        self.z0 = numpy.copy(z0).reshape((-1, 1))
         if (Pz0 is None):
             self.Pz0 = numpy.zeros((len(self.z0), len(self.z0)))
         else:
             self.Pz0 = numpy.copy((Pz0))
-        self.z0 = numpy.copy(z0).reshape((-1, 1))
-        self.Pz0 = numpy.copy(Pz0)
         super(MixedNLGaussianSampledInitialGaussian, self).__init__(lxi=len(self.xi0),
                                                              lz=len(self.z0),
                                                              **kwargs)
-- 
2.43.0


From 1cf223ee316f78dcb6de52da11a3112f98c417ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 16/49] fix: MHBP proposes ancestors independently of the
 trajectory index

---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 45983ce..164a8e9 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -473,7 +473,7 @@ class SmoothTrajectory(object):
 
                 if (t > 0):
                     # Propose new ancestors
-                    panc = pf.sample(tmp, M)
+                    panc = numpy.random.permutation(pf.sample(tmp, M))
 
 
                 (pnew, acc) = mc_step(model=self.model,
-- 
2.43.0


From 7448a9dcfa4b8bef32ab3b8dff3be71984936fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 17/49] fix: maximize with several parameters, keep one
 gradient element per parameter

---
 pyparticleest/paramest/interfaces.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 0a26a18..06e75c3 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -148,7 +148,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                                                         straj.y[t],
                                                         straj.t[t])
                 logp_y += val
-                logp_y_grad += grad
+                logp_y_grad += numpy.ravel(grad)
         return (logp_y / M, logp_y_grad / M)
 
     def eval_logp_xnext_val_grad_fulltraj(self, straj, ut, tt):
@@ -163,7 +163,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                                                         straj.u[t],
                                                         straj.t[t])
             logp_xnext += val
-            logp_xnext_grad += grad
+            logp_xnext_grad += numpy.ravel(grad)
 
         return (logp_xnext / M, logp_xnext_grad / M)
 
@@ -255,7 +255,7 @@ class ParamEstBaseNumeric(ParamEstIntFullTraj):
             val = -1.0 * (log_py + log_px0 + log_pxnext)
             return val
 
-        res = scipy.optimize.minimize(fun=fval, x0=self.params, method='l-bfgs-b', jac=False,
+        res = scipy.optimize.minimize(fun=fval, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=False,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
         return res.x
@@ -282,12 +282,12 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
 
             (tmp1, tmp2) = self.eval_logp_x0_val_grad(straj.traj[0].pa.part,
                                                       straj.t[0])
-            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.ravel(tmp2))
             val = -1.0 * (logp_y + logp_x0 + logp_xnext)
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
 
-        res = scipy.optimize.minimize(fun=fval_grad, x0=self.params, method='l-bfgs-b', jac=True,
+        res = scipy.optimize.minimize(fun=fval_grad, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=True,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
 
-- 
2.43.0


From 610246e831cdc2d316ace6cabb95b22dfa084d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 18/49] fix: GradientTest reports one initial state gradient
 per parameter

---
 pyparticleest/paramest/gradienttest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index ba96f4d..dc58479 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -62,7 +62,7 @@ class GradientTest(ParamEstimation):
                                                                                      self.straj.t)
                 (tmp1, tmp2) = self.model.eval_logp_x0_val_grad(self.straj.traj[0].pa.part,
                                                                 self.straj.t[0])
-                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.ravel(tmp2))
 
                 grad_logpy[k] = grad_logp_y
                 grad_logpxn[k] = grad_logp_xnext
-- 
2.43.0


From f9230391bbce315f7c5a096b002b16f75d9004c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 19/49] fix: LTV *_val_grad always return the summed density

---
 pyparticleest/models/ltv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 665c586..437a15d 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -410,7 +410,7 @@ class LTV(FFBSi, ParticleFiltering):
         (A_grad, f_grad, Q_grad) = self.get_pred_dynamics_grad(u=u, t=t)
         lpxn_grad = numpy.zeros(lparam)
         if (A_grad is None and f_grad is None and Q_grad is None):
-            lpxn = self.eval_logp_xnext(particles, x_next, u, t)
+            lpxn = numpy.sum(self.eval_logp_xnext(particles, x_next, u, t))
         else:
             self.kf.set_dynamics(A=A, Q=Q, f_k=f)
             lpxn = 0.0
@@ -479,7 +479,7 @@ class LTV(FFBSi, ParticleFiltering):
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(y=y, t=t)
         logpy_grad = numpy.zeros(lparam)
         if (C_grad is None and h_grad is None and R_grad is None):
-            logpy = self.eval_logp_y(particles, y, t)
+            logpy = numpy.sum(self.eval_logp_y(particles, y, t))
         else:
 
             self.kf.set_dynamics(C=C, R=R, h_k=h)
-- 
2.43.0


From f6f8e1594622b93e9a90bde3cb955baf5d56cbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 20/49] fix: LTV initial state density and gradient are
 averaged over the trajectories

---
 pyparticleest/models/ltv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 437a15d..e694b1e 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -342,7 +342,7 @@ class LTV(FFBSi, ParticleFiltering):
         (zl, Pl) = self.get_states(particles)
         (z0_grad, P0_grad) = self.get_initial_grad()
         if (z0_grad is None and P0_grad is None):
-            lpz0 = self.eval_logp_x0(particles, t)
+            lpz0 = numpy.sum(self.eval_logp_x0(particles, t))
         else:
             lpz0 = 0.0
             P0cho = scipy.linalg.cho_factor(self.P0)
@@ -353,7 +353,7 @@ class LTV(FFBSi, ParticleFiltering):
                 lpz0 += -0.5 * (ld + numpy.trace(tmp))
                 for j in range(len(self.params)):
                     lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[j], l1, l1_grad[j])
-        return (lpz0, lpz0_grad)
+        return (lpz0 / N, lpz0_grad / N)
 
 
 
-- 
2.43.0


From f64b48ad679403b804ca4498e931916100b186ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 21/49] fix: particle filters skip the measurement update for
 missing measurements

---
 pyparticleest/filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 6a9fad4..367c97b 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -87,7 +87,7 @@ class ParticleFilter(object):
                          uvec=uvec, yvec=yvec,
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
-        if (yvec is not None):
+        if (yvec is not None and yvec[cur_ind + 1] is not None):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
@@ -676,6 +676,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
         pa = ParticleApproximation(traj[-1].pa.part, traj[-1].pa.w)
 
         resampled = False
+        l1w = None
 
         if (yvec is not None and yvec[cur_ind + 1] is not None):
             # TODO Generalize to non-Markovian
@@ -688,7 +689,8 @@ class AuxiliaryParticleFilter(ParticleFilter):
         if (self.res and pa.calc_Neff() < self.res * pa.num):
             ancestors = pa.resample(self.model, pa.num)
             resampled = True
-            l1w = l1w[ancestors]
+            if (l1w is not None):
+                l1w = l1w[ancestors]
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
@@ -697,7 +699,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
 
-        if (yvec is not None):
+        if (yvec is not None and yvec[cur_ind + 1] is not None):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
-- 
2.43.0


From 33da3024c51478ddee326ac2c69d6b0940026787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 22/49] fix: find_best_particles returns the largest weights,
 not the smallest

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 367c97b..b1a765f 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1141,5 +1141,5 @@ class ParticleApproximation(object):
 
         Returns:
          - (array-like) with len=n, representing the n most likely estimates """
-        indices = numpy.argsort(self.w)
+        indices = numpy.argsort(-self.w)
         return indices[range(n)]
-- 
2.43.0


From 0b617684b714cacaaee69b15e7c1d5f7a9c81888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 23/49] fix: FFPropY proposes from the measurement of the
 current time step

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index b1a765f..031a258 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -455,7 +455,7 @@ class FFPropY(object):
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
-        partn = self.model.propose_from_y(len(pa.part), y=yvec[-1], t=tvec[-1])
+        partn = self.model.propose_from_y(len(pa.part), y=yvec[cur_ind + 1], t=tvec[cur_ind + 1])
         find = numpy.arange(self.N, dtype=int)
 
         wn = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[ancestors],
-- 
2.43.0


From cacb77a60d137031527cb932ed69c7374039165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 24/49] fix: SIR measures the initial state through the SIR
 interface

---
 pyparticleest/filter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 031a258..74c83af 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -306,10 +306,8 @@ class SIR(object):
             pa_out = copy.deepcopy(pa)
             pa = pa_out
 
-        new_weights = self.model.measure_full(traj=traj, ancestors=ancestors,
-                                              particles=pa.part, uvec=uvec,
-                                              yvec=yvec[:cur_ind + 1],
-                                              tvec=tvec[:cur_ind + 1])
+        new_weights = self.model.measure(particles=pa.part, y=yvec[cur_ind],
+                                         t=tvec[cur_ind])
 
         # Try to keep weights from going to -Inf
         m = numpy.max(new_weights)
-- 
2.43.0


From e1382695d1e2a85dbb80e89f211aef384c4e7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 25/49] fix: CSIRAS retains the initial state of the
 conditional trajectory and rescales its weights

---
 pyparticleest/filter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 74c83af..367666e 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -329,6 +329,11 @@ class CSIRAS(SIR):
         self.ctraj = cond_traj
         self.model = model
 
+    def create_initial_estimate(self, N):
+        part = self.model.create_initial_estimate(N)
+        part[-1] = self.ctraj[0].pa.part[0]
+        return part
+
     def forward(self, traj, yvec, uvec, tvec, cur_ind):
         """
         Forward the estimate stored in pa from t to t+1 using the motion model
@@ -386,6 +391,7 @@ class CSIRAS(SIR):
 
 
         pa.w = yw + nw - qw
+        pa.w -= numpy.max(pa.w)
 
         pa.part[:] = pnext
         resampled = True
-- 
2.43.0


From 3fe225029ee0494c47d0f7c0482ea8cf1e370f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 26/49] fix: KalmanFilter.time_update predicts the stored
 estimate

---
 pyparticleest/utils/ckalman.pyx | 2 +-
 pyparticleest/utils/kalman.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/utils/ckalman.pyx b/pyparticleest/utils/ckalman.pyx
index d29558e..232ea83 100644
--- a/pyparticleest/utils/ckalman.pyx
+++ b/pyparticleest/utils/ckalman.pyx
@@ -99,7 +99,7 @@ class KalmanFilter(object):
         """
         
         # Calculate next state
-        (self.z, self.P) = self.predict_full(A=self.A, f_k=self.f_k, Q=self.Q)  
+        (self.z, self.P) = self.predict_full(self.z, self.P, A=self.A, f_k=self.f_k, Q=self.Q)  
         
     def predict(self, z, P):
         """ 
diff --git a/pyparticleest/utils/kalman.py b/pyparticleest/utils/kalman.py
index 129eb63..c081095 100644
--- a/pyparticleest/utils/kalman.py
+++ b/pyparticleest/utils/kalman.py
@@ -99,7 +99,7 @@ class KalmanFilter(object):
         """
 
         # Calculate next state
-        (self.z, self.P) = self.predict_full(A=self.A, f_k=self.f_k, Q=self.Q)
+        (self.z, self.P) = self.predict_full(self.z, self.P, A=self.A, f_k=self.f_k, Q=self.Q)
 
     def predict(self, z, P):
         """
-- 
2.43.0


From 0eb98244af102fab091ac5501acbae374694455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 27/49] fix: measurement_diff accepts integer measurements

---
 pyparticleest/utils/ckalman.pyx | 2 +-
 pyparticleest/utils/kalman.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/utils/ckalman.pyx b/pyparticleest/utils/ckalman.pyx
index 232ea83..7b34e6c 100644
--- a/pyparticleest/utils/ckalman.pyx
+++ b/pyparticleest/utils/ckalman.pyx
@@ -129,7 +129,7 @@ class KalmanFilter(object):
         """
         Calculate different between measurement and predicted measurement
         """
-        yhat = np.zeros_like(y)
+        yhat = np.zeros(np.shape(y))
         if (C is not None):
             yhat += C.dot(z)
         if (h_k is not None):
diff --git a/pyparticleest/utils/kalman.py b/pyparticleest/utils/kalman.py
index c081095..7e613f2 100644
--- a/pyparticleest/utils/kalman.py
+++ b/pyparticleest/utils/kalman.py
@@ -129,7 +129,7 @@ class KalmanFilter(object):
         """
         Calculate different between measurement and predicted measurement
         """
-        yhat = np.zeros_like(y)
+        yhat = np.zeros(np.shape(y))
         if (C is not None):
             yhat += C.dot(z)
         if (h_k is not None):
-- 
2.43.0


From 4336f619fa7858ff6fd87364cddf9b9244a56084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 28/49] fix: Instrumenter prints its counters

---
 pyparticleest/utils/intrument.py | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 6afe3f3..a3c27ee 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -42,15 +42,15 @@ class Instrumenter(object):
 
     Results can be access through the member variables:
 
-        - self.cnt_sample
-        - self.cnt_update
-        - self.cnt_measure
-        - self.cnt_pdfxn
-        - self.cnt_pdfxn_full
-        - self.cnt_pdfxnmax
-        - self.cnt_propsmooth
-        - self.cnt_pdfsmooth
-        - self.cnt_eval1st
+        - self.oc.cnt_sample
+        - self.oc.cnt_update
+        - self.oc.cnt_measure
+        - self.oc.cnt_pdfxn
+        - self.oc.cnt_pdfxn_full
+        - self.oc.cnt_pdfxnmax
+        - self.oc.cnt_propsmooth
+        - self.oc.cnt_pdfsmooth
+        - self.oc.cnt_eval1st
 
     Args:
      - model: Object of encapsulated model class
@@ -63,20 +63,20 @@ class Instrumenter(object):
 
     def print_statistics(self):
         print("Modelclass : %s" % type(self.model))
-        print("cnt_sample: %d" % self.cnt_sample)
-        print("cnt_update: %d" % self.cnt_update)
-        print("cnt_measure: %d" % self.cnt_measure)
-        print("cnt_pdfxn: %d" % self.cnt_pdfxn + self.cnt_pdfxn_full)
-        print("cnt_pdfxnmax: %d" % self.cnt_pdfxnmax)
-        print("cnt_propsmooth: %d" % self.cnt_propsmooth)
-        print("cnt_pdfsmooth: %d" % self.cnt_pdfsmooth)
+        print("cnt_sample: %d" % self.oc.cnt_sample)
+        print("cnt_update: %d" % self.oc.cnt_update)
+        print("cnt_measure: %d" % self.oc.cnt_measure)
+        print("cnt_pdfxn: %d" % (self.oc.cnt_pdfxn + self.oc.cnt_pdfxn_full))
+        print("cnt_pdfxnmax: %d" % self.oc.cnt_pdfxnmax)
+        print("cnt_propsmooth: %d" % self.oc.cnt_propsmooth)
+        print("cnt_pdfsmooth: %d" % self.oc.cnt_pdfsmooth)
 
 
     def print_total_ops(self):
-        print("total ops: %d" % (self.cnt_sample + self.cnt_update +
-                                 self.cnt_measure + self.cnt_pdfxn +
-                                 self.cnt_pdfxnmax + self.cnt_propsmooth +
-                                 self.cnt_pdfsmooth))
+        print("total ops: %d" % (self.oc.cnt_sample + self.oc.cnt_update +
+                                 self.oc.cnt_measure + self.oc.cnt_pdfxn +
+                                 self.oc.cnt_pdfxnmax + self.oc.cnt_propsmooth +
+                                 self.oc.cnt_pdfsmooth))
 
     def create_initial_estimate(self, N):
         """ Sample N particle from initial distribution """
-- 
2.43.0


From 14244e97edfdc47e129f00b33f56271ccd519ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 29/49] fix: SAEM stores the smoothed trajectories as a (T, N,
 D) array

---
 pyparticleest/paramest/paramest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 64bcae7..c212f3c 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -155,7 +155,7 @@ class ParamEstimationSAEM(Simulator):
                           meas_first=meas_first)
 
             w = numpy.ones((numt,)) / numt
-            newtrajs = numpy.copy(self.straj.traj)
+            newtrajs = self.get_smoothed_estimates()
             alpha = alpha_gen(i)
             if (weights is None):
                 weights = w
-- 
2.43.0


From b389f6233d1cff88fc9fabfe565679ef322251c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 30/49] fix: PSAEM with raoblackwell=True uses the trajectories
 instead of uninitialised memory

---
 pyparticleest/paramest/paramest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index c212f3c..10c5790 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -245,6 +245,8 @@ class ParamEstimationPSAEM(Simulator):
                 T = len(tmp)
                 D = tmp[0].pa.part.shape[1]
                 newtrajs = numpy.empty((T, N, D))
+                for t in range(T):
+                    newtrajs[t] = tmp[t].pa.part
 
             else:
                 newtrajs = self.get_smoothed_estimates()
-- 
2.43.0


From a4027b533f9381f5642d6104687a7c21756bb419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 31/49] fix: PSAEM stops after max_iter iterations also with a
 user supplied callback

---
 pyparticleest/paramest/paramest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 10c5790..4c6f498 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -288,6 +288,8 @@ class ParamEstimationPSAEM(Simulator):
                 rval = callback(params=params_local, Q=-numpy.Inf, cur_iter=i)
                 if (rval):
                     break
+            if (i >= max_iter):
+                break
         return (params_local, -numpy.Inf)
 
 class ParamEstimationPSAEM2(Simulator):
-- 
2.43.0


From 04e906a0dfb578ff9d5722a7c2bc7ccc36eaf1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 32/49] fix: marginalized MLNLG smoother with several nonlinear
 states

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 98f72f6..5ee27e2 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1191,7 +1191,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         LHlen = lz
 
-        xinl = next_part[:, :lxi]
+        xinl = next_part[:, :lxi].reshape((M, lxi, 1))
         OHnl = next_part[:, OHind:OHind + OHlen].reshape((M, lz, lz))
         LHnl = next_part[:, LHind:LHind + LHlen].reshape((M, lz, 1))
 
-- 
2.43.0


From 6e65ba2fcffd92f38f164cd3b2023a4506614610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 33/49] fix: marginalized MLNLG smoother accounts for
 correlated process noise

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 5ee27e2..2fd7d66 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1199,8 +1199,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         Omega = numpy.zeros_like(OHnl)
         Lambda = numpy.zeros_like(LHnl)
 
-        (Az, fz, Qz, _, _, _) = self.get_lin_pred_dynamics_int(particles=particles,
-                                                               u=u, t=t)
+        (Az, fz, Qz) = self.calc_cond_dynamics(particles, xinl, u=u, t=t)
         (Axi, fxi, Qxi, _, _, _) = self.get_nonlin_pred_dynamics_int(particles=particles,
                                                                      u=u, t=t)
 
-- 
2.43.0


From 3047bd4a3eadad631fc3bd3281a3c030532385a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 34/49] fix: marginalized MLNLG smoother only uses the
 measurements that exist

---
 pyparticleest/models/mlnlg.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 2fd7d66..9427209 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1327,7 +1327,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         res = numpy.zeros((M, lxi + OHlen + LHlen))
 
-        (_, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
+        (y, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
 
         res[:, :lxi] = part[:, :lxi]
 
@@ -1337,11 +1337,10 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
                 res[j, LHind:] = Lambda[j].ravel()
 
         for j in range(M):
-            if (Cz is not None and Cz[j] is not None):
+            if (Cz is not None and Cz[j] is not None and yt[cur_ind] is not None):
                 tmp = numpy.linalg.solve(Rz[j], Cz[j])
                 res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
-            if (yt is not None and yt[cur_ind] is not None):
-                res[j, LHind:] += (tmp.T.dot(numpy.asarray(yt[cur_ind]).reshape((-1, 1)) -
+                res[j, LHind:] += (tmp.T.dot(numpy.asarray(y).reshape((-1, 1)) -
                                              hz[j])).ravel()
 
         return res
-- 
2.43.0


From 0d6b2a4b1b7cdf8fa8d01c165f05f2efe8b4b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 35/49] fix: MHIPS for hierarchical models does not use the
 initial measurement twice

---
 pyparticleest/models/rbpf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyparticleest/models/rbpf.py b/pyparticleest/models/rbpf.py
index 81c6612..7569aa7 100644
--- a/pyparticleest/models/rbpf.py
+++ b/pyparticleest/models/rbpf.py
@@ -327,6 +327,13 @@ class RBPSBase(RBPFBase, interfaces.FFBSiRS):
         """
         pass
 
+    def cond_sampled_initial(self, part, t):
+        xi = part[:, :self.lxi]
+        (z, P) = self.get_rb_initial(xi[:, :, numpy.newaxis])
+        particles = numpy.zeros_like(part)
+        self.set_states(particles, xi, z, P)
+        return particles
+
     def post_smoothing(self, st):
         """
         Kalman smoothing of the linear states conditioned on the non-linear
-- 
2.43.0


From ac7ac29649211b2053a286dfabb1a1ada8cb467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 36/49] fix: reduced MHIPS when the last measurement is missing

---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 164a8e9..799e9ed 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -773,7 +773,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
              (logp_next_prop - logp_next_curr) +
              (logp_q_curr - logp_q_prop))
 
-    test = numpy.log(numpy.random.uniform(size=len(ratio)))
+    test = numpy.log(numpy.random.uniform(size=len(part)))
     acc = test < ratio
     curparty[acc] = xpropy[acc]
     return (curparty, acc)
-- 
2.43.0


From b59bea6cc01b0706d47334b14f70882eb609674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 37/49] fix: MLNLG models with several nonlinear states

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 9427209..f3d837d 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -180,7 +180,7 @@ class MixedNLGaussianSampled(RBPSBase):
         # This is probably not so nice performance-wise, but will
         # work initially to profile where the bottlenecks are.
         for i in range(N):
-            xi_next[i] = Axi[i].dot(zl[i]) + fxi[i]
+            xi_next[i] = (Axi[i].dot(zl[i]) + fxi[i]).ravel()
         return xi_next
 
     def meas_xi_next(self, particles, xi_next, u, t):
@@ -264,7 +264,7 @@ class MixedNLGaussianSampled(RBPSBase):
             # TODO linalg.solve instead?
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
-            fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
+            fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((-1, 1)) - fxi[i]))
             Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
-- 
2.43.0


From 59a94d9374c5341a166ea81c3ed4078f65d8c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 38/49] fix: sign of the quadratic term in the marginalized
 future density

calc_prop1 added |F'm|^2_{inv(M)} to the exponent, completing the square
subtracts it (as calc_prop3 does); the weights of the particles depended
on it as soon as the dynamics depend on the nonlinear state.
---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index f3d837d..90fedff 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1213,7 +1213,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
             tmp = F.T.dot(m)
-            Tau_t += tmp.T.dot(numpy.linalg.solve(Mt, tmp))
+            Tau_t -= tmp.T.dot(numpy.linalg.solve(Mt, tmp))
 
             tmp = F.dot(numpy.linalg.solve(Mt, F.T))
 
-- 
2.43.0


From 71d1cbb2fd6d75bcfd96e3c34d7206f02fc884ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 39/49] fix: analytic A gradient with particle dependent A
 matrices

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 90fedff..af4bca2 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -812,7 +812,7 @@ class MixedNLGaussianSampled(RBPSBase):
                               perr, f_grad, tmp1)
         if (A_grad is not None):
             mlnlg_compute.compute_l2_grad_A(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
-                              perr, self.lxi, Pn, zl, Pl, M, A, A_grad, tmp1, tmp2)
+                              perr, self.lxi, Pn, zl, Pl, M, numpy.asarray(A), A_grad, tmp1, tmp2)
         return (l2, diff_l2)
 
     def eval_logp_xnext(self, particles, x_next, u, t):
-- 
2.43.0


From 6dcd629596aed4d7f91fb8a7e9d53a2b77f2bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 40/49] fix: LTV initial state gradient when only the mean
 depends on the parameters

---
 pyparticleest/models/ltv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index e694b1e..afe2557 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -345,6 +345,8 @@ class LTV(FFBSi, ParticleFiltering):
             lpz0 = numpy.sum(self.eval_logp_x0(particles, t))
         else:
             lpz0 = 0.0
+            if (P0_grad is None):
+                P0_grad = numpy.zeros((lparam, self.kf.lz, self.kf.lz))
             P0cho = scipy.linalg.cho_factor(self.P0)
             ld = numpy.sum(numpy.log(numpy.diagonal(P0cho[0]))) * 2
             for i in range(N):
-- 
2.43.0


From 62ea3e5a4aa76096c43ddf99c6a727d3306fc89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 41/49] fix: pass constructor arguments of NonlinearGaussian on
 to the other base classes (parameter bounds)

---
 pyparticleest/models/nlg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 4b67a1d..55efb1f 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -97,7 +97,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         """
         return None
 
-    def __init__(self, lxi, f=None, g=None, Q=None, R=None):
+    def __init__(self, lxi, f=None, g=None, Q=None, R=None, **kwargs):
         if (f is not None):
             self.f = numpy.copy(f)
         else:
@@ -116,6 +116,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
             self.Rcholtri = numpy.triu(self.Rchol[0])
 
         self.lxi = lxi
+        super(NonlinearGaussian, self).__init__(**kwargs)
 
     def set_Q(self, Q):
         self.Qchol = scipy.linalg.cho_factor(Q)
-- 
2.43.0


From 0e606ce685fbbd09986d3799175e4b4cc79caf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 42/49] fix: Instrumenter works for models without
 post_smoothing

---
 pyparticleest/utils/intrument.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index a3c27ee..dbc415d 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -148,10 +148,16 @@ class Instrumenter(object):
         return self.model.eval_1st_stage_weights(particles, u, y, t)
 
     def pre_mhips_pass(self, st):
-        return self.model.pre_mhips_pass(st)
+        # Optional part of the model interface
+        if hasattr(self.model, 'pre_mhips_pass'):
+            return self.model.pre_mhips_pass(st)
+        return st.traj
 
     def post_smoothing(self, st):
-        return self.model.post_smoothing(st)
+        # Optional part of the model interface
+        if hasattr(self.model, 'post_smoothing'):
+            return self.model.post_smoothing(st)
+        return st.traj
 
     def eval_logp_x0(self, particles, t):
         self.oc.cnt_eval_logp_x0 += len(particles)
-- 
2.43.0


From c037954bf114a035648a8490247d0e05fd9ca1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 43/49] fix: mixed models with a certain initial state
 (Pxi0/Pz0 zero) have an initial density

The constructor documents None (no uncertainty) for Pxi0 and Pz0, but
MHIPS, MHBP and parameter estimation then failed on the Cholesky factor
of a zero matrix. Handled as NonlinearGaussianInitialGaussian does.
---
 pyparticleest/models/mlnlg.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index af4bca2..c334c18 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -738,6 +738,10 @@ class MixedNLGaussianSampled(RBPSBase):
         for i in range(N):
             z0_diff = zl[i] - z0[i]
             l1 = z0_diff.dot(z0_diff.T) + Pl[i]
+            # Assumes P0 is either full rank or zero
+            if (not numpy.any(P0[i])):
+                lpz0[i] = -numpy.inf if numpy.any(l1) else 0.0
+                continue
             P0cho = scipy.linalg.cho_factor(P0[i], check_finite=False)
 
             ld = numpy.sum(numpy.log(numpy.diagonal(P0cho[0]))) * 2
@@ -767,6 +771,10 @@ class MixedNLGaussianSampled(RBPSBase):
         for i in range(N):
             z0_diff = zl[i] - z0[i]
             l1 = z0_diff.dot(z0_diff.T) + Pl[i]
+            # Assumes P0 is either full rank or zero
+            if (not numpy.any(P0[i])):
+                lpz0 += -numpy.inf if numpy.any(l1) else 0.0
+                continue
             P0cho = scipy.linalg.cho_factor(P0[i], check_finite=False)
 
             ld = numpy.sum(numpy.log(numpy.diagonal(P0cho[0]))) * 2
@@ -1126,6 +1134,11 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
         """
         N = len(xil)
         res = numpy.empty((N,))
+        # Assumes Pxi0 is either full rank or zero
+        if (not numpy.any(self.Pxi0)):
+            for i in range(N):
+                res[i] = 0.0 if numpy.array_equal(xil[i], self.xi0) else -numpy.inf
+            return res
         Pchol = scipy.linalg.cho_factor(self.Pxi0, check_finite=False)
         for i in range(N):
             res[i] = kalman.lognormpdf_cho(xil[i] - self.xi0, Pchol)
@@ -1153,6 +1166,9 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
         N = len(xil)
         (xi0_grad, Pxi0_grad) = self.get_xi_intitial_grad(N)
         lpxi0_grad = numpy.zeros(self.params.shape)
+        if (not numpy.any(self.Pxi0)):
+            # No uncertainty in initial state
+            return lpxi0_grad
         Pxi0cho = scipy.linalg.cho_factor(self.Pxi0, check_finite=False)
         for i in range(N):
             tmp = xil[i] - self.xi0
-- 
2.43.0


From 2cc4f80a6f3499fa400c97606a81e6fb4d2e53c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:12 +0000
Subject: [PATCH 44/49] fix: linear models with a certain initial state (P0
 zero) can be used for parameter estimation

The initial term of the criterion solved with a singular P0.
---
 pyparticleest/models/ltv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index afe2557..9012e72 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -321,6 +321,10 @@ class LTV(FFBSi, ParticleFiltering):
         lpz0 = numpy.empty(N)
         for i in range(N):
             l1 = self.calc_l1(zl[i], Pl[i], self.z0, self.P0)
+            # Assumes P0 is either full rank or zero
+            if (not numpy.any(self.P0)):
+                lpz0[i] = -numpy.inf if numpy.any(l1) else 0.0
+                continue
             (_tmp, ld) = numpy.linalg.slogdet(self.P0)
             tmp = numpy.linalg.solve(self.P0, l1)
             lpz0[i] = -0.5 * (ld + numpy.trace(tmp))
@@ -341,7 +345,8 @@ class LTV(FFBSi, ParticleFiltering):
         lpz0_grad = numpy.zeros(lparam)
         (zl, Pl) = self.get_states(particles)
         (z0_grad, P0_grad) = self.get_initial_grad()
-        if (z0_grad is None and P0_grad is None):
+        # No density to differentiate if there is no initial uncertainty
+        if ((z0_grad is None and P0_grad is None) or not numpy.any(self.P0)):
             lpz0 = numpy.sum(self.eval_logp_x0(particles, t))
         else:
             lpz0 = 0.0
-- 
2.43.0


From 9530f6008f4eef0e51d395ba83fdb568aaf38f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 45/49] fix: smoothing a trajectory with pre-allocated space
 uses the last measurement

---
 pyparticleest/smoother.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 799e9ed..5720cb9 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -209,9 +209,9 @@ class SmoothTrajectory(object):
 
         self.traj = None
 
-        self.u = numpy.copy(pt.uvec)
-        self.y = numpy.copy(pt.yvec)
-        self.t = numpy.copy(pt.tvec)
+        self.u = numpy.copy(pt.uvec[:len(pt)])
+        self.y = numpy.copy(pt.yvec[:len(pt)])
+        self.t = numpy.copy(pt.tvec[:len(pt)])
         self.M = M
 
         self.model = pt.pf.model
-- 
2.43.0


From c24dd3d2dba4393200ad3470d93b39bc7d035114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 46/49] fix: PSAEM estimation leaves the caller's filter
 options as they are

---
 pyparticleest/paramest/paramest.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 4c6f498..90948e3 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -218,6 +218,9 @@ class ParamEstimationPSAEM(Simulator):
         """
 
         params_local = numpy.copy(param0)
+        # The conditional trajectory is replaced in each iteration, the
+        # dictionary of the caller is left as it is
+        filter_options = dict(filter_options)
         alltrajs = None
         weights = None
 
@@ -331,6 +334,9 @@ class ParamEstimationPSAEM2(Simulator):
         """
 
         params_local = numpy.copy(param0)
+        # The conditional trajectory is replaced in each iteration, the
+        # dictionary of the caller is left as it is
+        filter_options = dict(filter_options)
         alltrajs = None
         weights = numpy.empty((max_iter * num_part,))
 
-- 
2.43.0


From c67c236e48a9241e9478a97de743cfb1c3ffd62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 47/49] fix: full trajectory gradient criteria use the data
 handed to them

---
 pyparticleest/paramest/interfaces.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 06e75c3..f452dbc 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -143,10 +143,10 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         M = sest.shape[1]
         T = len(straj)
         for t in range(T):
-            if (straj.y[t] is not None):
+            if (yt[t] is not None):
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
-                                                        straj.y[t],
-                                                        straj.t[t])
+                                                        yt[t],
+                                                        tt[t])
                 logp_y += val
                 logp_y_grad += numpy.ravel(grad)
         return (logp_y / M, logp_y_grad / M)
@@ -160,8 +160,8 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         for t in range(T - 1):
             (val, grad) = self.eval_logp_xnext_val_grad(sest[t],
                                                         sest[t + 1],
-                                                        straj.u[t],
-                                                        straj.t[t])
+                                                        ut[t],
+                                                        tt[t])
             logp_xnext += val
             logp_xnext_grad += numpy.ravel(grad)
 
-- 
2.43.0


From 9deb8fe641639743c2c7a5d42970aaef6945ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:59 +0000
Subject: [PATCH 48/49] fix: finished trajectories are post-processed once by
 every smoother

The ancestor smoother and MHBP called the model's post_smoothing twice.
---
 pyparticleest/smoother.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 5720cb9..e9f5b95 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -263,10 +263,6 @@ class SmoothTrajectory(object):
         """
         self.traj = self.perform_ancestors_int(pt, M)
 
-        if hasattr(self.model, 'post_smoothing'):
-            # Do e.g. constrained smoothing for RBPS models
-            self.traj = self.model.post_smoothing(self)
-
     def calculate_ancestors(self, pt, ind):
         T = len(pt)
         M = len(ind)
@@ -503,10 +499,6 @@ class SmoothTrajectory(object):
 
         self.traj = straj
 
-        if hasattr(self.model, 'post_smoothing'):
-            # Do e.g. constrained smoothing for RBPS models
-            self.traj = self.model.post_smoothing(self)
-
 
     def perform_mhips_pass(self, options, reduced=False):
         """
-- 
2.43.0


From ba3553e0ba78b27f0dddb85b88dc75f6dfca1665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:17 +0000
Subject: [PATCH 49/49] fix: measurement gradients hand the original
 measurement on to eval_logp_y

---
 pyparticleest/models/ltv.py   | 3 ++-
 pyparticleest/models/mlnlg.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 9012e72..7500696 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -482,11 +482,12 @@ class LTV(FFBSi, ParticleFiltering):
         """
         N = len(particles)
         lparam = len(self.params)
+        y_orig = y
         (y, C, h, R) = self.get_meas_dynamics(y=y, t=t)
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(y=y, t=t)
         logpy_grad = numpy.zeros(lparam)
         if (C_grad is None and h_grad is None and R_grad is None):
-            logpy = numpy.sum(self.eval_logp_y(particles, y, t))
+            logpy = numpy.sum(self.eval_logp_y(particles, y_orig, t))
         else:
 
             self.kf.set_dynamics(C=C, R=R, h_k=h)
diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index c334c18..8a63a2b 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1006,10 +1006,11 @@ class MixedNLGaussianSampled(RBPSBase):
         N = len(particles)
         logpy = 0.0
         lpy_grad = numpy.zeros(self.params.shape)
+        y_orig = y
         (y, Cz, hz, Rz, _, _, Rz_identical) = self.get_meas_dynamics_int(particles, y, t)
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(particles=particles, y=y, t=t)
         if (C_grad is None and h_grad is None and R_grad is None):
-            logpy = self.eval_logp_y(particles, y, t)
+            logpy = self.eval_logp_y(particles, y_orig, t)
         else:
             if (R_grad is None):
                 R_grad = N * (numpy.zeros((len(self.params), len(y), len(y))),)
-- 
2.43.0

