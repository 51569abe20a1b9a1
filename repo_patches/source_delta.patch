From f6b56b2376109f7389f94bee7adffed7da27e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 01/23] fix: fourth derivative of potentials with a feature

---
 primpy/potentials.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 5d8c4a7..6600cbf 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1298,6 +1298,11 @@ class FeatureFunction(ABC):
     def d3F(x, x0, a, b):
         """Feature function 3rd derivative."""
 
+    @staticmethod
+    @abstractmethod
+    def d4F(x, x0, a, b):
+        """Feature function 4th derivative."""
+
 
 class GaussianDip(FeatureFunction):
     """Gaussian: `F(x) = -a * exp(-(x-x0)**2 / (2*b**2))`."""
@@ -1322,6 +1327,12 @@ class GaussianDip(FeatureFunction):
         """`F'''(x) = a/b**6 * (x-x0) * ((x-x0)**2 - 3*b**2) * exp(-(x-x0)**2 / (2*b**2))`."""
         return a / b**6 * (x - x0) * ((x - x0)**2 - 3 * b**2) * np.exp(-(x - x0)**2 / (2 * b**2))
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = -a/b**8 * (y**4-6*b**2*y**2+3*b**4) * exp(-y**2/(2*b**2))`, `y=x-x0`."""
+        y = x - x0
+        return -a / b**8 * (y**4 - 6 * b**2 * y**2 + 3 * b**4) * np.exp(-y**2 / (2 * b**2))
+
 
 class TanhStep(FeatureFunction):
     """Tanh step function: `F(x) = a * tanh((x - x0) / b)`."""
@@ -1349,6 +1360,12 @@ class TanhStep(FeatureFunction):
         tanh = np.tanh((x - x0) / b)
         return -2 * a / b**3 * (1 - 4 * tanh**2 + 3 * tanh**4)
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = 8*a/b**4 * t * (2 - 5 * t**2 + 3 * t**4)` with `t = tanh((x-x0)/b)`."""
+        tanh = np.tanh((x - x0) / b)
+        return 8 * a / b**4 * tanh * (2 - 5 * tanh**2 + 3 * tanh**4)
+
 
 class FeaturePotential(InflationaryPotential, FeatureFunction):
     """Inflationary potential with a feature: `V(phi) = V0(phi) * (1+F(phi))`."""
@@ -1411,6 +1428,28 @@ class FeaturePotential(InflationaryPotential, FeatureFunction):
         d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
         return d3V0 * (1 + F) + 3 * d2V0 * dF + 3 * dV0 * d2F + V0 * d3F
 
+    def d4V(self, phi):
+        r"""Fourth derivative of the inflationary potential with a feature.
+
+        .. math::
+            V''''(\phi) = V_0''''(\phi) * (1 + F(\phi))
+                         + 4 * V_0'''(\phi) * F'(\phi)
+                         + 6 * V_0''(\phi) * F''(\phi)
+                         + 4 * V_0'(\phi) * F'''(\phi)
+                         + V_0(\phi) * F''''(\phi)
+        """
+        V0 = super().V(phi)
+        dV0 = super().dV(phi)
+        d2V0 = super().d2V(phi)
+        d3V0 = super().d3V(phi)
+        d4V0 = super().d4V(phi)
+        F = super().F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        dF = super().dF(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d2F = super().d2F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d4F = super().d4F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        return d4V0 * (1 + F) + 4 * d3V0 * dF + 6 * d2V0 * d2F + 4 * dV0 * d3F + V0 * d4F
+
 
 class StarobinskyGaussianDipPotential(FeaturePotential, StarobinskyPotential, GaussianDip):
     """Starobinsky potential with a Gaussian dip."""
-- 
2.43.0


From 53f51f03e1bde2a99982e106b5aa8d0c0e3466c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 02/23] fix: brackets for end of inflation and e-folds of
 RadionGaugePotential

---
 primpy/potentials.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 6600cbf..82362a4 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1146,7 +1146,8 @@ class RadionGaugePotential(InflationaryPotential):
     def phi_end(self):  # noqa: D102
         def inflation_end(phi):
             return self.get_epsilon_1V(phi=phi) - 1
-        out = root_scalar(inflation_end, bracket=(1e-30, self.inv_V(V=self.Lambda**4 * (1-EPS))))
+        # epsilon_1V(phi) < p**2 / (2*phi**2), hence phi_end < p / sqrt(2) < p
+        out = root_scalar(inflation_end, bracket=(1e-30, self.p))
         return out.root
 
     def sr_phi2N(self, phi):  # noqa: D102
@@ -1159,7 +1160,9 @@ class RadionGaugePotential(InflationaryPotential):
     def sr_N2phi(self, N):  # noqa: D102
         def root_N(phi_in):
             return self.sr_phi2N(phi=phi_in) - N
-        out = root_scalar(root_N, bracket=(self.phi_end, self.inv_V(V=self.Lambda**4*(1-1e-15))))
+        # N > (phi**2 - phi_end**2) / (2*p), hence phi < sqrt(phi_end**2 + 2*p*N)
+        phi_max = np.sqrt(self.phi_end**2 + 2 * self.p * N) + 1
+        out = root_scalar(root_N, bracket=(self.phi_end, phi_max))
         phi = out.root
         return phi
 
-- 
2.43.0


From e767214100998a404451410e86a12874e53c6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 03/23] fix: curvature term of the third time derivative of the
 inflaton

---
 primpy/time/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/time/inflation.py b/primpy/time/inflation.py
index 5b6d8a9..1df001b 100644
--- a/primpy/time/inflation.py
+++ b/primpy/time/inflation.py
@@ -77,7 +77,7 @@ class InflationEquationsT(InflationEquations):
     @staticmethod
     def get_d3phi(H, dH, d2H, dphi, d2phi, dV, d2V):  # noqa: D102
         # here: d3phi/dt3
-        return -3 * H * d2phi - d2V * dphi + 3 * dphi**3 / 2
+        return -3 * H * d2phi - d2V * dphi - 3 * dH * dphi
 
     @staticmethod
     def get_d4phi(H, dH, d2H, d3H, dphi, d2phi, d3phi, dV, d2V, d3V):  # noqa: D102
-- 
2.43.0


From 5951e98ab910e5c889cff68a240ac2e808ab7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 04/23] fix: start-of-inflation warning claimed that the start
 event was not tracked

---
 primpy/exceptionhandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/exceptionhandling.py b/primpy/exceptionhandling.py
index 97615b4..7bbaf52 100644
--- a/primpy/exceptionhandling.py
+++ b/primpy/exceptionhandling.py
@@ -121,7 +121,7 @@ class InflationStartWarning(InflationWarning):
         events = kwargs.pop('events', None)
         if events is None:
             self.message = "%s. %s" % (self.header, message)
-        elif 'Inflation_dir+1_term1' not in events and 'Inflation_dir+1_term0' not in events:
+        elif 'Inflation_dir1_term1' not in events and 'Inflation_dir1_term0' not in events:
             extra_info = ("Not tracking `InflationEvent`. Events tracked are %s. In order to "
                           "determine the start of inflation `_N_beg`, make sure to track the "
                           "event `InflationEvent(equations, direction=+1)` defined in "
-- 
2.43.0


From cc6995e6acc982ecd880cb56fda8ef5deabd7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 05/23] fix: start of inflation ignored a terminal start event

---
 primpy/inflation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a206ed5..58eb3c5 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -416,13 +416,14 @@ class InflationEquations(Equations, ABC):
             sol._N_beg = sol._N[0]
             sol.H_beg = self.H(sol.x[0], sol.y[:, 0])
         # Case 2: there is a transition from non-inflating to inflating
-        elif ('Inflation_dir1_term0' in sol._N_events and
-              np.size(sol._N_events['Inflation_dir1_term0']) > 0):
-            sol._N_beg = sol._N_events['Inflation_dir1_term0'][0]
-            sol.H_beg = self.H(sol.x_events['Inflation_dir1_term0'][0],
-                               sol.y_events['Inflation_dir1_term0'][0])
         else:
-            self.vwarn(InflationStartWarning("", events=sol._N_events))
+            for key in ['Inflation_dir1_term1', 'Inflation_dir1_term0']:
+                if key in sol._N_events and np.size(sol._N_events[key]) > 0:
+                    sol._N_beg = sol._N_events[key][0]
+                    sol.H_beg = self.H(sol.x_events[key][0], sol.y_events[key][0])
+                    break
+            else:
+                self.vwarn(InflationStartWarning("", events=sol._N_events))
         sol._logaH_beg = sol._N_beg + np.log(sol.H_beg)
 
     def postprocessing_inflation_end(self, sol):
-- 
2.43.0


From e261bb15778ab016b1140811ccd49ec34b1647d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 06/23] fix: shooting initial conditions failed on an empty
 event table

---
 primpy/initialconditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 8aef2fd..5abc77f 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -212,7 +212,7 @@ class ISIC_Nt(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N_tot, phi_i))
                 return sol._N[-1] - ic.N_i
             elif (np.size(sol._N_events['Collapse']) > 0 or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 return 0 - self.N_tot
             elif 'step size' in sol.message:
@@ -293,12 +293,12 @@ class ISIC_NsOk(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N0, phi_i))
                 return sol._N[-1]
             elif (np.size(sol._N_events['Collapse']) > 0 or sol.N_tot <= self.N_star or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 if sol.N_tot <= self.N_star:
                     self.vwarn(InflationWarning("Insufficient inflation: N_tot = %g < %g = N_star"
                                                 % (sol.N_tot, self.N_star)))
-                elif sol._N_events['Inflation_dir-1_term1'] == sol._N[0]:
+                elif np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
                     self.vwarn(InflationWarning("Universe has ended early: _N[0]=%g, _N_events=%s"
                                                 % (sol._N[0], sol._N_events)))
                 return 0 - self.N_star
-- 
2.43.0


From ea358fc76a5bd6b70415f6b5966436f0038ca58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 07/23] fix: reheating duration from w_reh and rho_reh in
 curved universes

---
 primpy/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 58eb3c5..9e7e7eb 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -806,7 +806,7 @@ class InflationEquations(Equations, ABC):
                         sol.w_reh = w_reh
                         sol.rho_reh_GeV = rho_reh_GeV
                         sol.rho_reh_mp4 = rho_reh_GeV**4 / mp_GeV * lp_iGeV**3
-                        sol.DeltaN_reh = -(1+w_reh) / 3 * np.log(2/3 * sol.rho_reh_mp4 / sol.V_end)
+                        sol.DeltaN_reh = np.log(3/2*sol.V_end/sol.rho_reh_mp4) / (3*(1+w_reh))
                         sol.DeltaN_minus1 = sol.DeltaN_reh / 4 * (1 - 3 * w_reh)
                         sol.N0 += sol.DeltaN_minus1
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
-- 
2.43.0


From 72eb04c9c0be7cf10ebc4aa86a050422e4c4ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:54 +0000
Subject: [PATCH 08/23] fix: zeta(3) coefficients of the third-order slow-roll
 expansion (ARBDS)

---
 primpy/inflation.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 9e7e7eb..44c7982 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1268,7 +1268,7 @@ class InflationEquations(Equations, ABC):
             N2e3 = interp1d(_N, e3)
             e3 = N2e3(sol._N_cross)
             alpha = 2 - np.log(2) - np.euler_gamma
-            Z = zeta(3) / 3 * 7  # factor 7 matches Auclair & Ringeval (2022) and matches LLMS
+            Z = zeta(3)
 
             # Auclair & Ringeval (2022), eq. (54)
             # Ballardini, Davoli, and Sirletti (2025), eq. (45) or eq. (C.2)
@@ -1287,12 +1287,12 @@ class InflationEquations(Equations, ABC):
                 + (-12 * alpha**2 + pi**2) / 24 * e2 * e3
             )
             as0_3 = (
-                - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) / 24 * (8 * e1**3 + e2**3)
-                + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 36*Z) / 12 * e1**2 * e2
-                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+84*Z) / 24 * e1*e2**2
-                + (16 + 4*alpha**3 - alpha*pi**2 - 24*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
+                - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 14*Z) / 24 * (8 * e1**3 + e2**3)
+                + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 84*Z) / 12 * e1**2 * e2
+                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+100*Z) / 24 * e1*e2**2
+                + (16 + 4*alpha**3 - alpha*pi**2 - 8*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
                 + (48*alpha - 12*alpha**3 - 5*alpha*pi**2) / 24 * e2**2 * e3
-                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-24*Z) / 12 * e1 * e2 * e3
+                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-8*Z) / 12 * e1 * e2 * e3
             )
             as1_1 = (
                 -2 * e1 - e2
@@ -1331,11 +1331,11 @@ class InflationEquations(Equations, ABC):
                 + (-2 + 2 * alpha - alpha**2 + pi**2 / 12) * e1 * e2
             )
             at0_3 = (
-                # -1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
-                - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
+                # -1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 14*Z) * e1**3
+                - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 14*Z) * e1**3
                 + 1/12 * (-96+72*alpha+36*alpha**2-24*alpha**3+13*pi**2-10*alpha*pi**2) * e1**2*e2
                 - 1/12 * (8 - 24 * alpha + 12 * alpha**2 - 4 * alpha**3 - pi**2
-                          + alpha * pi**2 + 24 * Z) * (e1 * e2**2 + e1 * e2 * e3)
+                          + alpha * pi**2 + 8 * Z) * (e1 * e2**2 + e1 * e2 * e3)
             )
             at1_1 = -2 * e1
             at1_2 = 2 * (-2 * alpha + 1) * e1**2 + (-2 + 2 * alpha) * e1 * e2
-- 
2.43.0


From 327a4c2a773b7cbf07fe5ba977d732c2d74110c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 09/23] fix: third-order slow-roll expansion (ARBDS) evaluated
 where k=aH instead of -k*eta=1

---
 primpy/inflation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 44c7982..aa0e006 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1260,13 +1260,17 @@ class InflationEquations(Equations, ABC):
             e3 = self.get_epsilon_3H(H=H, dH=dH, d2H=d2H, d3H=d3H)
             e4 = 0  # TODO
             N2H = interp1d(_N, H)
-            H_star = N2H(sol._N_cross)
             N2e1 = interp1d(_N, e1)
-            e1 = N2e1(sol._N_cross)
             N2e2 = interp1d(_N, e2)
-            e2 = N2e2(sol._N_cross)
             N2e3 = interp1d(_N, e3)
-            e3 = N2e3(sol._N_cross)
+            # The expansion is around the time when -k*eta=1, slightly after pivot scale crossing k=aH
+            e1 = N2e1(sol._N_cross)
+            e2 = N2e2(sol._N_cross)
+            N_pivot = np.clip(sol._N_cross + e1 + 3/2 * e1**2 + e1 * e2, _N[0], _N[-1])
+            H_star = N2H(N_pivot)
+            e1 = N2e1(N_pivot)
+            e2 = N2e2(N_pivot)
+            e3 = N2e3(N_pivot)
             alpha = 2 - np.log(2) - np.euler_gamma
             Z = zeta(3)
 
-- 
2.43.0


From 5d88aa289d6135d4f195e1dcc4037e03186190a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 10/23] fix: approximate spectra of an earlier calibration and
 queries which changed the selected spectra

---
 primpy/inflation.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index aa0e006..54a7fb5 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -865,6 +865,8 @@ class InflationEquations(Equations, ABC):
             sol.cHH_end_Mpc = sol.a0 / (np.exp(sol.N_end) * sol.H_end) * lp_m / Mpc_m
 
             # derive approximate primordial power spectra
+            for name in [n for n in sol if n.startswith(('P_s_approx_', 'P_t_approx_'))]:
+                del sol[name]  # from an earlier calibration
             if background is None:  # only derive if not copied from background
                 derive_approx_power(**kwargs)
 
@@ -1263,7 +1265,7 @@ class InflationEquations(Equations, ABC):
             N2e1 = interp1d(_N, e1)
             N2e2 = interp1d(_N, e2)
             N2e3 = interp1d(_N, e3)
-            # The expansion is around the time when -k*eta=1, slightly after pivot scale crossing k=aH
+            # The expansion is around the time when -k*eta=1, slightly after crossing with k=aH
             e1 = N2e1(sol._N_cross)
             e2 = N2e2(sol._N_cross)
             N_pivot = np.clip(sol._N_cross + e1 + 3/2 * e1**2 + e1 * e2, _N[0], _N[-1])
@@ -1436,6 +1438,15 @@ class InflationEquations(Equations, ABC):
 
         sol.derive_approx_power = derive_approx_power
 
+        def query_approx_power(derive, **kwargs):
+            """Derive approximate power spectra without changing those selected at calibration."""
+            names = ['P_scalar_approx', 'P_tensor_approx', 'logk2logP_s', 'logk2logP_t']
+            selected = {name: sol[name] for name in names if name in sol}
+            derive(**kwargs)
+            for name in names:
+                sol.pop(name, None)
+            sol.update(selected)
+
         def P_s_approx(k, method='CGS', order=3, **interp_kwargs):
             """Slow-roll approximation for the primordial power spectrum for scalar modes.
 
@@ -1462,6 +1473,8 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
+                if 'P_s_approx_CGS3' not in sol:
+                    query_approx_power(derive_approx_power_CGS)
                 if order == 3:
                     return sol.P_s_approx_CGS3(k)
                 elif order == 0:
@@ -1471,16 +1484,13 @@ class InflationEquations(Equations, ABC):
                 elif order == 2:
                     return sol.P_s_approx_CGS2(k)
             elif method == 'LLMS':
-                if not hasattr(sol, "P_s_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
+                query_approx_power(derive_approx_power_LLMS, **interp_kwargs)
                 return sol.P_s_approx_LLMS(k)
             elif method == 'STE':
-                if not hasattr(sol, "P_s_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
+                query_approx_power(derive_approx_power_STE, **interp_kwargs)
                 return sol.P_s_approx_STE(k)
             elif method == 'ARBDS':
-                if not hasattr(sol, "P_s_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
+                query_approx_power(derive_approx_power_ARBDS, order=order, **interp_kwargs)
                 if order == 3:
                     return sol.P_s_approx_ARBDS3(k)
                 elif order == 1:
@@ -1516,6 +1526,8 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
+                if 'P_t_approx_CGS3' not in sol:
+                    query_approx_power(derive_approx_power_CGS)
                 if order is None or order == 3:
                     return sol.P_t_approx_CGS3(k)
                 elif order == 0:
@@ -1525,16 +1537,13 @@ class InflationEquations(Equations, ABC):
                 elif order == 2:
                     return sol.P_t_approx_CGS2(k)
             elif method == 'LLMS':
-                if not hasattr(sol, "P_t_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
+                query_approx_power(derive_approx_power_LLMS, **interp_kwargs)
                 return sol.P_t_approx_LLMS(k)
             elif method == 'STE':
-                if not hasattr(sol, "P_t_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
+                query_approx_power(derive_approx_power_STE, **interp_kwargs)
                 return sol.P_t_approx_STE(k)
             elif method == 'ARBDS':
-                if not hasattr(sol, "P_t_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
+                query_approx_power(derive_approx_power_ARBDS, order=order, **interp_kwargs)
                 if order == 3:
                     return sol.P_t_approx_ARBDS3(k)
                 elif order == 1:
-- 
2.43.0


From f1a83cb56403ad52c4cbf73d56d247c5c92b28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 11/23] fix: H_star and rho_reh_mp4 of an earlier calibration
 were kept

---
 primpy/inflation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 54a7fb5..08760cf 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -752,6 +752,7 @@ class InflationEquations(Equations, ABC):
                     sol.N0 = np.log(sol.a0)
                     if rho_reh_GeV is None:
                         sol.rho_reh_GeV = np.nan
+                        sol.rho_reh_mp4 = np.nan
                         sol._N_reh = np.nan
                         sol.w_reh = np.nan
                         sol.DeltaN_reh = np.nan
@@ -851,6 +852,7 @@ class InflationEquations(Equations, ABC):
             sol.N_reh = sol._N_reh + sol.delta_N_calib
             sol.N_cross = sol._N_cross + sol.delta_N_calib
             sol.N_dagg = sol.N_cross - sol.N_beg
+            sol.H_star = np.exp(sol._logaH_star - sol._N_cross)
             sol.k_iMpc = np.exp(sol.logk)
             sol._k = np.exp(sol._logaH[sol.inflation_mask])
             if background is None and sol.DeltaN_reh < 0:
-- 
2.43.0


From af5ed143132a7591dd2bbb75b51885567549f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 12/23] fix: omissions of an earlier calibration from the
 points of inflation were kept

---
 primpy/inflation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 08760cf..55a0a6f 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -460,6 +460,7 @@ class InflationEquations(Equations, ABC):
         sol.N_tot = sol._N_end - sol._N_beg
         if np.isfinite(sol._N_beg) and np.isfinite(sol._N_end):
             sol.inflation_mask = (sol._N_beg < sol._N) & (sol._N < sol._N_end)
+        inflation_mask = sol.get('inflation_mask')
 
         def calibrate_scale_factor(
                 calibration_method='N_star' if self.K == 0 else 'Omega_K0',
@@ -534,6 +535,8 @@ class InflationEquations(Equations, ABC):
             The remaining keyword arguments are passed to `derive_approx_power`.
 
             """
+            if inflation_mask is not None:
+                sol.inflation_mask = inflation_mask  # without omissions of an earlier calibration
             if self.K == 0:  # flat universe
                 if Omega_K0 is not None and Omega_K0 != 0.0:
                     raise ValueError(f"For flat universes Omega_K0 must be 0, but got "
-- 
2.43.0


From 14f77e8cb799901d6019f5b3ac28738c7bc87db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:04 +0000
Subject: [PATCH 13/23] fix: only the RST spectrum was dropped on closed large
 scales

With drop_closed_large_scales the scalar spectrum of modes k<1 is documented to be set
to 1e-30, but this was done for the vacuum RST only, also when others were requested.
---
 primpy/oscode_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index f997563..d358686 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -125,7 +125,8 @@ def solve_oscode(background, k,
                 ))
         p.oscode_postprocessing(oscode_sol=oscode_sol, vacuum=vacuum)
         if ki < 1 and b.K == +1 and drop_closed_large_scales:
-            p.scalar.P_s_RST = 1e-30
+            for vac in vacuum:
+                setattr(p.scalar, 'P_s_%s' % vac, 1e-30)
         for vac in vacuum:
             getattr(PPS, 'P_s_%s' % vac)[i] = getattr(p.scalar, 'P_s_%s' % vac)
             getattr(PPS, 'P_t_%s' % vac)[i] = getattr(p.tensor, 'P_t_%s' % vac)
-- 
2.43.0


From b49cc2f5a071c97b3b0bfe31472009f0f0c9b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 14/23] fix: conformal_time mangled arrays of more than one
 dimension

The result is documented to have the same shape as N, but only the first entries of the
rows of a two-dimensional array were returned.
---
 primpy/bigbang.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index 560e3f7..41b699e 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -242,7 +242,8 @@ def conformal_time(N_start, N, Omega_m0, Omega_K0, h):
     """
     if isinstance(N, np.ndarray):
         return np.array([conformal_time(N_start=N_start, N=n, Omega_m0=Omega_m0,
-                                        Omega_K0=Omega_K0, h=h)[0] for n in N])
+                                        Omega_K0=Omega_K0, h=h)[0]
+                         for n in N.ravel()]).reshape(N.shape)
     elif isinstance(N, float) or isinstance(N, int):
         def integrand(n):
             return np.exp(-n) / Hubble_parameter(N=n, Omega_m0=Omega_m0, h=h, Omega_K0=Omega_K0)
-- 
2.43.0


From 0625ff02eb25ee39200bb06a544b013804ba7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 15/23] fix: conformal_time_ratio mixed calibrated and
 uncalibrated e-folds

In flat universes the e-folds of the scale factor are only fixed by the calibration, so
that the conformal time after inflation has to start from the calibrated N_end, and the
conformal time before the end of inflation has to be given for the same scale factor.
---
 primpy/bigbang.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index 41b699e..3931a29 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -287,10 +287,11 @@ def conformal_time_ratio(Omega_m0, Omega_K0, h, b_forward, b_backward=None):
     else:
         eta_beg = b_backward.eta[-1]
     eta_end = b_forward.eta[-1]
-    conformal_time_before = eta_end - eta_beg
+    # the calibrated scale factor might differ from the uncalibrated one in flat universes
+    conformal_time_before = (eta_end - eta_beg) * np.exp(b_forward._N_end - b_forward.N_end)
 
     # after (from the end of inflation until today)
-    conformal_time_after = conformal_time(N_start=b_forward._N_end,
+    conformal_time_after = conformal_time(N_start=b_forward.N_end,
                                           N=np.log(b_forward.a0),
                                           Omega_m0=Omega_m0,
                                           Omega_K0=Omega_K0,
-- 
2.43.0


From 6fb00d146547eea3916778b1259368987411388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 16/23] fix: consistent values of r and A_t/A_s were rejected
 because of rounding

E.g. A_t = r * A_s does not exactly divide back to r in general.
---
 cobaya_wrapper/feature_pps.py  | 6 +++---
 cobaya_wrapper/powerlaw_pps.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 341d3ae..c88095d 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -46,7 +46,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
             n_t = - r / 8.0 * (2.0 - n_s - r / 8.0)
             n_t_run = r / 8.0 * (r / 8.0 + n_s - 1)
         if A_t > 0:
-            if r != A_t / A_s:
+            if not np.isclose(r, A_t / A_s, rtol=1e-9, atol=0):
                 raise Exception("mismatch between `r` and `A_t/A_s`")
         elif r > 0:
             A_t = r * A_s
@@ -99,7 +99,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
             n_t = - r / 8.0 * (2.0 - n_s - r / 8.0)
             n_t_run = r / 8.0 * (r / 8.0 + n_s - 1)
         if A_t > 0:
-            if r != A_t / A_s:
+            if not np.isclose(r, A_t / A_s, rtol=1e-9, atol=0):
                 raise Exception("mismatch between `r` and `A_t/A_s`")
         elif r > 0:
             A_t = r * A_s
@@ -151,7 +151,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
             n_t = - r / 8.0 * (2.0 - n_s - r / 8.0)
             n_t_run = r / 8.0 * (r / 8.0 + n_s - 1)
         if A_t > 0:
-            if r != A_t / A_s:
+            if not np.isclose(r, A_t / A_s, rtol=1e-9, atol=0):
                 raise Exception("mismatch between `r` and `A_t/A_s`")
         elif r > 0:
             A_t = r * A_s
diff --git a/cobaya_wrapper/powerlaw_pps.py b/cobaya_wrapper/powerlaw_pps.py
index beffbeb..e548c94 100644
--- a/cobaya_wrapper/powerlaw_pps.py
+++ b/cobaya_wrapper/powerlaw_pps.py
@@ -54,7 +54,7 @@ class PowerLawPPS(ExternalPrimordialPowerSpectrum):
             n_t = - r / 8.0 * (2.0 - n_s - r / 8.0)
             n_t_run = r / 8.0 * (r / 8.0 + n_s - 1)
         if A_t > 0:
-            if r != A_t / A_s:
+            if not np.isclose(r, A_t / A_s, rtol=1e-9, atol=0):
                 raise Exception("mismatch between `r` and `A_t/A_s`")
         elif r > 0:
             A_t = r * A_s
-- 
2.43.0


From a9bd41f37318a488b987cee6770afba7db28e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 17/23] fix: n_t without n_t_run failed in the feature theories

The running of the tensor tilt defaults to zero, as in the power law theory.
---
 cobaya_wrapper/feature_pps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index c88095d..273978b 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -33,7 +33,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
         w_log = params_values_dict.get('w_log', None)
@@ -86,7 +86,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
         w_lin = params_values_dict.get('w_lin', None)
@@ -139,7 +139,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         k_cut = params_values_dict.get('k_cut', 1e-3)
         s_cut = params_values_dict.get('s_cut', 2)
-- 
2.43.0


From c57d1e8c181e197aa6ea559891175ea6a66bd07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 18/23] fix: oscillation theories failed with the feature
 switched off by default

The amplitude of the oscillations defaults to zero, but frequency and phase defaulted to
None, which cannot be evaluated.
---
 cobaya_wrapper/feature_pps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 273978b..b069b38 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -36,8 +36,8 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
-        w_log = params_values_dict.get('w_log', None)
-        p_log = params_values_dict.get('p_log', None)
+        w_log = params_values_dict.get('w_log', None if A_log else 0)
+        p_log = params_values_dict.get('p_log', 0)
 
         if n_t is None:
             # set from inflationary consistency
@@ -89,8 +89,8 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
-        w_lin = params_values_dict.get('w_lin', None)
-        p_lin = params_values_dict.get('p_lin', None)
+        w_lin = params_values_dict.get('w_lin', None if A_lin else 0)
+        p_lin = params_values_dict.get('p_lin', 0)
 
         if n_t is None:
             # set from inflationary consistency
-- 
2.43.0


From 9fed9b1b5fc1179ff741fd32e9587df3ad65ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 19/23] fix: realistic near-instant reheating was rejected by
 the slow-roll theories

The energy density at the end of inflation carried a spurious factor 1/3, and was taken
from the first guesses of the amplitude of the potential already. Compare with the
density at the end of inflation of the model that meets the target, 3/2 V_end, as used
by the calibration.
---
 cobaya_wrapper/slowroll_pps.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index a6f5d23..b6efb38 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,11 +65,6 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = (1/3 * (1/2 * b.dphidt[b.inflation_mask][-1]**2
-                                  + b.potential.V(b.phi[b.inflation_mask][-1]))
-                           * mp_GeV / lp_iGeV**3)**(1/4)
-            if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
-                raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
             with warnings.catch_warnings(action='ignore', category=PrimpyWarning):
                 if w_reh is not None and rho_reh_GeV is not None:
                     b.calibrate_scale_factor(calibration_method='reheating',
@@ -90,6 +85,9 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                 Lambda = (A_s / b.A_s)**(1 / 4) * Lambda
             else:
                 raise PrimpyError("`A_s` shooting failed.")
+        rho_end_GeV = (3/2 * b.V_end * mp_GeV / lp_iGeV**3)**(1/4)
+        if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
+            raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
         if b.w_reh <= -1/3 or b.w_reh >= 1 or b.DeltaN_reh < 0 or b.N_reh > b.N0:
             raise PrimpyError(f"Unrealistic reheating scenario with w_reh={b.w_reh}, "
                               f"DeltaN_reh={b.DeltaN_reh}, N_star={b.N_star}, "
-- 
2.43.0


From 532c4e87a619988ad01ae0052a561ee82979e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 20/23] fix: version increments to pre-releases were compared
 as strings and could skip steps

---
 .github/workflows/check_version.py | 2 +-
 bin/utils.py                       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/.github/workflows/check_version.py b/.github/workflows/check_version.py
index 59bb0bf..80fa3a2 100644
--- a/.github/workflows/check_version.py
+++ b/.github/workflows/check_version.py
@@ -23,7 +23,7 @@ def unit_incremented(a, b):
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
                     and a.base_version == b.base_version)
     elif a.pre is not None:
-        return a.base_version > b.base_version and a.pre[1] == 0
+        return a.pre[1] == 0 and unit_incremented(a.base_version, b.base_version)
     elif b.pre is not None:
         return a.base_version == b.base_version
     else:
diff --git a/bin/utils.py b/bin/utils.py
index 0dcdba8..59c8396 100644
--- a/bin/utils.py
+++ b/bin/utils.py
@@ -20,7 +20,7 @@ def unit_incremented(a, b):
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
                     and a.base_version == b.base_version)
     elif a.pre is not None:
-        return a.base_version > b.base_version and a.pre[1] == 0
+        return a.pre[1] == 0 and unit_incremented(a.base_version, b.base_version)
     elif b.pre is not None:
         return a.base_version == b.base_version
     else:
-- 
2.43.0


From c6b177ae314827430491cef8f3c7c87b7f797de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:01 +0000
Subject: [PATCH 21/23] fix: integer wavenumbers above 2e6 overflowed in the
 power spectrum

---
 primpy/oscode_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index d358686..ede1a23 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -88,7 +88,7 @@ def solve_oscode(background, k,
         return_pps = True
     PPS = PrimordialPowerSpectrum(background=b, k=k, vacuum=vacuum)
     # stop integration sufficiently after mode has crossed the horizon (lazy for loop):
-    for i, ki in enumerate(k):
+    for i, ki in enumerate(np.asarray(k, dtype=float)):  # float, as k**3 overflows for integers
         if fac_beg == 0:
             idx_beg = 0
         else:
-- 
2.43.0


From 9cd82082ac44ed50aecfefe23e299841d2aa34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 22/23] fix: potentials failed for field values of integer type

---
 primpy/potentials.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 82362a4..c61c5f7 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -299,11 +299,11 @@ class MonomialPotential(InflationaryPotential):
 
     def d3V(self, phi):  # noqa: D102
         p = self.p
-        return self.Lambda**4 * p * (p**2 - 3*p + 2) * np.abs(phi)**(p-3) * np.sign(phi)
+        return self.Lambda**4 * p * (p**2 - 3*p + 2) * np.abs(phi)**(p-3.) * np.sign(phi)
 
     def d4V(self, phi):  # noqa: D102
         p = self.p
-        return self.Lambda**4 * p * (p**3 - 6*p**2 + 11*p - 6) * np.abs(phi)**(p-4)
+        return self.Lambda**4 * p * (p**3 - 6*p**2 + 11*p - 6) * np.abs(phi)**(p-4.)
 
     def inv_V(self, V):  # noqa: D102
         return (V / self.Lambda**4)**(1/self.p)
@@ -832,7 +832,7 @@ class DoubleWellPotential(InflationaryPotential):
             return (phi0**2 * (-np.log(phi0 - phi) + np.log(phi0 - phi_e)) / 4
                     + (phi0 - phi)**2 / 8 - (phi0 - phi_e)**2 / 8)
         else:
-            return (+ phi0**p * (phi0 - phi)**(2 - p) / (2 * (p - 2))
+            return (+ phi0**p * (phi0 - phi)**(2. - p) / (2 * (p - 2))
                     - phi0**p * (phi0 - phi_e)**(2 - p) / (2 * (p - 2))
                     + (phi0 - phi)**2 / 4
                     - (phi0 - phi_e)**2 / 4) / p
@@ -1090,13 +1090,13 @@ class RadionGaugePotential(InflationaryPotential):
     def d2V(self, phi):  # noqa: D102
         p = self.p
         alpha = self.alpha
-        L2 = self.Lambda**4 * alpha * p * phi**(p-2)
+        L2 = self.Lambda**4 * alpha * p * phi**(p-2.)
         return L2 * (alpha * p - alpha - p * phi**p - phi**p) / (alpha + phi**p)**3
 
     def d3V(self, phi):  # noqa: D102
         p = self.p
         alpha = self.alpha
-        L3 = self.Lambda**4 * alpha * p * phi**(p-3)
+        L3 = self.Lambda**4 * alpha * p * phi**(p-3.)
         return L3 * (p**2 * (alpha**2 - 4*alpha*phi**p + phi**(2*p))
                      - 3 * p * (alpha - phi**p) * (alpha + phi**p)
                      + 2 * (alpha + phi**p)**2) / (alpha + phi**p)**4
@@ -1104,7 +1104,7 @@ class RadionGaugePotential(InflationaryPotential):
     def d4V(self, phi):  # noqa: D102
         p = self.p
         alpha = self.alpha
-        L4 = self.Lambda**4 * alpha * p * phi**(p-4)
+        L4 = self.Lambda**4 * alpha * p * phi**(p-4.)
         return L4 * (p**3 * (alpha - phi**p) * (alpha**2 - 10*alpha*phi**p + phi**(2*p))
                      - 6 * p**2 * (alpha + phi**p) * (alpha**2 - 4*alpha*phi**p + phi**(2*p))
                      + 11 * p * (alpha - phi**p) * (alpha + phi**p)**2
-- 
2.43.0


From 60dce3fdb3e770dff5826d9b5a0db7eaad18756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 23/23] fix: single wavenumbers of a numpy integer type were
 rejected

---
 primpy/oscode_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index ede1a23..da8ce7c 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -81,7 +81,7 @@ def solve_oscode(background, k,
     b = background
     vacuum = ('RST', ) if vacuum is None else vacuum
     y0 = kwargs.pop('y0', b.potential.perturbation_ic)
-    if isinstance(k, int) or isinstance(k, float):
+    if np.ndim(k) == 0:
         k = np.atleast_1d(k)
         return_pps = False
     else:
-- 
2.43.0

