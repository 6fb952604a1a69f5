From bd44de4bc0885cfb5ed45053ec9280a54544a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 01/30] fix: Tensor.subs keeps the index configuration and name

Substituting into a tensor of rank other than 2 raised ValueError and any
other rank 2 configuration silently became 'll'.
---
 src/einsteinpy/symbolic/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 586b118..321d0da 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -234,7 +234,7 @@ class Tensor:
             Tensor with substituted values
 
         """
-        return Tensor(self.tensor().subs(*args))
+        return Tensor(self.tensor().subs(*args), config=self._config, name=self.name)
 
     def simplify(self, set_self=True):
         """
-- 
2.43.0


From a61a8d86e32f2a2c6f73cb5715a7d926b9721034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 02/30] fix: StressEnergyMomentumTensor.change_config returns
 its own class

---
 src/einsteinpy/symbolic/stress_energy_momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/stress_energy_momentum.py b/src/einsteinpy/symbolic/stress_energy_momentum.py
index 81a87de..b1eb724 100644
--- a/src/einsteinpy/symbolic/stress_energy_momentum.py
+++ b/src/einsteinpy/symbolic/stress_energy_momentum.py
@@ -92,7 +92,7 @@ class StressEnergyMomentumTensor(BaseRelativityTensor):
         if metric is None:
             raise Exception("Parent Metric not found, can't do configuration change")
         new_tensor = _change_config(self, metric, newconfig)
-        new_obj = EinsteinTensor(
+        new_obj = StressEnergyMomentumTensor(
             new_tensor,
             self.syms,
             config=newconfig,
-- 
2.43.0


From 1bb76ad4031d71c50ccaadb61f0b2d47305f88b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 03/30] fix: tensor_product collects the variables and
 functions of both factors

The product only listed those of the first factor, so its lambdified
function failed whenever the second one had others.
---
 src/einsteinpy/symbolic/tensor.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 321d0da..a6c2b13 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -111,8 +111,6 @@ def tensor_product(tensor1, tensor2, i=None, j=None):
         syms=tensor1.syms,
         config=newconfig,
         parent_metric=tensor1.parent_metric,
-        variables=tensor1.variables,
-        functions=tensor1.functions,
     )
 
 
-- 
2.43.0


From 8c57ed575be4722d3c3c8e203a13ecc13692490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 04/30] fix: lorentz_transform transforms lower indices with
 the inverse matrix

They were contracted with the matrix itself, so contractions of
transformed tensors were not invariant.
---
 src/einsteinpy/symbolic/tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index a6c2b13..aa7906d 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -435,12 +435,16 @@ class BaseRelativityTensor(Tensor):
 
         """
         tm = sympy.Array(transformation_matrix)
+        tm_inv = None
         t = self.tensor()
         for i in range(self.order):
             if self.config[i] == "u":
                 t = simplify(tensorcontraction(tensorproduct(tm, t), (1, 2 + i)))
             else:
-                t = simplify(tensorcontraction(tensorproduct(tm, t), (0, 2 + i)))
+                # lower indices transform with the inverse matrix
+                if tm_inv is None:
+                    tm_inv = sympy.Array(sympy.Matrix(tm.tolist()).inv().tolist())
+                t = simplify(tensorcontraction(tensorproduct(tm_inv, t), (0, 2 + i)))
             dest = list(range(len(t.shape)))
             dest.remove(0)
             dest.insert(i, 0)
-- 
2.43.0


From 5755769ae86b200b76b392b15d81eb777647dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 05/30] fix: DeSitter scale factor depends on time, not on x

---
 src/einsteinpy/symbolic/predefined/de_sitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/de_sitter.py b/src/einsteinpy/symbolic/predefined/de_sitter.py
index e8798bb..3d8cb9c 100644
--- a/src/einsteinpy/symbolic/predefined/de_sitter.py
+++ b/src/einsteinpy/symbolic/predefined/de_sitter.py
@@ -42,7 +42,7 @@ def DeSitter():
 
     """
     coords = symbols("t x y z")
-    t = coords[1]
+    t = coords[0]
     al = symbols("alpha")
     expr = exp(2 * t / al)
     metric = diag(-1, expr, expr, expr).tolist()
-- 
2.43.0


From d150386d7a940db81888c70b5031b06aa73b5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 06/30] fix: AlcubierreWarp bubble distance squares y and z

---
 src/einsteinpy/symbolic/predefined/alcubierre_warp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
index 9a63dd2..a52a190 100644
--- a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
+++ b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
@@ -40,7 +40,7 @@ def AlcubierreWarp(
     """
     coords = symbols("t x y z")
     t, x, y, z = coords
-    r_s = sqrt((x - x_s) ** 2 + y + z)
+    r_s = sqrt((x - x_s) ** 2 + y**2 + z**2)
     f = (tanh(sigma * (r_s + R)) - tanh(sigma * (r_s - R))) / (2 * tanh(sigma * R))
 
     v2 = v**2
-- 
2.43.0


From 742c36e867d2150f631feb6c965e0d02f8f9f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 07/30] fix: BesselGravitationalWave passes order before
 argument to besselj

---
 .../symbolic/predefined/bessel_gravitational_wave.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
index 18f5b47..86a77ca 100644
--- a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
+++ b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
@@ -24,14 +24,14 @@ def BesselGravitationalWave(C=symbols("C")):
     t, rho, ph, z = coords
 
     # Useful helper functions, these wrap the Bessel functions that are used. C is some constant here
-    U = C * besselj(rho, 0) * cos(t)
+    U = C * besselj(0, rho) * cos(t)
     K = (
         (1 / 2)
         * (C**2)
         * rho
         * (
-            (rho * ((besselj(rho, 0) ** 2) + (besselj(rho, 1) ** 2)))
-            - (2 * besselj(rho, 0) * besselj(rho, 1) * (cos(t) ** 2))
+            (rho * ((besselj(0, rho) ** 2) + (besselj(1, rho) ** 2)))
+            - (2 * besselj(0, rho) * besselj(1, rho) * (cos(t) ** 2))
         )
     )
 
-- 
2.43.0


From 07d8161a800a4214735fdd3f092ea623fdde7f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 08/30] fix: JanisNewmanWinicour angular components share the
 1/c^2 of the radial one

---
 src/einsteinpy/symbolic/predefined/janis_newman_winicour.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
index 47adedc..b799b4d 100644
--- a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
+++ b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
@@ -30,7 +30,7 @@ def JanisNewmanWinicour(
     metric = diag(
         -1 * (alpha**gam),
         (alpha**-gam) / (c**2),
-        (r**2) * (alpha ** (-gam + 1)),
-        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2),
+        (r**2) * (alpha ** (-gam + 1)) / (c**2),
+        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2) / (c**2),
     ).tolist()
     return MetricTensor(metric, coords, "ll", name="JanisNewmanWinicourMetric")
-- 
2.43.0


From 6b2e67b69e92badbe078bcb92dcf914f2a631ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 09/30] fix: metrics convert mass, spin and charge to SI before
 stripping units

---
 src/einsteinpy/metric/base_metric.py |  3 ++-
 src/einsteinpy/metric/kerr.py        |  4 ++--
 src/einsteinpy/metric/kerrnewman.py  | 10 +++++-----
 src/einsteinpy/units.py              |  4 ++--
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 7a36242..fe4ad10 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -289,7 +289,8 @@ class BaseMetric:
             coordinate system, the metric object has been instantiated with
 
         """
-        system, M, a, Q = self.coords.system, self.M.value, self.a.value, self.Q.value
+        system = self.coords.system
+        M, a, Q = primitive(self.M, self.a, self.Q)
 
         r_s = 2 * M * _G / _c**2
         alpha = BaseMetric.alpha(M, a)
diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index e13592a..cd9c38c 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -125,7 +125,7 @@ class Kerr(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        r_s, M, a = self.sch_rad, self.M.value, self.a.value
+        r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
 
@@ -166,7 +166,7 @@ class Kerr(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        r_s, M, a = self.sch_rad, self.M.value, self.a.value
+        r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
 
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 69d2c88..74e80f3 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,7 +134,7 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a = self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
 
@@ -175,7 +175,7 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a = self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
 
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] -= self.q.value * (F_contra @ vec[4:] @ g_cov)
+        vals[4:] -= self.q.si.value * (F_contra @ vec[4:] @ g_cov)
 
         return vals
 
@@ -427,7 +427,7 @@ class KerrNewman(BaseMetric):
 
         """
         _, r, th, _ = x_vec
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
         # Geometrized Charge
@@ -480,7 +480,7 @@ class KerrNewman(BaseMetric):
 
         """
         _, r, th, _ = x_vec
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
         r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
diff --git a/src/einsteinpy/units.py b/src/einsteinpy/units.py
index 1780568..3b2f55b 100644
--- a/src/einsteinpy/units.py
+++ b/src/einsteinpy/units.py
@@ -7,7 +7,7 @@ __all__ = ["primitive"]
 
 def primitive(*args):
     """
-    Strips out units and returns numpy.float64 values \
+    Strips out units and returns numpy.float64 values, in SI units, \
     out of ``astropy.units.quantity.Quantity``
 
     Parameters
@@ -24,7 +24,7 @@ def primitive(*args):
     primitive_args = []
     for item in args:
         if isinstance(item, u.Quantity):
-            primitive_args.append(item.value)
+            primitive_args.append(item.si.value)
         else:
             primitive_args.append(item)
 
-- 
2.43.0


From 32356b1d13e2ff71bbf577600c71fe1c67e2fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 10/30] fix: Boyer-Lindquist azimuthal velocity is defined
 where x vanishes

---
 src/einsteinpy/coordinates/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index dca3dd3..d903607 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -77,7 +77,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
         )
     )
     v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))
-    v_p = (1 / (1 + np.square(y / x))) * ((v_y * x - v_x * y) / (x**2))
+    v_p = (v_y * x - v_x * y) / (x**2 + y**2)
 
     return t, r, theta, phi, v_r, v_th, v_p
 
-- 
2.43.0


From e9dc37cc2585a58a4cc238aa7f0728f13ce48063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 11/30] fix: Kerr-Newman metric and its derivatives include the
 charge in Delta

---
 src/einsteinpy/metric/kerrnewman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 74e80f3..4ee4677 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,9 +134,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.si.value, self.a.si.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         g_cov_bl = np.zeros(shape=(4, 4), dtype=float)
 
@@ -175,9 +175,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.si.value, self.a.si.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         dgdx = np.zeros(shape=(4, 4, 4), dtype=float)
 
-- 
2.43.0


From ec165bb7e1b43236a64806509aee489bb17a2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 12/30] fix: Kerr-Newman Lorentz force is q F^a_b u^b

The field tensor was contracted with the contravariant velocity and the free
index lowered. Contract with the lowered velocity instead; the sign keeps the
radial force between like charges repulsive, as before.
---
 src/einsteinpy/metric/kerrnewman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 4ee4677..5af164f 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] -= self.q.si.value * (F_contra @ vec[4:] @ g_cov)
+        vals[4:] += self.q.si.value * (F_contra @ g_cov @ vec[4:])
 
         return vals
 
-- 
2.43.0


From d17f2138dfeb3c016b7ccf6e0df7c336ce7f7a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 13/30] fix: triple-jump compositions use the coefficients of
 their own order

---
 src/einsteinpy/integrators/fantasy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/integrators/fantasy.py b/src/einsteinpy/integrators/fantasy.py
index 042d003..8f66aed 100644
--- a/src/einsteinpy/integrators/fantasy.py
+++ b/src/einsteinpy/integrators/fantasy.py
@@ -207,7 +207,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(4)
         step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -228,7 +228,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(6)
         step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -249,7 +249,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(8)
         step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-- 
2.43.0


From 70991bc0bad8432e203170f823b534d65021c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 14/30] fix: RK4naive integrates towards its bound and stops
 there

---
 src/einsteinpy/integrators/runge_kutta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 331fa77..6d51e79 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -30,9 +30,9 @@ class RK4naive:
         self.t = t0
         self.y = y0
         self.t_bound = t_bound
-        self.step_size = stepsize
         self._fun = fun
-        self.direction = 1 * (self.t_bound >= t0) - 1 * (not self.t_bound < t0)
+        self.direction = 1 if self.t_bound >= t0 else -1
+        self.step_size = self.direction * abs(stepsize)
 
     def step(self):
         """
-- 
2.43.0


From 7cec99c2b9fb4d6cea77563af7372b42a9dca672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 15/30] fix: initial 4-momentum accounts for every off-diagonal
 metric component

---
 src/einsteinpy/geodesic/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/geodesic/utils.py b/src/einsteinpy/geodesic/utils.py
index 5408211..54e9774 100644
--- a/src/einsteinpy/geodesic/utils.py
+++ b/src/einsteinpy/geodesic/utils.py
@@ -41,11 +41,14 @@ def _P(g, g_prms, q, p, time_like=True):
     P = np.array([0.0, *p])
 
     A = guu[0, 0]
-    B = 2 * guu[0, 3] * P[3]
+    B = 2 * (guu[0, 1] * P[1] + guu[0, 2] * P[2] + guu[0, 3] * P[3])
     C = (
         guu[1, 1] * P[1] * P[1]
         + guu[2, 2] * P[2] * P[2]
         + guu[3, 3] * P[3] * P[3]
+        + 2 * guu[1, 2] * P[1] * P[2]
+        + 2 * guu[1, 3] * P[1] * P[3]
+        + 2 * guu[2, 3] * P[2] * P[3]
         + int(time_like)
     )
 
-- 
2.43.0


From cd551d5775b6f2f3cebfb7e234fd29f5a577cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 16/30] fix: dual numbers compare with plain numbers and zero
 has a zeroth power

---
 src/einsteinpy/utils/dual.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/utils/dual.py b/src/einsteinpy/utils/dual.py
index b136e79..fced113 100644
--- a/src/einsteinpy/utils/dual.py
+++ b/src/einsteinpy/utils/dual.py
@@ -95,7 +95,10 @@ class DualNumber:
         return DualNumber(other, 0).__truediv__(self)
 
     def __eq__(self, other):
-        return (self.val == other.val) and (self.deriv == other.deriv)
+        if isinstance(other, DualNumber):
+            return (self.val == other.val) and (self.deriv == other.deriv)
+
+        return (self.val == other) and (self.deriv == 0)
 
     def __ne__(self, other):
         return not (self == other)
@@ -104,6 +107,9 @@ class DualNumber:
         return DualNumber(-self.val, -self.deriv)
 
     def __pow__(self, power):
+        if power == 0:
+            return DualNumber(1.0, 0.0)
+
         return DualNumber(
             self.val**power, self.deriv * power * self.val ** (power - 1)
         )
-- 
2.43.0


From 7bb394f46b0f0bdd8b7b5343000f9c68b3ae3a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 17/30] fix: plotted ergosphere is the stationary limit of the
 polar angle

---
 src/einsteinpy/plotting/geodesic/interactive.py | 4 ++--
 src/einsteinpy/plotting/geodesic/static.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index fef2ed7..3e70468 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -65,7 +65,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -120,7 +120,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 2de182e..d79366c 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -92,7 +92,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -144,7 +144,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
-- 
2.43.0


From 378c5503ba1465885dbc6577479cebe3b9c0bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 18/30] fix: shadow turning points use the mass without
 truncating it

---
 src/einsteinpy/rays/shadow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index f09adab..dd2755a 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -48,7 +48,7 @@ class Shadow:
         Returns the root of the equation for ``r_tp`` (turning points) for some impact parameter
         """
         # emath.sqrt is domain-agnostic and this is a complex equation
-        return r_tp / np.emath.sqrt(1 - (2 * int(self.mass.value) / r_tp)) - i
+        return r_tp / np.emath.sqrt(1 - (2 * self.mass.value / r_tp)) - i
 
     def _intensity_blue_sch(self, r, b):
         """
-- 
2.43.0


From c905bcea138567c92226827416cd3553020a2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 19/30] fix: Boyer-Lindquist polar angle is a number on the
 axis

---
 src/einsteinpy/coordinates/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index d903607..14f3596 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -66,7 +66,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    theta = np.arctan2(np.hypot(x, y) / np.sqrt(r**2 + alpha**2), z / r)
     phi = np.arctan2(y, x)
     dw_dt = 2 * (x * v_x + y * v_y + z * v_z)
     v_r = (1 / (2 * r)) * (
@@ -91,7 +91,7 @@ def cartesian_to_bl_novel(t, x, y, z, alpha):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    theta = np.arctan2(np.hypot(x, y) / np.sqrt(r**2 + alpha**2), z / r)
     phi = np.arctan2(y, x)
 
     return t, r, theta, phi
-- 
2.43.0


From bfb110f2273cf96ec91f89e5025d423ca4f8c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 20/30] fix: horizons and ergospheres of an extremal hole are
 numbers

---
 src/einsteinpy/metric/base_metric.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index fe4ad10..2f79a32 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -300,13 +300,19 @@ class BaseMetric:
         def _in_ergo(theta):
             return (
                 r_s
-                - np.sqrt((r_s**2) - (4 * (alpha * np.cos(theta)) ** 2) - (4 * r_Q2))
+                - np.sqrt(
+                    (r_s - 2 * alpha * np.cos(theta)) * (r_s + 2 * alpha * np.cos(theta))
+                    - (4 * r_Q2)
+                )
             ) / 2
 
         def _out_ergo(theta):
             return (
                 r_s
-                + np.sqrt((r_s**2) - (4 * (alpha * np.cos(theta)) ** 2) - (4 * r_Q2))
+                + np.sqrt(
+                    (r_s - 2 * alpha * np.cos(theta)) * (r_s + 2 * alpha * np.cos(theta))
+                    - (4 * r_Q2)
+                )
             ) / 2
 
         if self.name in ("Kerr Metric", "Kerr-Newman Metric"):
@@ -314,11 +320,15 @@ class BaseMetric:
                 return {
                     "inner_ergosphere": _in_ergo,
                     "inner_horizon": (
-                        r_s - np.sqrt((r_s**2) - (4 * alpha**2) - (4 * r_Q2))
+                        r_s - np.sqrt(
+                            (r_s - 2 * alpha) * (r_s + 2 * alpha) - (4 * r_Q2)
+                        )
                     )
                     / 2,
                     "outer_horizon": (
-                        r_s + np.sqrt((r_s**2) - (4 * alpha**2) - (4 * r_Q2))
+                        r_s + np.sqrt(
+                            (r_s - 2 * alpha) * (r_s + 2 * alpha) - (4 * r_Q2)
+                        )
                     )
                     / 2,
                     "outer_ergosphere": _out_ergo,
-- 
2.43.0


From 619f52f2e2a9c3be18938069ebb0692620364d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 21/30] fix: derivative of the Kerr metric's phi-phi component

---
 src/einsteinpy/metric/kerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index cd9c38c..5dda051 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -182,7 +182,7 @@ class Kerr(BaseMetric):
             dgdx[1, 0, 0] = -tmp * _c**2
             dgdx[1, 1, 1] = -(dsdr - (sg * (dddr / dl))) / dl
             dgdx[1, 2, 2] = -dsdr
-            dgdx[1, 3, 3] = (-2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
+            dgdx[1, 3, 3] = (-2 * r - ((alpha * np.sin(th)) ** 2) * tmp) * (
                 np.sin(th) ** 2
             )
             dgdx[1, 0, 3] = dgdx[1, 3, 0] = _c * alpha * (np.sin(th) ** 2) * tmp
-- 
2.43.0


From 9519d3afccebf2d02107bfdfd12876cd651a1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 22/30] fix: every shadow ray outside the critical impact
 parameter has its turning point

---
 src/einsteinpy/rays/shadow.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index dd2755a..5cd6a97 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -4,7 +4,6 @@ import numpy as np
 from astropy import units as u
 from scipy.integrate import fixed_quad
 from scipy.interpolate import interp1d
-from scipy.optimize import newton
 
 
 class Shadow:
@@ -25,10 +24,10 @@ class Shadow:
         self.z = list()
         self.bfin = list()
         for i in self.b:
-            root = newton(self._root_equation, 0.1, args=(i,))
-            if np.isreal(root):
+            # Only rays outside the critical impact parameter turn around
+            if i > self.b_crit.value:
                 self.bfin.append(i)
-                self.z.append([i, np.real(root)])
+                self.z.append([i, self._turning_point(i)])
         self.z = np.array(self.z)
         self.k0 = self._intensity()
         self.k1 = self._intensity_from_event_horizon()
@@ -50,6 +49,13 @@ class Shadow:
         # emath.sqrt is domain-agnostic and this is a complex equation
         return r_tp / np.emath.sqrt(1 - (2 * self.mass.value / r_tp)) - i
 
+    def _turning_point(self, i):
+        """
+        Returns the turning point (outermost root of ``_root_equation``) for some impact
+        parameter ``i``, greater than the critical one
+        """
+        return (2 * i / np.sqrt(3)) * np.cos(np.arccos(-self.b_crit.value / i) / 3)
+
     def _intensity_blue_sch(self, r, b):
         """
         Returns the integrand for the blue shifted intensity to be integrated.
-- 
2.43.0


From 05a1780e703cd7a36935076ffe637b8ebd0687ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 23/30] fix: a symbolic constant keeps its descriptive name
 when another of the same name is made

---
 src/einsteinpy/symbolic/constants.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/einsteinpy/symbolic/constants.py b/src/einsteinpy/symbolic/constants.py
index d704211..8e70bad 100644
--- a/src/einsteinpy/symbolic/constants.py
+++ b/src/einsteinpy/symbolic/constants.py
@@ -24,6 +24,9 @@ class SymbolicConstant(Symbol):
         """
 
         instance = super(SymbolicConstant, cls).__new__(cls, name, **assumptions)
+        if getattr(instance, "_descriptive_name", descriptive_name) != descriptive_name:
+            # SymPy caches symbols by name - leave the existing constant as it is
+            instance = Symbol.__xnew__(cls, name, **assumptions)
         instance._descriptive_name = descriptive_name
         return instance
 
-- 
2.43.0


From 5803ff7e7162a09d19562687ea73921f5b3dee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 24/30] fix: bodies do not share their default mass, charge and
 radius objects

---
 src/einsteinpy/bodies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/bodies.py b/src/einsteinpy/bodies.py
index e8d52fb..6293427 100644
--- a/src/einsteinpy/bodies.py
+++ b/src/einsteinpy/bodies.py
@@ -15,7 +15,7 @@ and a way to define new bodies (:py:class:`~Body` class).
 Data references can be found in :py:mod:`~einsteinpy.constant`
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from textwrap import dedent
 from typing import Union
 
@@ -61,9 +61,9 @@ class Body:
     """
 
     name: str = "Generic Body"
-    mass: u.kg = 0 * u.kg
-    q: u.C = 0 * u.C
-    R: u.km = 0 * u.km
+    mass: u.kg = field(default_factory=lambda: 0 * u.kg)
+    q: u.C = field(default_factory=lambda: 0 * u.C)
+    R: u.km = field(default_factory=lambda: 0 * u.km)
     coords: Union[
         CartesianDifferential, SphericalDifferential, BoyerLindquistDifferential, None
     ] = None
-- 
2.43.0


From e4351541bfbf26244a92841a9433f5de875e459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 25/30] fix: a refused 2D geodesic plot draws nothing

---
 src/einsteinpy/plotting/geodesic/interactive.py | 6 +++---
 src/einsteinpy/plotting/geodesic/static.py      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index 3e70468..376652d 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -247,9 +247,6 @@ class InteractiveGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
-
         traj = geodesic.trajectory[1]
         A = coordinates[0]
         B = coordinates[1]
@@ -262,6 +259,9 @@ class InteractiveGeodesicPlotter:
                 """
             )
 
+        a = geodesic.metric_params[0]
+        self._draw_bh_2D(a, figsize)
+
         self.fig.add_trace(
             go.Scatter(
                 x=traj[:, A],
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index d79366c..b332cf3 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -243,9 +243,6 @@ class StaticGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
-
         traj = geodesic.trajectory[1]
         A = coordinates[0]
         B = coordinates[1]
@@ -258,6 +255,9 @@ class StaticGeodesicPlotter:
                 """
             )
 
+        a = geodesic.metric_params[0]
+        self._draw_bh_2D(a, figsize)
+
         fontsize = max(figsize) + 3
         self.ax.set_xlabel(f"$X{coordinates[0]}\\:(GM/c^2)$", fontsize=fontsize)
         self.ax.set_ylabel(f"$X{coordinates[1]}\\:(GM/c^2)$", fontsize=fontsize)
-- 
2.43.0


From a5d43b093382216f31eda41ba4cce20ed77a4723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 26/30] fix: the geodesic animation reaches the last point of
 the trajectory

---
 src/einsteinpy/plotting/geodesic/static.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index b332cf3..98c9353 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -354,8 +354,8 @@ class StaticGeodesicPlotter:
         (line,) = self.ax.plot(data[0, 0:1], data[1, 0:1], data[2, 0:1])
 
         def _update(num, data, line):
-            line.set_data(data[:2, :num])
-            line.set_3d_properties(data[2, :num])
+            line.set_data(data[:2, : num + 1])
+            line.set_3d_properties(data[2, : num + 1])
 
             return (line,)
 
-- 
2.43.0


From 36adfd354466ebd2e6e6bba63c317826e608dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 27/30] fix: StaticGeodesicPlotter shows the legend of and
 saves its own figure

---
 src/einsteinpy/plotting/geodesic/static.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 98c9353..5302193 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -384,7 +384,7 @@ class StaticGeodesicPlotter:
         fontsize = max(figsize) + 1.5
         if self.ax.name == "3d":
             self.ax.view_init(azim=azim, elev=elev)
-        plt.legend(prop={"size": fontsize})
+        self.ax.legend(prop={"size": fontsize})
 
         plt.show()
 
@@ -411,4 +411,5 @@ class StaticGeodesicPlotter:
         if self.ax.name != "3d" and name == "Geodesic.png":
             name = "Parametric.png"
 
+        plt.figure(self.fig.number)
         plt.savefig(name)
-- 
2.43.0


From dcb196196509b825dc0411e6bd13c975e0df9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:44 +0000
Subject: [PATCH 28/30] fix: the geodesic animation is drawn in the requested
 color

---
 src/einsteinpy/plotting/geodesic/static.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 5302193..dc89201 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -351,7 +351,9 @@ class StaticGeodesicPlotter:
         self.ax.set_zlim3d([z_min - margin_z, z_max + margin_z])
 
         data = traj[1][:, 1:4].T
-        (line,) = self.ax.plot(data[0, 0:1], data[1, 0:1], data[2, 0:1])
+        (line,) = self.ax.plot(
+            data[0, 0:1], data[1, 0:1], data[2, 0:1], "--", color=color
+        )
 
         def _update(num, data, line):
             line.set_data(data[:2, : num + 1])
-- 
2.43.0


From 3c03d0af705235716f637dbb0be812759df3b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 29/30] fix: plotters draw the horizon and ergosphere of a
 charged black hole

---
 .../plotting/geodesic/interactive.py          | 40 ++++++++++++-----
 src/einsteinpy/plotting/geodesic/static.py    | 44 ++++++++++++++-----
 2 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index 376652d..2bb3fd6 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -26,7 +26,21 @@ class InteractiveGeodesicPlotter:
         self.bh_colors = bh_colors
         self.draw_ergosphere = draw_ergosphere
 
-    def _draw_bh(self, a):
+    @staticmethod
+    def _spin_charge(geodesic):
+        """
+        Returns the Spin and Charge Parameters of the Black Hole
+
+        Parameters
+        ----------
+        geodesic : einsteinpy.geodesic.*
+            Geodesic Object
+
+        """
+        params = geodesic.metric_params
+        return params[0], params[1] if geodesic.metric_name == "KerrNewman" else 0.0
+
+    def _draw_bh(self, a, Q=0.0):
         """
         Plots the Black Hole
 
@@ -35,6 +49,9 @@ class InteractiveGeodesicPlotter:
         a : float
             Dimensionless Spin Parameter of the Black Hole
             ``0 <= a <= 1``
+        Q : float, optional
+            Dimensionless Charge Parameter of the Black Hole
+            Defaults to ``0.0``
 
         """
         colorscale_H = [(0, self.bh_colors[0]), (1, self.bh_colors[0])]
@@ -44,7 +61,7 @@ class InteractiveGeodesicPlotter:
         THETA, PHI = np.meshgrid(theta, phi)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(PHI) * np.cos(THETA)
         YH = rh_outer * np.sin(PHI) * np.sin(THETA)
@@ -65,7 +82,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - Q**2 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -84,7 +101,7 @@ class InteractiveGeodesicPlotter:
                 )
             )
 
-    def _draw_bh_2D(self, a, figsize=(6, 6)):
+    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0):
         """
         Plots the Black Hole in 2D
 
@@ -96,12 +113,15 @@ class InteractiveGeodesicPlotter:
         figsize : tuple, optional
             2-Tuple of Figure Size in inches
             Defaults to ``(6, 6)``
+        Q : float, optional
+            Dimensionless Charge Parameter of the Black Hole
+            Defaults to ``0.0``
 
         """
         theta = np.linspace(0, 2 * np.pi, 50)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(theta)
         YH = rh_outer * np.cos(theta)
@@ -120,7 +140,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - Q**2 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
@@ -183,8 +203,8 @@ class InteractiveGeodesicPlotter:
         Y = traj[:, 2]
         Z = traj[:, 3]
 
-        a = geodesic.metric_params[0]
-        self._draw_bh(a)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh(a, Q=Q)
         self.fig.add_trace(
             go.Scatter3d(
                 x=X,
@@ -259,8 +279,8 @@ class InteractiveGeodesicPlotter:
                 """
             )
 
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh_2D(a, figsize, Q)
 
         self.fig.add_trace(
             go.Scatter(
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index dc89201..3b3cf57 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -43,7 +43,21 @@ class StaticGeodesicPlotter:
                 PendingDeprecationWarning,
             )
 
-    def _draw_bh(self, a, figsize=(6, 6)):
+    @staticmethod
+    def _spin_charge(geodesic):
+        """
+        Returns the Spin and Charge Parameters of the Black Hole
+
+        Parameters
+        ----------
+        geodesic : einsteinpy.geodesic.*
+            Geodesic Object
+
+        """
+        params = geodesic.metric_params
+        return params[0], params[1] if geodesic.metric_name == "KerrNewman" else 0.0
+
+    def _draw_bh(self, a, figsize=(6, 6), Q=0.0):
         """
         Plots the Black Hole in 3D
 
@@ -55,6 +69,9 @@ class StaticGeodesicPlotter:
         figsize : tuple, optional
             2-Tuple of Figure Size in inches
             Defaults to ``(6, 6)``
+        Q : float, optional
+            Dimensionless Charge Parameter of the Black Hole
+            Defaults to ``0.0``
 
         """
         self.fig, self.ax = plt.subplots(figsize=figsize)
@@ -69,7 +86,7 @@ class StaticGeodesicPlotter:
         THETA, PHI = np.meshgrid(theta, phi)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(PHI) * np.cos(THETA)
         YH = rh_outer * np.sin(PHI) * np.sin(THETA)
@@ -92,7 +109,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - Q**2 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -113,7 +130,7 @@ class StaticGeodesicPlotter:
             surface2._facecolors2d = surface2._facecolor3d
             surface2._edgecolors2d = surface2._edgecolor3d
 
-    def _draw_bh_2D(self, a, figsize=(6, 6)):
+    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0):
         """
         Plots the Black Hole in 2D
 
@@ -125,6 +142,9 @@ class StaticGeodesicPlotter:
         figsize : tuple, optional
             2-Tuple of Figure Size in inches
             Defaults to ``(6, 6)``
+        Q : float, optional
+            Dimensionless Charge Parameter of the Black Hole
+            Defaults to ``0.0``
 
         """
         self.fig, self.ax = plt.subplots(figsize=figsize)
@@ -133,7 +153,7 @@ class StaticGeodesicPlotter:
         theta = np.linspace(0, 2 * np.pi, 50)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(theta)
         YH = rh_outer * np.cos(theta)
@@ -144,7 +164,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - Q**2 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
@@ -194,8 +214,8 @@ class StaticGeodesicPlotter:
                 f"Invalid aspect type. Expected one of {aspects}. Received '{aspect}'."
             )
 
-        a = geodesic.metric_params[0]
-        self._draw_bh(a, figsize)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh(a, figsize, Q)
 
         traj = geodesic.trajectory[1]
         x = traj[:, 1]
@@ -255,8 +275,8 @@ class StaticGeodesicPlotter:
                 """
             )
 
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh_2D(a, figsize, Q)
 
         fontsize = max(figsize) + 3
         self.ax.set_xlabel(f"$X{coordinates[0]}\\:(GM/c^2)$", fontsize=fontsize)
@@ -330,8 +350,8 @@ class StaticGeodesicPlotter:
             Picks a random color by default
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh(a)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh(a, Q=Q)
 
         traj = geodesic.trajectory
         x = traj[1][:, 1]
-- 
2.43.0


From 5c191b00b9261a7e896379a32eb451cb7e7fbeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:06 +0000
Subject: [PATCH 30/30] fix: right-hand side of the geodesic equation is not
 truncated to integers

---
 src/einsteinpy/metric/kerr.py          | 1 +
 src/einsteinpy/metric/kerrnewman.py    | 1 +
 src/einsteinpy/metric/schwarzschild.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index 5dda051..0b9aa1c 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -340,6 +340,7 @@ class Kerr(BaseMetric):
             Numpy array of shape (8)
 
         """
+        vec = np.asarray(vec, dtype=float)
         chl = self.christoffels(vec[:4])
         vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
 
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 5af164f..367f464 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -368,6 +368,7 @@ class KerrNewman(BaseMetric):
             Numpy array of shape (8)
 
         """
+        vec = np.asarray(vec, dtype=float)
         chl = self.christoffels(vec[:4])
         F_contra = self.em_tensor_contravariant(vec[:4])
         g_cov = self.metric_covariant(vec[:4])
diff --git a/src/einsteinpy/metric/schwarzschild.py b/src/einsteinpy/metric/schwarzschild.py
index d8226df..24fddb3 100644
--- a/src/einsteinpy/metric/schwarzschild.py
+++ b/src/einsteinpy/metric/schwarzschild.py
@@ -207,6 +207,7 @@ class Schwarzschild(BaseMetric):
             Numpy array of shape (8)
 
         """
+        vec = np.asarray(vec, dtype=float)
         chl = self.christoffels(vec[:4])
         vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
 
-- 
2.43.0

