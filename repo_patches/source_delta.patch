From b692498b42056763c13f7967210352c08a69eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:57 +0000
Subject: [PATCH 01/89] fix: torispherical head wetted area near half full used
 an inaccurate quadrature

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d88f3dd..b3fed6b 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -2446,7 +2446,7 @@ def SA_partial_horiz_torispherical_head(D: float, f: float, k: float, h: float)
         SA = quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, sqrt(2*k*D*h - h*h), args=(t2, s, c1))[0]
         return 2.0*SA
     elif limit_1 < h <= R:
-        if (D*.499 < h < D*.501): # numba: delete
+        if abs(h - R) < 1e-7*D: # numba: delete
             from scipy.integrate import dblquad  # numba: delete
             SA = 2.0*dblquad(_SA_partial_horiz_torispherical_head_int_3, 0.0, a2, lambda x: 0, G_lim, args=(s, t2))[0] # numba: delete
             # print(SA/2.)
-- 
2.43.0


From 46aceafda15884e3fb7bf884a3639f0200a3ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:59 +0000
Subject: [PATCH 02/89] fix: clamp the level before the hemispherical shortcut
 in SA_partial_horiz_spherical_head

---
 fluids/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index b3fed6b..a7f6409 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1987,12 +1987,12 @@ def SA_partial_horiz_spherical_head(D: float, a: float, h: float) -> float:
        April 2017. https://www.chemicalprocessing.com/assets/Uploads/calculating-tank-wetted-area.pdf
     """
     R = 0.5*D
-    if a == R:
-        return pi*R*h
-    elif h < 0.0:
+    if h < 0.0:
         return 0.0
     elif h > D:
         h = D
+    if a == R:
+        return pi*R*h
 
     fact = (a*a + R*R)/abs(a)
     R2 = R*R
-- 
2.43.0


From 9097e3be9a3f153ff83e6acdbf108836c2d51a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:20 +0000
Subject: [PATCH 03/89] fix: TANK.h_from_V of an empty vertical tank with heads
 did not converge, so Chebyshev approximators could not be built

---
 fluids/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index a7f6409..36698a0 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3755,6 +3755,9 @@ class TANK:
                 self.set_chebyshev_approximators()
             return self.h_from_V_cheb(V)
         elif method == "brenth":
+            if V == 0.0:
+                # The solver's relative tolerance cannot be met at a level of zero
+                return 0.0
             to_solve = lambda h : self.V_from_h(h, method="full") - V
             return secant(to_solve, x0=0.5*self.h_max, low=0, high=self.h_max, bisection=True)
         else:
-- 
2.43.0


From f4ed220838573bc4ccdad9ecc0517a3f8700cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:31 +0000
Subject: [PATCH 04/89] fix: TANK.from_two_specs required h even when neither
 specification needs it

---
 fluids/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 36698a0..0d1c1c2 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3136,7 +3136,8 @@ def tank_from_two_specs_err(guess: list[float], spec0: float, spec1: float, spec
          sideA_f=sideA_f, sideA_k=sideA_k, sideB_f=sideB_f, sideB_k=sideB_k,
          sideA_a_ratio=sideA_a_ratio, sideB_a_ratio=sideB_a_ratio)
     # ensure h is always under the top
-    h = min(h, obj.h_max)
+    if h is not None:
+        h = min(h, obj.h_max)
 
     if spec0_name == "V":
         err0 = obj.V_total - spec0
-- 
2.43.0


From de45af4cabbf60666377aa0a98a02ae2b5bde752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:33 +0000
Subject: [PATCH 05/89] fix: TANK.h_from_V did not converge for a full vertical
 tank with a conical top head

---
 fluids/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 0d1c1c2..76c3e16 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3756,9 +3756,11 @@ class TANK:
                 self.set_chebyshev_approximators()
             return self.h_from_V_cheb(V)
         elif method == "brenth":
+            # The volume can be too flat for the solver at an empty or full vertical tank
             if V == 0.0:
-                # The solver's relative tolerance cannot be met at a level of zero
                 return 0.0
+            elif isclose(V, self.V_total, rel_tol=1e-13):
+                return self.h_max
             to_solve = lambda h : self.V_from_h(h, method="full") - V
             return secant(to_solve, x0=0.5*self.h_max, low=0, high=self.h_max, bisection=True)
         else:
-- 
2.43.0


From e4b974dc206ab85e1f3133ae5bf86ba53529f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:44 +0000
Subject: [PATCH 06/89] fix: TANK.add_thickness gave flat ends a head depth,
 shifting levels of vertical tanks

---
 fluids/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 76c3e16..f524f67 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3652,12 +3652,16 @@ class TANK:
         # parameters which are already functions of diameter, and so will be
         # fixed automatically; if the `a` parameters are specified they would
         # not be corrected
-        if self.sideA != "torispherical":
+        if self.sideA is None:
+            pass  # a flat end has no depth
+        elif self.sideA != "torispherical":
             kwargs["sideA_a"] += sideA_thickness
         else:
             del kwargs["sideA_a"]
 
-        if self.sideB != "torispherical":
+        if self.sideB is None:
+            pass  # a flat end has no depth
+        elif self.sideB != "torispherical":
             kwargs["sideB_a"] += sideB_thickness
         else:
             del kwargs["sideB_a"]
-- 
2.43.0


From da159eb06fc95f987035c7c47fd8f92a0821371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:49 +0000
Subject: [PATCH 07/89] fix: secant with bisection could return an unevaluated
 bisection point after converging

---
 fluids/numerics/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 6fc1589..4f6443f 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2901,11 +2901,6 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
         if high is not None and p > high:
             p = high
 
-        # After computing new point
-        if bisection and a is not None and b is not None:
-            if not (a < p < b) or (b < p < a):
-                # print('Bisecting')
-                p = 0.5*(a + b)
         # Check the exit conditions
         if ytol is not None and xtol is not None:
             # Meet both tolerance - new value is under ytol, and old value
@@ -2964,6 +2959,12 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                     # Cannot proceed, raise an error
                     raise SamePointError("Convergence failed - previous points are the same", q1=q1, p1=p1, q0=q0, p0=p0)
 
+        # Not converged - make sure the new point stays inside the bracket. This must follow
+        # the convergence checks, as they return the new point without evaluating it
+        if bisection and a is not None and b is not None:
+            if not (a < p < b) or (b < p < a):
+                # print('Bisecting')
+                p = 0.5*(a + b)
 
         # Swap the points around
         p0 = p1
-- 
2.43.0


From 5d566970dcda62bb8a53876262adb64ec271387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 08/89] fix: AirCooledExchanger refused pitch_ratio alone and
 ignored pitch when both were given

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index f524f67..eacf453 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4961,7 +4961,7 @@ class AirCooledExchanger:
         self.fan_diameter = fan_diameter
 
         if pitch_ratio is not None:
-            if pitch is not None:
+            if pitch is None:
                 pitch = self.tube_diameter*pitch_ratio
             else:
                 raise ValueError("Specify only one of `pitch_ratio` or `pitch`")
-- 
2.43.0


From 9cc423e4ec897d86729dd68b30eee676dbcbbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:12 +0000
Subject: [PATCH 09/89] fix: HelicalCoil accepted colliding tubes when
 specified by turns and pitch

---
 fluids/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index eacf453..3707860 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4063,6 +4063,8 @@ outer diameter={self.Dt} m, number of turns={self.N}, pitch={self.pitch} m"
             N_final: float = N
             pitch_final: float = pitch
             H_final: float = N*pitch
+            if pitch_final < self.Dt:
+                raise ValueError("Pitch is too small - tubes are colliding; pitch must be larger than tube diameter.")
         elif N is not None and H is not None:
             N_final = N
             H_final = H
-- 
2.43.0


From 98d1385c4e8b755f9bd69393e63917412b80bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:04 +0000
Subject: [PATCH 10/89] fix: isothermal critical pressure underflowed to zero
 for long pipes (fd*L/D above about 700)

---
 fluids/compressible.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 65c87e7..2c68407 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -560,6 +560,14 @@ def P_isothermal_critical_flow(P: float, fd: float, D: float, L: float) -> float
        2005.
     """
     # Correct branch of lambertw found by trial and error
+    C = L*fd/D
+    if C > 300.0:
+        # The argument to lambertw underflows; the equivalent fixed-point
+        # iteration for the square of the pressure ratio converges quickly
+        r = 1.0 + C
+        for _ in range(12):
+            r = 1.0 + C + log(r)
+        return P/sqrt(r)
     lambert_term = float((lambertw(-exp((-D - L*fd)/D), -1)).real)
     return P*exp((D*(lambert_term + 1.0) + L*fd)/(2.0*D))
 
@@ -573,8 +581,7 @@ def P_upstream_isothermal_critical_flow(P: float, fd: float, D: float, L: float)
     ... L=1000., D=0.5)
     1000000.00000
     """
-    lambertw_term = float(lambertw(-exp(-(fd*L+D)/D), -1).real)
-    return exp(-0.5*(D*lambertw_term+fd*L+D)/D)*P
+    return P*P/P_isothermal_critical_flow(P, fd, D, L)
 
 
 def is_critical_flow(P1: float, P2: float, k: float) -> bool:
-- 
2.43.0


From 08a5198958565a0aa47e62f88084e0f366cab7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:26 +0000
Subject: [PATCH 11/89] fix: isothermal_gas could not solve for the upstream
 pressure near choked flow because the critical pressure itself was refused

---
 fluids/compressible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 2c68407..d5614cf 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -72,7 +72,7 @@ Stagnation Point
 """
 from __future__ import annotations
 
-from math import exp, isinf, log, pi, sqrt
+from math import exp, isclose, isinf, log, pi, sqrt
 
 from fluids.constants import R
 from fluids.numerics import brenth, lambertw, secant  # type: ignore[attr-defined]
@@ -904,7 +904,7 @@ def isothermal_gas(rho: float, fd: float, P1: float | None=None, P2: float | Non
     """
     if m is None and P1 is not None and P2 is not None and L is not None and D is not None:
         Pcf = P_isothermal_critical_flow(P=P1, fd=fd, D=D, L=L)
-        if P2 < Pcf:
+        if P2 < Pcf and not isclose(P2, Pcf, rel_tol=1e-13):
             raise ValueError("Given outlet pressure is not physically possible " # numba: delete
 f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure was {P2:f}") # numba: delete
 #            raise ValueError("Not possible") # numba: uncomment
-- 
2.43.0


From 9e28a1dbb5141a05545349d6029f6bce03d6c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:44 +0000
Subject: [PATCH 12/89] fix: isothermal_gas could not solve for diameters from
 which the fixed starting diameter is out of range

---
 fluids/compressible.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index d5614cf..aee3458 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -970,7 +970,15 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             # It is believed Pcf and P1 will always bracket the root, however
             # leave the commented code for testing
     elif D is None and P2 is not None and P1 is not None and L is not None and m is not None:
-        return secant(isothermal_gas_err_D, 0.1, args=(m, rho, fd, P1, P2, L))
+        try:
+            return secant(isothermal_gas_err_D, 0.1, args=(m, rho, fd, P1, P2, L))
+        except:
+            # The search left the range of diameters without choked flow; solve between
+            # the diameter neglecting acceleration and that at which the flow chokes
+            r = P1*P1/(P2*P2)
+            D_low = (16.0*m*m*P1*fd*L/(pi*pi*rho*(P1*P1 - P2*P2)))**0.2
+            D_high = fd*L/(r - 1.0 - log(r))*(1.0 - 1e-9)
+            return brenth(isothermal_gas_err_D, D_low, D_high, args=(m, rho, fd, P1, P2, L))
     else:
         raise ValueError("This function solves for either mass flow, upstream \
 pressure, downstream pressure, diameter, or length; all other inputs \
-- 
2.43.0


From e9d34eb49fb552b14e9c445103e72f8f47bb530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:39 +0000
Subject: [PATCH 13/89] fix: exact Colebrook solution lost precision for rough
 pipes at high Re from a rounded constant

---
 fluids/friction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/friction.py b/fluids/friction.py
index c6fa5a6..d57e235 100644
--- a/fluids/friction.py
+++ b/fluids/friction.py
@@ -444,7 +444,7 @@ def Colebrook(Re: float, eD: float, tol: float | None=None) -> float:
         eD_Re = mpf(eD)*Re
         sub = 1/mpf("6.3001")*10**(1/mpf("9.287")*eD_Re)*Re*Re
         lambert_term = mp_lambertw(log(sqrtmp(10))*sqrtmp(sub))
-        den = log(10)*eD_Re - 18.574*lambert_term
+        den = log(10)*eD_Re - mpf("18.574")*lambert_term
         return float(log(10)**2*mpf("3.7")**2*mpf("2.51")**2/(den*den))
     if tol is None:
         try:
-- 
2.43.0


From 619cd1c3564b596cd563f42cde80d4e19dc93645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:27 +0000
Subject: [PATCH 14/89] fix: bend_rounded with method Crane refused a bend
 radius other than five diameters

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 9b2247a..f367ebc 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1511,7 +1511,7 @@ def bend_rounded(Di: float, angle: float, fd: float | None=None, rc: float | Non
         bend_diameters2 = bend_diameters
         rc = Di*bend_diameters2
     else:
-        bend_diameters2 = bend_diameters if bend_diameters is not None else 5.0
+        bend_diameters2 = bend_diameters if bend_diameters is not None else rc/Di
 
     if method == "Rennels":
         angle = radians(angle)
-- 
2.43.0


From 8b351ecc2c4f90f4912c330bf62a3359f9829abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:27 +0000
Subject: [PATCH 15/89] fix: K_tilting_disk_check_valve_Crane at 15 degrees
 switched size class at the limit instead of above it

---
 fluids/fittings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index f367ebc..c511493 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -4078,10 +4078,10 @@ def K_tilting_disk_check_valve_Crane(D: float, angle: float, fd: float | None=No
             return 20*fd
     else:
         # 15 degree case
-        if D < 0.2286:
+        if D <= 0.2286:
             # 2-8 inches
             return 120*fd
-        elif D < 0.381:
+        elif D <= 0.381:
             # 10-14 inches
             return 90*fd
         else:
-- 
2.43.0


From 9a696fb3bde2679ce85c5ef60033c112c85c83a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:53 +0000
Subject: [PATCH 16/89] fix: diffuser_conical_Crane returned a negative loss
 when the length is given

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index c511493..a868cd4 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -2628,7 +2628,7 @@ def diffuser_conical_Crane(Di1, Di2, l=None, angle=None):
         angle_deg = angle
     elif l is not None:
         if l != 0.0:
-            angle_rad = 2.0*atan((Di1-Di2)/(2.0*l))
+            angle_rad = 2.0*atan((Di2-Di1)/(2.0*l))
             angle_deg = degrees(angle_rad)
         else:
             angle_rad = pi
-- 
2.43.0


From c92310a3655e90eefa644ed51383889cab1df0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:19 +0000
Subject: [PATCH 17/89] fix: nozzle_expansibility ignored a given beta at k = 1

---
 fluids/flow_meter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 3893cab..417fa42 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -1440,8 +1440,8 @@ def nozzle_expansibility(D: float, Do: float, P1: float, P2: float, k: float, be
         val= sqrt(term1*term2*term3)
         print(simplify(limit((term1*term2*term3), k, 1)))
         """
-        limit_val = (P1*P2**2*(-D**4 + Do**4)*log(P2/P1)/(D**4*P1**3
-                    - D**4*P1**2*P2 - Do**4*P1*P2**2 + Do**4*P2**3))
+        limit_val = (P1*P2**2*(beta4 - 1.0)*log(P2/P1)/(P1**3
+                    - P1**2*P2 - beta4*P1*P2**2 + beta4*P2**3))
         return sqrt(limit_val)
 
     term1 = k*tau**(2.0/k)/(k - 1.0)
-- 
2.43.0


From d203760789877003efe5a176985a200e10755c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:48 +0000
Subject: [PATCH 18/89] fix: size_control_valve_l raised NameError instead of
 answering when the piping iteration does not converge

---
 fluids/control_valve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 5583536..30a6e7e 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -742,7 +742,7 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
                     C = Q/N1/FP*sqrt(rho/rho0/dP)
                 if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
                     C = iterate_piping_turbulent_l(C, iterations+1)
-                if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
+                if full_output and (MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE):
                     ans["warning"] = "Not converged in inner loop"
                 if full_output:
                     ans["FLP"] = FLP
-- 
2.43.0


From 954172cd592a89e9273384167153925ab2537f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:49 +0000
Subject: [PATCH 19/89] fix: control valve sizing ignored allow_choked=False
 once reducers are attached

---
 fluids/control_valve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 30a6e7e..2407b1f 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -734,7 +734,7 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
 
                 FLP = FL*1.0/sqrt(1 + FL**2/N2*loss_upstream*(Ci/d**2)**2)
                 choked = is_choked_turbulent_l(dP, P1, Psat, FF, FLP=FLP, FP=FP)
-                if choked:
+                if choked and allow_choked:
                     # Choked flow with piping, equation 4
                     C = Q/N1/FLP*sqrt(rho/rho0/(P1-FF*Psat))
                 else:
@@ -931,7 +931,7 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
                 loss_upstream = loss_coefficient_piping(d, D1)
                 xTP = xT/FP**2/(1 + xT*loss_upstream/N5*(Ci/d**2)**2)
                 choked = is_choked_turbulent_g(x, Fgamma, xTP=xTP)
-                if choked:
+                if choked and allow_choked:
                     # Choked flow with piping, equation 17a
                     C = Q/(N9*FP*P1*Y)*sqrt(MW*T*Z/xTP/Fgamma)
                 else:
-- 
2.43.0


From 66b13f027d2562791ef9ccc0943fb558c0b95e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:00 +0000
Subject: [PATCH 20/89] fix: API520_A_l with neither Kv nor mu given raised
 TypeError; apply no viscosity correction

---
 fluids/safety_valve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/safety_valve.py b/fluids/safety_valve.py
index 91c727a..c98cb47 100644
--- a/fluids/safety_valve.py
+++ b/fluids/safety_valve.py
@@ -1084,6 +1084,8 @@ def API520_A_l(m, rho, P1, P2, overpressure, Kd=0.65, Kc=1.0,
         v = (Q/60000.0)/A0
         Re = rho*v*D/mu
         Kv = API520_Kv(Re, edition)
+    elif Kv is None:
+        Kv = 1.0 # No viscosity correction
     P1 = P1*1e-3 # Pa to kPa
     P2 = P2*1e-3 # Pa to kPa
     A = 11.78*Q*sqrt(G1/(P1-P2))/(Kd*Kw*Kc*Kv)
-- 
2.43.0


From 0abdfe3d1119d805972178fd0c3ace90b2d9ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 21/89] fix: v_terminal finds the balance at high Reynolds
 numbers, where the secant steps left the range of the drag correlations

---
 fluids/drag.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fluids/drag.py b/fluids/drag.py
index 5d4ec18..1f40b0a 100644
--- a/fluids/drag.py
+++ b/fluids/drag.py
@@ -67,7 +67,7 @@ from math import exp, log, log10, sqrt, tanh
 
 from fluids.constants import g
 from fluids.core import Reynolds
-from fluids.numerics import cumulative_trapezoid, secant
+from fluids.numerics import brenth, cumulative_trapezoid, secant
 
 __all__: list[str] = [
     "Almedeij",
@@ -1371,6 +1371,13 @@ def v_terminal(D: float, rhop: float, rho: float, mu: float, Method: str | None=
 
     # Begin the solver with 1/100 th the velocity possible at the maximum
     # Reynolds number the correlation is good for
+    # Prefer a bounded solution; the steps of the secant method can leave the
+    # range where the drag correlations are defined
+    V_low, V_high = 0.5*min(Re_lam, 1.0)/Re_almost, min(1.1*v_lam, 0.98*V_max)
+    err_low = _v_terminal_err(V_low, Method, Re_almost, main)
+    err_high = _v_terminal_err(V_high, Method, Re_almost, main)
+    if err_low < 0.0 and err_high > 0.0:
+        return brenth(_v_terminal_err, V_low, V_high, xtol=1E-12, args=(Method, Re_almost, main))
     return secant(_v_terminal_err, V_max*1e-2, xtol=1E-12, args=(Method, Re_almost, main))
 
 
-- 
2.43.0


From 98554abe6546c269f91885ebbc14a7e81af6420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 22/89] fix: nearest_pipe returns the exact size for a
 tabulated diameter, without being misled by the conversion to mm

---
 fluids/piping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index 10a27f5..3857176 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -728,9 +728,9 @@ def nearest_pipe(Do: float | None=None, Di: float | None=None, NPS: int | None=N
        Line Pipe." ASTM International. https://doi.org/10.1520/F2619_F2619M-20.
     """
     if Di is not None:
-        Di *= 1E3
+        Di = round(Di*1E3, 9) # m to mm, without the rounding error
     if Do is not None:
-        Do *= 1E3
+        Do = round(Do*1E3, 9)
 
     # If accidentally given an numerical schedule, convert it to a string
     if isinstance(schedule, (int, float)):
-- 
2.43.0


From f7e634d0b7cbf13da6fc9d2b86a1c68e30466b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 23/89] fix: Gates-Gaudin-Schuhman distribution in another
 basis: no division by zero at d=0, no mass above the characteristic diameter

---
 fluids/particle_size_distribution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index cdd0d91..9231d92 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -912,6 +912,11 @@ def pdf_Gates_Gaudin_Schuhman_basis_integral(d: float, d_characteristic: float,
     >>> pdf_Gates_Gaudin_Schuhman_basis_integral(d=2E-4, d_characteristic=1E-3, m=2.3, n=-3)
     -10136984887.543015
     """
+    if d > d_characteristic:
+        # No particles are larger than the characteristic diameter
+        d = d_characteristic
+    elif d == 0.0 and m + n > 0.0:
+        return 0.0
     return m/(m+n)*d**n*(d/d_characteristic)**m
 
 
-- 
2.43.0


From b4572de61fb10c9fdeed457ca3320a852a302355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 24/89] fix: truncated particle size distributions are
 normalised in the requested basis

---
 fluids/particle_size_distribution.py | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 9231d92..fb3a7f9 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1312,14 +1312,15 @@ class ParticleSizeDistributionContinuous:
         if n is not None and n != self.order:
             power = n - self.order
             numerator = d**power*ans
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            d_min = self.d_min if self.truncated else 0.0
+            denominator = self._pdf_basis_integral_definite(d_min=d_min, d_max=self.d_excessive, n=power)
             ans = numerator/denominator
+        elif self.truncated:
+            ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
         # Handle splines which might go below zero
         ans = max(ans, 0.0)
-        if self.truncated:
-            if d < self.d_min or d > self.d_max:
-                return 0.0
-            ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
+        if self.truncated and (d < self.d_min or d > self.d_max):
+            return 0.0
         return ans
 
     def cdf(self, d: float, n: float | None=None) -> float:
@@ -1357,22 +1358,24 @@ class ParticleSizeDistributionContinuous:
         >>> [psd.cdf(5e-6, n) for n in range(4)]
         [0.933192798731, 0.8413447460685, 0.6914624612740, 0.5]
         """
+        if self.truncated:
+            if d <= self.d_min:
+                return 0.0
+            elif d >= self.d_max:
+                return 1.0
         if n is not None and n != self.order:
             power = n - self.order
+            d_min = self.d_min if self.truncated else 0.0
             # One of the pdf_basis_integral calls could be saved except for
             # support for numerical integrals
-            numerator = self._pdf_basis_integral_definite(d_min=0.0, d_max=d, n=power)
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            numerator = self._pdf_basis_integral_definite(d_min=d_min, d_max=d, n=power)
+            denominator = self._pdf_basis_integral_definite(d_min=d_min, d_max=self.d_excessive, n=power)
             ans =  max(numerator/denominator, 0.0)
         # Handle splines which might go below zero
         else:
             ans = max(self._cdf(d=d), 0.0)
-        if self.truncated:
-            if d <= self.d_min:
-                return 0.0
-            elif d >= self.d_max:
-                return 1.0
-            ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
+            if self.truncated:
+                ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
         return ans
 
     def delta_cdf(self, d_min, d_max, n=None):
-- 
2.43.0


From 7a389fa2f7d02b3eab868d8c17e5faf1532f1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 25/89] fix: PSDGatesGaudinSchuhman accepts d_max

---
 fluids/particle_size_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index fb3a7f9..5b00f36 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2140,7 +2140,7 @@ class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
 
         if d_max is not None:
             # PDF above this is zero
-            self.d_excessive = self.d_max
+            self.d_excessive = d_max
         else:
             self.d_excessive = self.d_characteristic
         if d_min is not None:
-- 
2.43.0


From 83bfde61c758a5dee672116dea1dd6dc25f119c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 26/89] fix: PSDInterpolated caches basis integrals by the
 exact exponent

---
 fluids/particle_size_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 5b00f36..e173c47 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2359,6 +2359,6 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             basis_integral = ds**float(n)*pdf_vals
             if self.monotonic:
                 from scipy.interpolate import PchipInterpolator
-                self.basis_integrals[int(n)] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
-        return max(float(self.basis_integrals[int(n)](d)), 0.0)
+                self.basis_integrals[n] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
+        return max(float(self.basis_integrals[n](d)), 0.0)
 
-- 
2.43.0


From ef77dfec1ff770a3377efb199d64b7abba64d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 27/89] fix: v_terminal is solved to a relative tolerance

---
 fluids/drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/drag.py b/fluids/drag.py
index 1f40b0a..3b4cfd5 100644
--- a/fluids/drag.py
+++ b/fluids/drag.py
@@ -1377,7 +1377,7 @@ def v_terminal(D: float, rhop: float, rho: float, mu: float, Method: str | None=
     err_low = _v_terminal_err(V_low, Method, Re_almost, main)
     err_high = _v_terminal_err(V_high, Method, Re_almost, main)
     if err_low < 0.0 and err_high > 0.0:
-        return brenth(_v_terminal_err, V_low, V_high, xtol=1E-12, args=(Method, Re_almost, main))
+        return brenth(_v_terminal_err, V_low, V_high, xtol=1E-12*V_low, args=(Method, Re_almost, main))
     return secant(_v_terminal_err, V_max*1e-2, xtol=1E-12, args=(Method, Re_almost, main))
 
 
-- 
2.43.0


From 255bf5cf71cc2441c28057bda0ae61f0a2f1d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 28/89] fix: ParticleSizeDistribution moments of power -1 with
 size classes divided by zero

---
 fluids/particle_size_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index e173c47..e9030d0 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2005,6 +2005,9 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
         """
         if self.size_classes:
             rt = power + 1
+            if rt == 0:
+                # The limit of the formula below
+                return log(self.ds[i+1]/self.ds[i])/(self.ds[i+1] - self.ds[i])
             return ((self.ds[i+1]**rt - self.ds[i]**rt)/((self.ds[i+1] - self.ds[i])*rt))
         else:
             return self.ds[i]**power
-- 
2.43.0


From 95eac01a343177f4524eaddb4fdefe3633c0b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 29/89] fix: discrete particle size distributions have no
 particles below the smallest or above the largest diameter

---
 fluids/particle_size_distribution.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index e9030d0..172631a 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2342,12 +2342,16 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
 
 
     def _pdf(self, d: float) -> float:
+        if d < self.ds[0] or d > self.d_excessive:
+            return 0.0
         return max(0.0, float(self.pdf_spline(d)))
 
     def _cdf(self, d: float) -> float:
         if d > self.d_excessive:
             # Handle spline values past 1 that decrease to zero
             return 1.0
+        elif d < self.ds[0]:
+            return 0.0
         return max(0.0, float(self.cdf_spline(d)))
 
     def _pdf_basis_integral(self, d: float, n: float) -> float:
@@ -2363,5 +2367,7 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             if self.monotonic:
                 from scipy.interpolate import PchipInterpolator
                 self.basis_integrals[n] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
+        # There are no particles outside of the range of diameters
+        d = min(max(d, self.ds[0]), self.d_excessive)
         return max(float(self.basis_integrals[n](d)), 0.0)
 
-- 
2.43.0


From 0e5dcae5b660d44ce3bc6bc876a25957fa5d3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 30/89] fix: pdf_Rosin_Rammler_basis_integral underflowed at
 small diameters, giving wrong moments

---
 fluids/particle_size_distribution.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 172631a..dc63116 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1047,16 +1047,11 @@ def pdf_Rosin_Rammler_basis_integral(d: float, k: float, m: float, n: float) ->
     >>> "{:g}".format(pdf_Rosin_Rammler_basis_integral(5E-2, 200, 2, 3))
     '-0.000452399'
     """
-    # Also not able to compute the limit for d approaching 0.
-    try:
-        a = (m + n)/m
-        x = d**m*k
-        t1 = float(gamma(a))*float(gammaincc(a, x))
-        return (-d**(m+n)*k*(d**m*k)**(-a))*t1
-    except (OverflowError, ZeroDivisionError) as e:
-        if d == 1E-40:
-            raise e
-        return pdf_Rosin_Rammler_basis_integral(1E-40, k, m, n)
+    a = (m + n)/m
+    x = d**m*k
+    # d**(m+n)*k*(d**m*k)**(-a) is k**(-n/m) for every d, including the limit of d = 0
+    t1 = float(gamma(a))*float(gammaincc(a, x))
+    return -k**(-n/m)*t1
 
 
 names = {0: "Number distribution", 1: "Length distribution",
-- 
2.43.0


From 4760dc118ebdc066d87bcccb1c5ec976912fcec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:12 +0000
Subject: [PATCH 31/89] fix: PSDCustom moments of small particles were below
 the absolute tolerance of the quadrature

---
 fluids/particle_size_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index dc63116..c8590f6 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2296,7 +2296,7 @@ class PSDCustom(ParticleSizeDistributionContinuous):
 
         # points = logspace(log10(max(d_max*1e-3, d_min)), log10(d_max*.999), 40)
         points = [d_max*1e-3] # d_min*.999 d_min
-        return float(quad(to_int, d_min, d_max, points=points, epsrel=1e-11)[0])
+        return float(quad(to_int, d_min, d_max, points=points, epsrel=1e-11, epsabs=0.0)[0])
 
 
 class PSDInterpolated(ParticleSizeDistributionContinuous):
-- 
2.43.0


From 954c36244fbf0eaafda780fd217e1676aa4bdb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 32/89] fix: Stichlmair_flood scales its initial pressure drop
 guess with the bed height

---
 fluids/packed_tower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/packed_tower.py b/fluids/packed_tower.py
index e4b57d2..e9b4a3a 100644
--- a/fluids/packed_tower.py
+++ b/fluids/packed_tower.py
@@ -749,7 +749,7 @@ def Stichlmair_flood(Vl: float, rhog: float, rhol: float, mug: float, voidage: f
     """
     guess = [0.0]*2
     guess[0] = Vl*100.0
-    guess[1] = 1000.0
+    guess[1] = 1000.0*H
     return newton_system(_Stichlmair_flood_f_and_jac, x0=guess, jac=True,
                          args=(Vl, rhog, rhol, mug, voidage, specific_area, C1,
                          C2, C3, H), ytol=1e-11, solve_func=solve_2_direct)[0][0]
-- 
2.43.0


From 1e9cf2a3c684cc054724adb46e4dec81855e98cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 33/89] fix: Lockhart_Martinelli returns the liquid-only
 pressure drop at zero quality

---
 fluids/two_phase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluids/two_phase.py b/fluids/two_phase.py
index 1d7c92c..37c50db 100644
--- a/fluids/two_phase.py
+++ b/fluids/two_phase.py
@@ -2304,14 +2304,16 @@ def Lockhart_Martinelli(m: float, x: float, rhol: float, rhog: float, mul: float
     # Friction factor as in the original model
     x_only_liquid_tol = 1e-30
     x_only_vapor_tol = 1e-13
+    if x < x_only_liquid_tol:
+        # Without gas Re_g is zero and its friction factor is undefined
+        fd_l =  64./Re_l if Re_l < Re_c else 0.184*Re_l**-0.2
+        return fd_l*L/D*(0.5*rhol*v_l*v_l)
     fd_g =  64./Re_g if Re_g < Re_c else 0.184*Re_g**-0.2
     dP_g = fd_g*L/D*(0.5*rhog*v_g**2)
     if x > 1.0 - x_only_vapor_tol:
         return dP_g
     fd_l =  64./Re_l if Re_l < Re_c else 0.184*Re_l**-0.2
     dP_l = fd_l*L/D*(0.5*rhol*v_l*v_l)
-    if x < x_only_liquid_tol:
-        return dP_l
 
     X = sqrt(dP_l/dP_g)
 
-- 
2.43.0


From f589ebe8cf042dbd2e6c8e078b1e5edf2c4f01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:54 +0000
Subject: [PATCH 34/89] fix: size_tee uses 1.33, not 1/33, for a single jet
 above B=0.7

---
 fluids/mixing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/mixing.py b/fluids/mixing.py
index d5ab3f4..939bd0f 100644
--- a/fluids/mixing.py
+++ b/fluids/mixing.py
@@ -300,7 +300,7 @@ def size_tee(Q1: float, Q2: float, D: float, D2: float | None, n: int=1, pipe_di
         if B < 0.7:
             E = 1.33
         else:
-            E = 1/33. + 0.95*log(B/0.7)
+            E = 1.33 + 0.95*log(B/0.7)
     elif n == 2:
         if B < 0.8:
             E = 1.44
-- 
2.43.0


From 3656414d32b973f2bc5dcecac2e2d8be2ebabfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:54 +0000
Subject: [PATCH 35/89] fix: liquid_jet_pump pressure ratio of a retracted
 nozzle uses (1 + Ks) as documented

---
 fluids/jet_pump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index a22c2e7..613ced5 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -220,7 +220,7 @@ def liquid_jet_pump_pressure_ratio(rhop, rhos, Km, Kd, Ks, Kp,
 
     den = (1.0 + Kp) - 2.0*R - 2.0*C*M2*R2/(1.0 - R)
     den += R2*(1.0 + C*M)*(1.0 + M)*(1.0 + Km + Kd + alpha2)
-    den += (1.0 - j)*(C*M2/((1.0 - R)/R)**2)*(1.0 - Ks)
+    den += (1.0 - j)*(C*M2/((1.0 - R)/R)**2)*(1.0 + Ks)
     N = num/den
     if P1 is None:
         P1 = (-P2 + P5*N + P5)/N
-- 
2.43.0


From 0dea994d8b34149e68ab834e6374f5627f85b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:32 +0000
Subject: [PATCH 36/89] fix: liquid_jet_pump_ancillary searches mixing
 diameters above the nozzle's only

---
 fluids/jet_pump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index 613ced5..e2968c5 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -190,7 +190,8 @@ def liquid_jet_pump_ancillary(rhop: float, rhos: float, Kp: float, Ks: float, d_
             return P1 - liquid_jet_pump_ancillary(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks, d_nozzle=d_nozzle, d_mixing=d_mixing, Qp=Qp, Qs=Qs,
                               P1=None, P2=P2)
         try:
-            return brenth(err, 1E-9, d_nozzle*20)
+            # The mixing chamber must be larger than the nozzle
+            return brenth(err, d_nozzle*(1.0 + 1e-9), d_nozzle*20)
         except:
             return secant(err, d_nozzle*2)
     else:
-- 
2.43.0


From 28c0da725799b75ffbc78da41858fdf1dc74e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 37/89] fix: best_bounding_bounds compares the negative history
 with the high bound

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 4f6443f..98fd807 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2631,7 +2631,7 @@ def best_bounding_bounds(low, high, f=None, xs_pos=None, ys_pos=None,
             if y_min_neg > fa:
                 fa, low = y_min_neg, x_min_neg
         else:
-            if y_min_pos > fb:
+            if y_min_neg > fb:
                 fb, high = y_min_neg, x_min_neg
 
     if fa*fb > 0:
-- 
2.43.0


From 01a146e3c2b3486df593ac4e4c2d9a5048bb76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 38/89] fix: ridder rtol on negative roots

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 98fd807..aa1836b 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2707,7 +2707,7 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         else:
             a = xn
             fa = fn
-        tol = xtol + rtol*xn
+        tol = xtol + rtol*fabs(xn)
         if (fn == 0.0 or fabs(b - a) < tol):
             return xn
     raise UnconvergedError(f"Failed to converge after {maxiter} iterations") # numba: delete
-- 
2.43.0


From 33ccb8fbd3b723ca07092bb355d356bc9375e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 39/89] fix: brenth leaves its bracket and stalls when ytol is
 not met within xtol

---
 fluids/numerics/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index aa1836b..a2fc8e5 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2796,6 +2796,9 @@ def brenth(f, xa, xb, args=(),
         fpre = fcur
         if abs(scur) > delta:
             xcur += scur
+        elif abs(sbis) < delta:
+            # Only reached when `ytol` is not met yet; stay inside the bracket
+            xcur += sbis
         else:
             if sbis > 0.0:
                 xcur += delta
-- 
2.43.0


From 3a79be36bc0781257ff929421b6058de35c077a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 40/89] fix: secant additional guesses respect low and high

---
 fluids/numerics/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index a2fc8e5..90ad679 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2957,6 +2957,11 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                             # print('Bisected the problem, restarting with new point')
                             break
 
+                    # The last guess tried may have been outside the limits
+                    if low is not None and p < low:
+                        p = low
+                    if high is not None and p > high:
+                        p = high
                     did_additional_guesses = True
                 else:
                     # Cannot proceed, raise an error
-- 
2.43.0


From 39e7f9d985da27424694a58e90abe64c68a669f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 41/89] fix: halley passes kwargs to the function

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 90ad679..093bbef 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3372,7 +3372,7 @@ def halley(func, x0, args=(), maxiter=100,
     hit_low, hit_high = 0, 0
 
     for it in range(maxiter):
-        fval, fder, fder2 = func(p0, *args)
+        fval, fder, fder2 = func(p0, *args, **kwargs)
         if fval == 0.0:
             return p0 # Cannot continue or already finished
         elif fder == 0.0:
-- 
2.43.0


From 809f2b559f60eb0a574a236adf535e4bd7ded395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 42/89] fix: newton and halley returned a bound they were held
 at as a root

---
 fluids/numerics/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 093bbef..c3ccc87 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3313,6 +3313,7 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
 #                    if p > b:
 #                        p = 0.5*(a + b)
 
+        p_unbounded = p
         if low is not None and p < low:
             hit_low += 1
             if p0 == low and hit_low > max_bound_hits:
@@ -3342,7 +3343,7 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
                     return p0
                 return p
         elif xtol is not None:
-            if abs(p - p0) < abs(xtol*p):
+            if abs(p_unbounded - p0) < abs(xtol*p):
                 if require_eval:
                     return p0
                 return p
@@ -3408,10 +3409,11 @@ def halley(func, x0, args=(), maxiter=100,
             if (not (a < p < b) and not (b < p < a)):
                 p = 0.5*(a + b)
 
+        p_unbounded = p
         if low is not None and p < low:
             hit_low += 1
             if p0 == low and hit_low > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return low
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
@@ -3420,7 +3422,7 @@ def halley(func, x0, args=(), maxiter=100,
         if high is not None and p > high:
             hit_high += 1
             if p0 == high and hit_high > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return high
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
@@ -3438,7 +3440,7 @@ def halley(func, x0, args=(), maxiter=100,
                         return p0
                     return p
             elif xtol is not None:
-                if abs(p - p0) < abs(xtol*p):
+                if abs(p_unbounded - p0) < abs(xtol*p):
                     if require_eval:
                         return p0
                     return p
-- 
2.43.0


From 4c967851ef86ee157bf163e2f2658ea17f18b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:31 +0000
Subject: [PATCH 43/89] fix: det of a 1x1 matrix is its element, not a list

---
 fluids/numerics/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/arrays.py b/fluids/numerics/arrays.py
index 9c8a329..329e8cb 100644
--- a/fluids/numerics/arrays.py
+++ b/fluids/numerics/arrays.py
@@ -152,7 +152,7 @@ def det(matrix):
     """
     size = len(matrix)
     if size == 1:
-        return matrix[0]
+        return matrix[0][0]
     elif size == 2:
         (a, b), (c, d) = matrix
         return a*d - c*b
-- 
2.43.0


From cc4b5cfd20aebcb6078d264ab564982846f1073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 44/89] fix: julian_day_dt counted microseconds as seconds

---
 fluids/optional/spa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/optional/spa.py b/fluids/optional/spa.py
index b1ab2bd..4f44cf2 100644
--- a/fluids/optional/spa.py
+++ b/fluids/optional/spa.py
@@ -393,7 +393,7 @@ def julian_day_dt(year, month, day, hour, minute, second, microsecond):
         month = month+12
     a = int(year/100)
     b = 2 - a + int(a * 0.25)
-    frac_of_day = (microsecond + (second + minute * 60 + hour * 3600)
+    frac_of_day = (microsecond*1e-6 + (second + minute * 60 + hour * 3600)
                    ) * 1.0 / (3600*24)
     d = day + frac_of_day
     jd = (int(365.25 * (year + 4716)) + int(30.6001 * (month + 1)) + d +
-- 
2.43.0


From 1920da276949bb59a3fcd06f4b22f95f3a667d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 45/89] fix: earthsun_distance took the month of a zoned moment
 in local time

---
 fluids/atmosphere.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/atmosphere.py b/fluids/atmosphere.py
index dc8e3f7..887e480 100644
--- a/fluids/atmosphere.py
+++ b/fluids/atmosphere.py
@@ -648,9 +648,10 @@ def earthsun_distance(moment: datetime.datetime) -> float:
        577-89. https://doi.org/10.1016/j.solener.2003.12.003.
     """
     from fluids.optional import spa
-    delta_t = spa.calculate_deltat(moment.year, moment.month)
     import calendar
-    unixtime = calendar.timegm(moment.utctimetuple())
+    tt = moment.utctimetuple()
+    delta_t = spa.calculate_deltat(tt.tm_year, tt.tm_mon)
+    unixtime = calendar.timegm(tt)
     # Convert datetime object to unixtime
     return spa.earthsun_distance(unixtime, delta_t=delta_t)*au
 
-- 
2.43.0


From 8c1f4ee35c23b107de8b361a8563eff85ecc8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 46/89] fix: sunrise_sunset raised ValueError for zoneinfo and
 datetime.timezone zones

---
 fluids/atmosphere.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/fluids/atmosphere.py b/fluids/atmosphere.py
index 887e480..13f878a 100644
--- a/fluids/atmosphere.py
+++ b/fluids/atmosphere.py
@@ -870,14 +870,18 @@ def sunrise_sunset(moment: datetime.datetime, latitude: float, longitude: float)
     unixtime = unixtime - unixtime % (86400) # Remove the remainder of the value, rounding it to the day it is
     transit, sunrise, sunset = spa.transit_sunrise_sunset(unixtime, lat=latitude, lon=longitude, delta_t=delta_t)
 
-    transit = datetime.datetime.fromtimestamp(transit, datetime.timezone.utc).replace(tzinfo=None)
-    sunrise = datetime.datetime.fromtimestamp(sunrise, datetime.timezone.utc).replace(tzinfo=None)
-    sunset = datetime.datetime.fromtimestamp(sunset, datetime.timezone.utc).replace(tzinfo=None)
+    transit = datetime.datetime.fromtimestamp(transit, datetime.timezone.utc)
+    sunrise = datetime.datetime.fromtimestamp(sunrise, datetime.timezone.utc)
+    sunset = datetime.datetime.fromtimestamp(sunset, datetime.timezone.utc)
 
     if moment.tzinfo is not None:
-        sunrise = moment.tzinfo.fromutc(sunrise)
-        sunset = moment.tzinfo.fromutc(sunset)
-        transit = moment.tzinfo.fromutc(transit)
+        sunrise = sunrise.astimezone(moment.tzinfo)
+        sunset = sunset.astimezone(moment.tzinfo)
+        transit = transit.astimezone(moment.tzinfo)
+    else:
+        sunrise = sunrise.replace(tzinfo=None)
+        sunset = sunset.replace(tzinfo=None)
+        transit = transit.replace(tzinfo=None)
     return sunrise, sunset, transit
 
 
-- 
2.43.0


From f4b858124a8c7a1b271402feed910ec6ca4cdeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 47/89] fix: angle of incidence failed for a surface facing the
 sun exactly

---
 fluids/optional/irradiance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/optional/irradiance.py b/fluids/optional/irradiance.py
index 89bedb1..601b06f 100644
--- a/fluids/optional/irradiance.py
+++ b/fluids/optional/irradiance.py
@@ -60,6 +60,8 @@ def aoi_projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
 def aoi(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
     projection = aoi_projection(surface_tilt, surface_azimuth,
                                 solar_zenith, solar_azimuth)
+    # Rounding can take the projection just past 1 for a surface facing the sun
+    projection = min(1.0, max(-1.0, projection))
     aoi_value = degrees(acos(projection))
     return aoi_value
 
-- 
2.43.0


From cf791e5852c99149e22a5cbc5e8378fe3059fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 48/89] fix: float results returned as int truncated the other
 elements of a vectorized call

---
 fluids/control_valve.py | 4 ++--
 fluids/fittings.py      | 4 ++--
 fluids/pump.py          | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 2407b1f..6fc0987 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -597,7 +597,7 @@ def Reynolds_factor(FL: float, C: float, d: float, Rev: float, full_trim: bool=T
     else:
         n2 = 1 + N32*(C/d**2)**(2/3.)
         FR_3a = 1 + (0.33*sqrt(FL))/sqrt(sqrt(n2))*log10(Rev/10000.)
-        FR_4 = min(0.026/FL*sqrt(n2*Rev), 1)
+        FR_4 = min(0.026/FL*sqrt(n2*Rev), 1.0)
         if Rev < 10:
             FR = FR_4
         else:
@@ -1013,7 +1013,7 @@ opening_quick_tck = implementation_optimize_tck([[0.0, 0.0, 0.0, 0.0, 0.02184, 0
 Cv_char_quick_opening = lambda opening: float(splev(opening, opening_quick_tck))
 
 opening_linear = [0., 1.0]
-frac_CV_linear = [0, 1]
+frac_CV_linear = [0.0, 1.0]
 Cv_char_linear = lambda opening: interp(opening, opening_linear, frac_CV_linear)
 
 # Equal opening valve data, spline fit, and interpolating function
diff --git a/fluids/fittings.py b/fluids/fittings.py
index a868cd4..fe4de43 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -2235,7 +2235,7 @@ contraction_conical_Miller_tck = implementation_optimize_tck([
         0.04434507143623664, 0.03331958878624311, 0.01854072032522763, 0.027553821071285824, 0.045426686375783926],
     3, 1])
 
-contraction_conical_Miller_obj = lambda l_r2, A_ratio: max(min(float(bisplev(log(l_r2), log(A_ratio), contraction_conical_Miller_tck)), .5), 0)
+contraction_conical_Miller_obj = lambda l_r2, A_ratio: max(min(float(bisplev(log(l_r2), log(A_ratio), contraction_conical_Miller_tck)), .5), 0.0)
 
 contraction_conical_methods = ["Rennels", "Idelchik", "Crane", "Swamee",
                                "Blevins", "Miller", "Hooper"]
@@ -2923,7 +2923,7 @@ def diffuser_conical(Di1: float, Di2: float, l: float | None=None, angle: float
             l_R1_ratio = 0.1
         elif l_R1_ratio > 20.0:
             l_R1_ratio = 20.0
-        Kd = max(float(bisplev(log(l_R1_ratio), log(A_ratio), tck_diffuser_conical_Miller)), 0)
+        Kd = max(float(bisplev(log(l_R1_ratio), log(A_ratio), tck_diffuser_conical_Miller)), 0.0)
         return Kd
     elif method == "Idelchik":
         A_ratio = beta2
diff --git a/fluids/pump.py b/fluids/pump.py
index d3a4134..c7cbcc0 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -489,7 +489,7 @@ def motor_efficiency_underloaded(P: float, load: float=0.5) -> float:
     else:
         i = 5
     if load > _efficiency_ones[i]:
-        return 1
+        return 1.0
     else:
         cs = _efficiency_lists[i]
         return cs[0] + cs[1]*load + cs[2]*load**2 + cs[3]*load**3 + cs[4]*load**4
-- 
2.43.0


From e0c2730a09a7e988f0dca5406e5602e5356e0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 49/89] fix: Almedeij and Kv_to_K failed for arrays of integers

---
 fluids/drag.py     | 2 +-
 fluids/fittings.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/drag.py b/fluids/drag.py
index 3b4cfd5..2919031 100644
--- a/fluids/drag.py
+++ b/fluids/drag.py
@@ -1038,7 +1038,7 @@ def Almedeij(Re: float) -> float:
     phi4 = ((6E-17*Re**2.63)**-10 + 0.2**-10)**-1
     phi3 = (1.57E8*Re**-1.625)**10
     phi2 = ((0.148*Re**0.11)**-10 + 0.5**-10)**-1
-    phi1 = (24*Re**-1)**10 + (21*Re**-0.67)**10 + (4*Re**-0.33)**10 + 0.4**10
+    phi1 = (24.0/Re)**10 + (21*Re**-0.67)**10 + (4*Re**-0.33)**10 + 0.4**10
     return (1/((phi1 + phi2)**-1 + phi3**-1) + phi4)**0.1
 
 
diff --git a/fluids/fittings.py b/fluids/fittings.py
index fe4de43..9a5dd5d 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -3544,7 +3544,7 @@ def Kv_to_K(Kv: float, D: float) -> float:
     ----------
     .. [1] ISA-75.01.01-2007 (60534-2-1 Mod) Draft
     """
-    return 1.6E9*D**4*Kv**-2
+    return 1.6E9*D**4*Kv**-2.0
 
 
 def K_to_Kv(K: float, D: float) -> float:
-- 
2.43.0


From 607370c7dc2bcdecc530696749522bcf46322c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:20 +0000
Subject: [PATCH 50/89] fix: functions returning lists of names failed when
 called with units

---
 fluids/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/units.py b/fluids/units.py
index a661e79..28a1428 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -319,6 +319,8 @@ def convert_output(result, out_units, out_vars, ureg):
             unit = out_units[out_vars.index(key)]
             result[key] = ans*parse_expression_cached(unit, ureg)
         return result
+    elif t is list and result and all(type(v) is str for v in result):
+        return result # Names, such as those of the applicable methods
     elif (t is list or t is ndarray) and output_count == 1:
         return np.array(result)*parse_expression_cached(out_units[0], ureg)
     elif isinstance(result, Iterable):
-- 
2.43.0


From d2f342217dbbce6620f592f703463d41dac847b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:39 +0000
Subject: [PATCH 51/89] fix: Reynolds number documented in meters, so that
 calls with units refused it

---
 fluids/fittings.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 9a5dd5d..4586bad 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1164,7 +1164,7 @@ def bend_rounded_Miller(Di: float, angle: float, Re: float, rc: float | None=Non
         Angle of bend, [degrees]
     Re : float
         Reynolds number of the pipe (no specification if inlet or outlet
-        properties should be used), [m]
+        properties should be used), [-]
     rc : float, optional
         Radius of curvature of the entrance, [m]
     bend_diameters : float, optional
@@ -1567,7 +1567,7 @@ def bend_miter_Miller(Di: float, angle: float, Re: float, roughness: float=0.0,
         Angle of miter bend, [degrees]
     Re : float
         Reynolds number of the pipe (no specification if inlet or outlet
-        properties should be used), [m]
+        properties should be used), [-]
     roughness : float, optional
         Roughness of bend wall, [m]
     L_unimpeded : float, optional
@@ -1937,7 +1937,7 @@ def contraction_sharp(Di1: float, Di2: float, fd: float | None=None, Re: float |
         Darcy friction factor in original pipe; used only in the Hooper method
         and will be  calculated from `Re` if not given, [-]
     Re : float, optional
-        Reynolds number of the pipe (used in Hooper method, [m]
+        Reynolds number of the pipe (used in Hooper method, [-]
     roughness : float, optional
         Roughness of original pipe (used in Hooper method only if no friction
         factor given), [m]
@@ -2323,7 +2323,7 @@ def contraction_conical(Di1: float, Di2: float, fd: float | None=None, l: float
         optional [degrees]
     Re : float, optional
         Reynolds number of the pipe (used in `Rennels` and `Hooper` method only
-        if no friction factor given), [m]
+        if no friction factor given), [-]
     roughness : float, optional
         Roughness of bend wall (used in Rennels method if no friction factor
         given), [m]
@@ -2829,7 +2829,7 @@ def diffuser_conical(Di1: float, Di2: float, l: float | None=None, angle: float
         Darcy friction factor [-]
     Re : float, optional
         Reynolds number of the pipe (used in Rennels method only if no friction
-        factor given), [m]
+        factor given), [-]
     roughness : float, optional
         Roughness of bend wall (used in Rennels method if no friction factor
         given), [m]
-- 
2.43.0


From b163b161d2df537a1f64785f22ac7e85fa7e981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 52/89] fix: dish and knuckle parameters of SA_tank and the
 result of SA_from_h documented with wrong units

---
 fluids/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 3707860..4a6f60c 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1489,13 +1489,13 @@ def SA_tank(D: float, L: float, sideA: str | None=None, sideB: str | None=None,
         The distance the head as specified by sideB extends up or to the right
         from the main cylindrical section, [m]
     sideA_f : float, optional
-        Dish-radius parameter for side A; fD  = dish radius [1/m]
+        Dish-radius parameter for side A; fD  = dish radius [-]
     sideA_k : float, optional
-        knuckle-radius parameter for side A; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side A; kD = knuckle radius [-]
     sideB_f : float, optional
-        Dish-radius parameter for side B; fD  = dish radius [1/m]
+        Dish-radius parameter for side B; fD  = dish radius [-]
     sideB_k : float, optional
-        knuckle-radius parameter for side B; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side B; kD = knuckle radius [-]
 
     Returns
     -------
@@ -3007,7 +3007,7 @@ def SA_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str |
     Returns
     -------
     SA : float
-        Wetted wall surface area up to h [m^3]
+        Wetted wall surface area up to h [m^2]
 
     Examples
     --------
-- 
2.43.0


From c77ab2a90a010bcd4f4d728f554c373e4b109ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 53/89] fix: attributes of RectangularFinExchanger and
 HyperbolicCoolingTower documented with wrong units

---
 fluids/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 4a6f60c..be040e9 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4371,10 +4371,10 @@ class RectangularFinExchanger:
     blockage_ratio : float
         The fraction of the layer which is blocked to flow by the fins,
         :math:`\text{blockage ratio} = \frac{s\cdot h - s\cdot t - t(h-t)}{s\cdot h}`,
-        [m]
+        [-]
     A_channel : float
         Flow area of a single channel in a single layer,
-        :math:`\text{channel area} = (s-t)(h-t)`, [m]
+        :math:`\text{channel area} = (s-t)(h-t)`, [m^2]
     P_channel : float
         Wetted perimeter of a single channel in a single layer,
         :math:`\text{channel perimeter} = 2(s-t) + 2(h-t)`, [m]
@@ -4399,7 +4399,7 @@ class RectangularFinExchanger:
         The product of the height, width, and length of the HX, [m^3]
     A_specific_HX : float
         The specific surface area of the heat exchanger - square meters per
-        meter cubed, [m^3]
+        meter cubed, [1/m]
 
     Notes
     -----
@@ -4559,7 +4559,7 @@ class HyperbolicCoolingTower:
     D_support : float, optional
         The diameter of each support column, [m]
     n_support : int, optional
-        The number of support columns of the cooling tower, [m]
+        The number of support columns of the cooling tower, [-]
 
     Attributes
     ----------
-- 
2.43.0


From b9d913f24f2430d92af114b1fec8d3ffa428c505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 54/89] fix: unit of the specific diameter documented upside
 down

---
 fluids/pump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/pump.py b/fluids/pump.py
index c7cbcc0..5c77fa4 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -554,7 +554,7 @@ def specific_diameter(Q: float, H: float, D: float) -> float:
     Returns
     -------
     Ds : float
-        Specific diameter, [m^0.25/s^0.5]
+        Specific diameter, [s^0.5/m^0.25]
 
     Notes
     -----
-- 
2.43.0


From 2618a339f616dc611a50a173b96dd0eb7a4a45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 55/89] fix: erosional_velocity could not be called with units

---
 fluids/piping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index 3857176..d4dee90 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -1069,7 +1069,7 @@ def erosional_velocity(rho: int, C: int) -> float:
     rho : float
         Bulk mass density of the overall fluid, [kg/m^3]
     C : float
-        Erosional velocity factor; must be provided,  [sqrt(lb/(ft*s^2))]
+        Erosional velocity factor; must be provided,  [lb^0.5/(ft^0.5*s)]
 
     Returns
     -------
-- 
2.43.0


From 243462be951a9f8f7f7c13282a92e68562115393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 56/89] fix: pressure drop of a wet gas venturi documented as a
 discharge coefficient

---
 fluids/flow_meter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 417fa42..ec2d73a 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -2238,9 +2238,9 @@ def dP_Reader_Harris_Gallagher_wet_venturi_tube(D: float, Do: float, P1: float,
 
     Returns
     -------
-    C : float
-        Coefficient of discharge of the wet gas venturi tube flow meter
-        (includes flow rate of gas ONLY), [-]
+    dP : float
+        Non-recoverable pressure drop of the wet gas venturi tube flow meter,
+        [Pa]
 
     Notes
     -----
-- 
2.43.0


From a172d63b58f890d11d0653e8977a2206ec6a332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:33 +0000
Subject: [PATCH 57/89] fix: results of isentropic_work_compression and
 liquid_jet_pump_ancillary had no units

---
 fluids/units.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fluids/units.py b/fluids/units.py
index 28a1428..198d31b 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -733,6 +733,19 @@ IGT_Muller_variable_output = ({(True, True, True, False, True, True, True, True)
 for f in ["Muller", "IGT"]:
     variable_output_unit_funcs[f] = IGT_Muller_variable_output
 
+# The ratio of specific heats and the compressibility come before the three specified values
+variable_output_unit_funcs["isentropic_work_compression"] = (
+    {(True, True, Z) + given: units
+     for Z in (True, False)
+     for given, units in {(True, True, False, True): [u.J/u.mol],
+                          (True, False, True, True): [u.Pa],
+                          (False, True, True, True): [u.Pa],
+                          (True, True, True, False): [u.dimensionless],
+                          }.items()}, 7)
+variable_output_unit_funcs["liquid_jet_pump_ancillary"] = (
+    {(True, True, True, True) + tuple(i != j for j in range(6)): [unit]
+     for i, unit in enumerate([u.m, u.m, u.m**3/u.s, u.m**3/u.s, u.Pa, u.Pa])}, 10)
+
 def variable_output_wrapper(func, wrapped_basic_func, output_signatures, input_length):
     name = func.__name__
     intput_signature = in_vars_cache[func]
-- 
2.43.0


From 92bc827587885a64777bac8317a0eb998fff00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:33 +0000
Subject: [PATCH 58/89] fix: liquid_jet_pump could not be called with units

---
 fluids/jet_pump.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index e2968c5..3a4d649 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -326,8 +326,35 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
 
     Returns
     -------
-    solution : dict
-        Dictionary of calculated parameters, [-]
+    results : dict
+        Dictionary of the following calculated parameters:
+    d_nozzle : float
+        The inside diameter of the primary fluid's nozzle, [m]
+    d_mixing : float
+        The diameter of the mixing chamber, [m]
+    d_diffuser : float
+        The diameter of the diffuser at its exit, [m]
+    Qp : float
+        The volumetric flow rate of the primary fluid, [m^3/s]
+    Qs : float
+        The volumetric flow rate of the secondary fluid, [m^3/s]
+    P1 : float
+        The pressure of the primary fluid entering its nozzle, [Pa]
+    P2 : float
+        The pressure of the secondary fluid at the entry of the ejector, [Pa]
+    P5 : float
+        The pressure at the exit of the diffuser, [Pa]
+    N : float
+        The pressure ratio of the jet pump, [-]
+    M : float
+        The ratio of the volumetric flow rates, [-]
+    R : float
+        The ratio of the area of the nozzle to that of the mixing chamber, [-]
+    alpha : float
+        The ratio of the area of the mixing chamber to that of the diffuser,
+        [-]
+    efficiency : float
+        The efficiency of the jet pump, [-]
 
     Notes
     -----
-- 
2.43.0


From 6989875bc382c1ae2f6106081f119991f211c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:27 +0000
Subject: [PATCH 59/89] fix: Rosin Rammler functions could not be called with
 units

---
 fluids/particle_size_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index c8590f6..4f0a130 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -933,7 +933,7 @@ def pdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     d : float
         Specified particle diameter, [m]
     k : float
-        Parameter in the model, [(1/m)^m]
+        Parameter in the model, in units of (1/m)^m [various]
     m : float
         Parameter in the model, [-]
 
@@ -974,7 +974,7 @@ def cdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     d : float
         Specified particle diameter, [m]
     k : float
-        Parameter in the model, [(1/m)^m]
+        Parameter in the model, in units of (1/m)^m [various]
     m : float
         Parameter in the model, [-]
 
@@ -1022,7 +1022,7 @@ def pdf_Rosin_Rammler_basis_integral(d: float, k: float, m: float, n: float) ->
     d : float
         Specified particle diameter, [m]
     k : float
-        Parameter in the model, [(1/m)^m]
+        Parameter in the model, in units of (1/m)^m [various]
     m : float
         Parameter in the model, [-]
     n : int
-- 
2.43.0


From a3bb93ba99f03399f0c2f57d346cc4e0d00464d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:27 +0000
Subject: [PATCH 60/89] fix: probability densities over diameter documented as
 dimensionless

---
 fluids/particle_size_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 4f0a130..a161e83 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -611,7 +611,7 @@ def pdf_lognormal(d: float, d_characteristic: float, s: float) -> float:
     Returns
     -------
     pdf : float
-        Lognormal probability density function, [-]
+        Lognormal probability density function, [1/m]
 
     Notes
     -----
@@ -791,7 +791,7 @@ def pdf_Gates_Gaudin_Schuhman(d: float, d_characteristic: float, m: float) -> fl
     Returns
     -------
     pdf : float
-        GGS probability density function, [-]
+        GGS probability density function, [1/m]
 
     Notes
     -----
@@ -940,7 +940,7 @@ def pdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     Returns
     -------
     pdf : float
-        RR probability density function, [-]
+        RR probability density function, [1/m]
 
     Notes
     -----
-- 
2.43.0


From b8461e2f5db7ec6e9369f967b27e993741ed9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:27 +0000
Subject: [PATCH 61/89] fix: P2 of dP_wedge_meter accepted any unit

---
 fluids/flow_meter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index ec2d73a..bc9cf30 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -2043,8 +2043,8 @@ def dP_wedge_meter(D: float, H: float, P1: float, P2: float) -> float:
         Static pressure of fluid upstream of wedge meter at the cross-section
         of the pressure tap, [Pa]
     P2 : float
-        Static pressure of fluid at the end of the wedge meter pressure tap, [
-        Pa]
+        Static pressure of fluid at the end of the wedge meter pressure tap,
+        [Pa]
 
     Returns
     -------
-- 
2.43.0


From a9f0aadc090c737efaf0c9edf141e1c761b7756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:46 +0000
Subject: [PATCH 62/89] fix: diffuser_conical_staged could not be called with
 units

---
 fluids/units.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index 198d31b..e598c93 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -346,12 +346,16 @@ def wraps_numpydoc(ureg, strict=True):
 
         in_vars = copy(parsed_info["Parameters"]["vars"])
         in_units = copy(parsed_info["Parameters"]["units"])
+        in_types = copy(parsed_info["Parameters"]["types"])
         if "Other Parameters" in parsed_info:
             in_vars += parsed_info["Other Parameters"]["vars"]
             in_units += parsed_info["Other Parameters"]["units"]
+            in_types += parsed_info["Other Parameters"]["types"]
         in_vars_to_dict = {}
         for i, j in zip(in_vars, in_units):
             in_vars_to_dict[i] = j
+        # Arguments which are arrays to begin with do not ask for vectorization
+        array_vars = {i for i, j in zip(in_vars, in_types) if j in ("array", "list")}
 
         out_units = parsed_info["Returns"]["units"]
         out_vars = parsed_info["Returns"]["vars"]
@@ -380,7 +384,8 @@ def wraps_numpydoc(ureg, strict=True):
             for name, val in kw.items():
                 unit = in_vars_to_dict[name]
                 kwargs[name] = convert_input(val, unit, ureg, strict)
-            if any(type(i.m) == np.ndarray for i in list(kw.values()) + list(values) if type(i) == u.Quantity):
+            if any(type(i.m) == np.ndarray for name, i in list(kw.items()) + list(zip(in_vars, values))
+                   if type(i) == u.Quantity and name not in array_vars):
                 result = getattr(fluids.vectorized, func.__name__)(*conv_values, **kwargs)
             else:
                 result = func(*conv_values, **kwargs)
-- 
2.43.0


From 5e6a560450e5c9089301e3b64b66a6e12c57a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:50 +0000
Subject: [PATCH 63/89] fix: int results of a function truncated the float
 results beside them in a vectorized call

---
 fluids/pump.py       |  2 +-
 fluids/vectorized.py | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/fluids/pump.py b/fluids/pump.py
index 5c77fa4..111164f 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -489,7 +489,7 @@ def motor_efficiency_underloaded(P: float, load: float=0.5) -> float:
     else:
         i = 5
     if load > _efficiency_ones[i]:
-        return 1.0
+        return 1
     else:
         cs = _efficiency_lists[i]
         return cs[0] + cs[1]*load + cs[2]*load**2 + cs[3]*load**3 + cs[4]*load**4
diff --git a/fluids/vectorized.py b/fluids/vectorized.py
index d072296..d99f527 100644
--- a/fluids/vectorized.py
+++ b/fluids/vectorized.py
@@ -20,6 +20,8 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 SOFTWARE.
 """
 
+import functools
+
 import fluids as normal_fluids
 from fluids.numerics import FakePackage
 from fluids.numerics import numpy as np
@@ -58,6 +60,20 @@ __funcs = {}
 
 bad_names = {"__file__", "__name__", "__package__", "__cached__"}
 
+def _float_results(f):
+    # numpy's vectorize takes the type of the whole result from its first
+    # element; a function which returns an int there and a float elsewhere
+    # would have the other elements truncated
+    @functools.wraps(f)
+    def wrapper(*args, **kwargs):
+        ans = f(*args, **kwargs)
+        if type(ans) is int:
+            return float(ans)
+        elif type(ans) is tuple:
+            return tuple([float(v) if type(v) is int else v for v in ans])
+        return ans
+    return wrapper
+
 if isinstance(np, FakePackage):
     pass
 else:
@@ -65,7 +81,7 @@ else:
     for name in dir(normal_fluids):
         obj = getattr(normal_fluids, name)
         if isinstance(obj, types.FunctionType):
-            obj = np.vectorize(obj)
+            obj = np.vectorize(_float_results(obj))
         elif isinstance(obj, str) and name in bad_names:
             continue
         __all__.append(name)
-- 
2.43.0


From a6c268419ff2ee86302b9cbeddfbf13a78e56e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 64/89] fix: names of flow regimes were turned into
 dimensionless quantities by calls with units

---
 fluids/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index e598c93..6ac4d30 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -326,7 +326,10 @@ def convert_output(result, out_units, out_vars, ureg):
     elif isinstance(result, Iterable):
         conveted_result = []
         for ans, unit in zip(result, out_units):
-            conveted_result.append(ans*parse_expression_cached(unit, ureg))
+            if type(ans) is str or (type(ans) is ndarray and ans.dtype.kind == "U"):
+                conveted_result.append(ans)
+            else:
+                conveted_result.append(ans*parse_expression_cached(unit, ureg))
         return conveted_result
     else:
         return result*parse_expression_cached(out_units[0], ureg)
-- 
2.43.0


From 66af75e212aec7263f780c29ba65f2d5bc59cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 65/89] fix: names stored by objects were turned into
 dimensionless quantities by calls with units

---
 fluids/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/units.py b/fluids/units.py
index 6ac4d30..f0030d9 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -449,6 +449,8 @@ class UnitAwareClass:
             raise AttributeError(f"Failed to get property {name!s} with error {e!s}")
         if value is not None:
             if name in self.property_units:
+                if type(value) is str:
+                    return value
                 if type(value) == dict:
                     d = {}
                     unit = self.property_units[name]
-- 
2.43.0


From 8cbb048b59e56783b43512a5f4cf4ccb2888c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 66/89] fix: the throat height of a HyperbolicCoolingTower
 could not be given with units

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index be040e9..8771411 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4547,7 +4547,7 @@ class HyperbolicCoolingTower:
     D_throat : float, optional
         The diameter of the cooling tower at its minimum section, called its
         throat; where the two hyperbolas meet, [m]
-    h_throat : float, optional
+    H_throat : float, optional
         The elevation of the cooling tower's throat (its minimum section; where
         the two hyperbolas meet), [m]
     inlet_rounding : float, optional
-- 
2.43.0


From 6671079c242307f3cf48ac4a55b35fcc618d7689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:12 +0000
Subject: [PATCH 67/89] fix: nelder_mead left its bounds, ignored args, and
 compiled started from another simplex

---
 fluids/numerics/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index c3ccc87..cdd8b4b 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5456,7 +5456,7 @@ else:
     quad = lazy_quad
 
 def bounds_clip_naive(x, low, high):
-    N = len(low)
+    N = len(x)
     if low is not None:
         for i in range(N):
             if x[i] < low[i]:
@@ -5508,6 +5508,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
 
     sim = [x0.copy() for _ in range(N+1)] # numba: delete
 #    sim = np.zeros((N+1, N), dtype=float) # numba: uncomment
+#    sim[:, :] = x0 # numba: uncomment
 
     if initial_simplex is None:
         for k in range(N):
@@ -5515,6 +5516,9 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                 sim[k+1][k] = (1.0 + initial_perturbation)*x0[k]
             else:
                 sim[k+1][k] = initial_zero_perturbation
+            if high is not None and sim[k+1][k] > high[k]:
+                # Reflect the point into the bounds, clipping it could make the simplex degenerate
+                sim[k+1][k] = 2.0*high[k] - sim[k+1][k]
     else:
         sim = [x.copy() for x in initial_simplex] # numba: delete
 #        sim = np.asfarray(initial_simplex) # numba: uncomment
@@ -5524,7 +5528,9 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
 #    fsim = np.zeros((N+1, ), dtype=float) # numba: uncomment
 
     for k in range(N + 1):
-        fsim[k] = func(sim[k])
+        if has_bounds:
+            sim[k] = bounds_clip_naive(sim[k], low, high)
+        fsim[k] = func(sim[k], *args)
 
 #     print(sim, fsim)
     sim, fsim = sort_fun(sim, fsim)
@@ -5570,13 +5576,13 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
         if has_bounds:
             xr = bounds_clip_naive(xr, low, high)
 
-        fxr = func(xr)
+        fxr = func(xr, *args)
         if fxr < fsim[0]:
 #            xe = rhochip1*xbar - rhochi*sim_last # numba: uncomment
             xe = [rhochip1*xbar[i] - rhochi*sim_last[i] for i in range(N)] # numba: delete
             if has_bounds:
                 xe = bounds_clip_naive(xe, low, high)
-            fxe = func(xe)
+            fxe = func(xe, *args)
             if fxe < fxr:
                 sim[-1] = xe
                 fsim[-1] = fxe
@@ -5593,7 +5599,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xc = [rhopsip1*xbar[i] - rhopsi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xc = bounds_clip_naive(xc, low, high)
-                    fxc = func(xc)
+                    fxc = func(xc, *args)
 
                     sim[-1] = xc
                     fsim[-1] = fxc
@@ -5603,7 +5609,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xcc = [onempsi*xbar[i] + psi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xcc = bounds_clip_naive(xcc, low, high)
-                    fxcc = func(xcc)
+                    fxcc = func(xcc, *args)
                     sim[-1] = xcc
                     fsim[-1] = fxcc
 
-- 
2.43.0


From 6b58e57f821b9eebe0f45527d9456c4c77fcd026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 68/89] fix: SolverInterface handed lists to a numpy scalar
 objective when differentiating in python

---
 fluids/numerics/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index cdd8b4b..45b5e9a 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5870,7 +5870,7 @@ class SolverInterface:
                 x = np.array(x)
             # Use the correct objf based on numpy/python preferences
             if self.objf_numpy:
-                objf = self.objf_counting
+                objf = self.objf_counting if self.hessian_numpy else self.objf_numpy_return_python_scalar
             else:
                 objf = self.objf_python_return_numpy if self.hessian_numpy else self.objf_counting
 
@@ -5949,7 +5949,7 @@ class SolverInterface:
 
             # Use the correct objf based on numpy/python preferences
             if self.objf_numpy:
-                objf = self.objf_counting
+                objf = self.objf_counting if self.jacobian_numpy else self.objf_numpy_return_python_scalar
             else:
                 objf = self.objf_python_return_numpy if self.jacobian_numpy else self.objf_counting
 
-- 
2.43.0


From 836b95f73f5652e034e73d2e8fdcc7191e9f25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 69/89] fix: nquad of several variables raised TypeError, its
 inner integrals returned a tuple

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 45b5e9a..e9a3d80 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5426,7 +5426,7 @@ def lazy_quad(f, a, b, args=(), epsrel=1.49e-08, epsabs=1.49e-8, **kwargs):
 
 
 def _call_nquad(x, func, range_funcs, epsrel, epsabs, *args):
-    return nquad(func, range_funcs, args=(x,) +args , epsrel=epsrel, epsabs=epsabs)
+    return nquad(func, range_funcs, args=(x,) +args , epsrel=epsrel, epsabs=epsabs)[0]
 
 def nquad(func, ranges, args=(), epsrel=1.48e-8, epsabs=1.48e-8):
     my_low, my_high = ranges[-1](*args)
-- 
2.43.0


From 7c4bf20024248f9b91a0acb4f2d5775dd49021e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 70/89] fix: cumulative_trapezoid refused the documented
 default unit spacing

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index e9a3d80..4d5b5d9 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -650,7 +650,7 @@ def cumulative_trapezoid(y, x=None, dx=None):
     if x is None:
         # Unit spacing
         if dx is None:
-            raise ValueError("either dx or x should be provided")
+            dx = 1.0
         result = []
         integral = 0.0
         for i in range(n-1):
-- 
2.43.0


From 9b486155b9694bb73e4b1b922677ae6ce50f1253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 71/89] fix: py_splev exceeded the recursion limit on long knot
 vectors

---
 fluids/numerics/__init__.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 4d5b5d9..01f2669 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -4968,23 +4968,18 @@ def normalize(values):
 # are adjusted for fortran
 def func_35_splev(arg, t, l, l1, k2, nk1):
     # minus 1 index
-    if arg >= t[l-1] or l1 == k2:
-        arg, t, l, l1, nk1, leave = func_40_splev(arg, t, l, l1, nk1)
-        # Always leaves here
-        return arg, t, l, l1, k2, nk1
-
-    l1 = l
-    l = l - 1
-    arg, t, l, l1, k2, nk1 = func_35_splev(arg, t, l, l1, k2, nk1)
+    while not (arg >= t[l-1] or l1 == k2):
+        l1 = l
+        l = l - 1
+    arg, t, l, l1, nk1, leave = func_40_splev(arg, t, l, l1, nk1)
     return arg, t, l, l1, k2, nk1
 
 def func_40_splev(arg, t, l, l1, nk1):
-    if arg < t[l1-1] or l == nk1: # minus 1 index
-        return arg, t, l, l1, nk1, 1
-    l = l1
-    l1 = l + 1
-    arg, t, l, l1, nk1, leave = func_40_splev(arg, t, l, l1, nk1)
-    return arg, t, l, l1, nk1, leave
+    while not (arg < t[l1-1] or l == nk1): # minus 1 index
+        l = l1
+        l1 = l + 1
+    return arg, t, l, l1, nk1, 1
+
 
 def py_splev(x, tck, ext=0, t=None, c=None, k=None):
     """Evaluate a B-spline using a pure-python port of FITPACK's splev. This is
-- 
2.43.0


From 0c66404de6e78f1be50eede49193a203fb59be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 72/89] fix: assert_close2d accepted values it could not
 compare

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 01f2669..bfd28d4 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -1952,7 +1952,7 @@ def assert_close2d(a, b, rtol=1e-7, atol=0.0):
                     except:
                         good = cisclose(a1, b1, rel_tol=rtol, abs_tol=atol)
                 except:
-                    pass
+                    good = False
             if not good:
                 from numpy.testing import assert_allclose
                 return assert_allclose(a1, b1, rtol=rtol, atol=atol)
-- 
2.43.0


From 36d280e48b02a9cbad055ce9cbe2d28fa15df5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 73/89] fix: sqrt_imag_dd returned the root of the conjugate
 below the real axis

---
 fluids/numerics/doubledouble.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/numerics/doubledouble.py b/fluids/numerics/doubledouble.py
index 666a104..005a8db 100644
--- a/fluids/numerics/doubledouble.py
+++ b/fluids/numerics/doubledouble.py
@@ -271,7 +271,9 @@ def sqrt_imag_dd(xrr, xre, xcr, xce):
     zcr, zce = add_dd(wr, we, -xrr, -xre)
     zcr *= 0.5
     zce *= 0.5 # checks out
-    zcr, zce = sqrt_dd(zcr, zce) # real part of answer
+    zcr, zce = sqrt_dd(zcr, zce) # imaginary part of answer
+    if xcr < 0.0:
+        zcr, zce = -zcr, -zce
     return (zrr, zre, zcr, zce)
 
 def add_imag_dd(xrr, xre, xcr, xce, yrr, yre, ycr, yce):
-- 
2.43.0


From cfdd32a703eaa20bf361e6ebe05a488a9fa6adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 74/89] fix: pow_dd raised TypeError for whole powers given as
 floats

---
 fluids/numerics/doubledouble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/doubledouble.py b/fluids/numerics/doubledouble.py
index 005a8db..8354fe8 100644
--- a/fluids/numerics/doubledouble.py
+++ b/fluids/numerics/doubledouble.py
@@ -223,7 +223,7 @@ def log_dd(r, e):
 def pow_dd(r, e, nr, ne):
     """Compute the power"""
     if ne == 0.0 and (nr %1) == 0:
-        return intpow_dd(r, e, nr)
+        return intpow_dd(r, e, int(nr))
     tmpr, tmpe = log_dd(r, e)
     tmpr, tmpe = mul_dd(tmpr, tmpe, nr, ne)
     return exp_dd(tmpr, tmpe)
-- 
2.43.0


From b61db629911fda1ae9798a2bcc8a0694e6b664d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:35 +0000
Subject: [PATCH 75/89] fix: gsod_day_parser dropped pressures of 999.9
 millibar as missing

---
 fluids/design_climate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 5d7c014..61b1c84 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -870,7 +870,10 @@ gsod_int_fields = ("TEMP_COUNT", "DEWP_COUNT", "SLP_COUNT", "STP_COUNT",
 # Values which signify flags
 gsod_flag_chars = "*ABCDEFGHI"
 # Values which should be converted to None, as normally there is no value
-gsod_bad_values = frozenset(["99.99", "999.9", "9999.9"])
+gsod_bad_values = {"TEMP": "9999.9", "DEWP": "9999.9", "SLP": "9999.9",
+                   "STP": "9999.9", "VISIB": "999.9", "WDSP": "999.9",
+                   "MXSPD": "999.9", "GUST": "999.9", "MAX": "9999.9",
+                   "MIN": "9999.9", "PRCP": "99.99", "SNDP": "999.9"}
 
 gsod_indicator_names = ["fog", "rain", "snow_ice", "hail", "thunder",
                         "tornado"]
@@ -932,7 +935,7 @@ def gsod_day_parser(line, SI=True, to_datetime=True):
     # Parse float values as floats
     for field in gsod_float_fields:
         value = obj[field].rstrip(gsod_flag_chars)
-        if value in gsod_bad_values:
+        if value == gsod_bad_values[field]:
             value = None
         else:
             value = float(value)
-- 
2.43.0


From 155501009300107285e98059b84699843b2c86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:35 +0000
Subject: [PATCH 76/89] fix: get_closest_station failed when asked for one
 match at a time

---
 fluids/design_climate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 61b1c84..218c9c6 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -729,7 +729,7 @@ def get_closest_station(latitude, longitude, minumum_recent_data=20140000,
     station_count = get_station_count()
     stations = get_stations()
     distances, indexes = get_kd_tree().query([latitude, longitude], k=min(match_max, station_count))
-    for i in indexes:
+    for i in np.atleast_1d(indexes):
         latlon = _latlongs[i]
         enddate = stations[i].END
         # Iterate for all indexes until one is found whose date is current
-- 
2.43.0


From 4c84bd0fbe0b8e2fc874fd87b39d7fd7780f1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:35 +0000
Subject: [PATCH 77/89] fix: monthly averages of a station could not be taken
 over all its years, the default

---
 fluids/design_climate.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 218c9c6..62b33bf 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -473,6 +473,10 @@ class StationDataGSOD:
         [276.1599380905833, 277.5375516246206, 281.1881231671554, 286.7367003367004, 291.8689638318671, 296.79545454545456, 299.51868686868687, 298.2097914630174, 294.4116161616162, 288.25883023786247, 282.3188552188553, 277.8282339524275]
         """
         # Take years, make them inclusive; add minimum valid days.
+        if older_year is None:
+            older_year = self.begin.year
+        if newer_year is None:
+            newer_year = self.end.year
         year_month_averages = {}
         year_month_counts = {}
 
@@ -537,6 +541,10 @@ class StationDataGSOD:
     def month_average_windspeed(self, older_year=None, newer_year=None,
                                   include_yearly=False, minimum_days=23):
         # Take years, make them inclusive; add minimum valid days.
+        if older_year is None:
+            older_year = self.begin.year
+        if newer_year is None:
+            newer_year = self.end.year
         year_month_averages = {}
         year_month_counts = {}
 
-- 
2.43.0


From efa16f758dde9a76208cadef9fe1f3ddb365adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:35 +0000
Subject: [PATCH 78/89] fix: weather of stations with leading zeros or letters
 in their USAF number was never found

---
 fluids/design_climate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 62b33bf..36c94c9 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -775,7 +775,11 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
         WMO = 999999
     if WBAN is None:
         WBAN = 99999
-    station = str(int(WMO)) + "-" + str(WBAN)
+    try:
+        WMO = "%06d" % int(WMO)
+    except ValueError:
+        pass # some identifiers have letters
+    station = str(WMO) + "-" + str(WBAN)
     if data_dir_override is None:
         gsod_year_dir = os.path.join(data_dir, "gsod", str(year))
     else:
-- 
2.43.0


From ae0a67a9825b70d1bd9aa649d0104f1ed1db4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:35 +0000
Subject: [PATCH 79/89] fix: geocode cached addresses such as 00501 and 501 as
 the same place

---
 fluids/design_climate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 36c94c9..d67c3e9 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -114,7 +114,7 @@ class SimpleGeolocatorCache:
         self.connection = conn = sqlite3.connect(file_name)
         cursor = self.connection.cursor()
         cursor.execute("CREATE TABLE IF NOT EXISTS geopy ( "
-                       "address STRING PRIMARY KEY, latitude real, longitude real )")
+                       "address TEXT PRIMARY KEY, latitude real, longitude real )")
         self.connection.commit()
 
     def cached_address(self, address):
-- 
2.43.0


From 393e4c72a146514e3159d17493beb62b1b935478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:35 +0000
Subject: [PATCH 80/89] fix: gas_liquid_viscosity_methods handed out its own
 table of methods

---
 fluids/two_phase_voidage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase_voidage.py b/fluids/two_phase_voidage.py
index 4e61c1e..82392a2 100644
--- a/fluids/two_phase_voidage.py
+++ b/fluids/two_phase_voidage.py
@@ -2753,7 +2753,7 @@ def gas_liquid_viscosity_methods(rhol: float | None=None, rhog: float | None=Non
     """
     methods = ["McAdams", "Cicchitti", "Lin Kwok"]
     if rhol is not None and rhog is not None:
-        methods = liquid_gas_viscosity_correlations_list
+        methods = list(liquid_gas_viscosity_correlations_list)
     return methods
 _gas_liquid_viscosity_method_unknown = f"Method not recognized; available methods are {list(liquid_gas_viscosity_correlations.keys())}"
 
-- 
2.43.0


From 3f0ca78cee028f2fe5d46743a01b9ce52a50be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:35 +0000
Subject: [PATCH 81/89] fix: Colebrook with tol=0 changed the precision of
 mpmath for the whole process

---
 fluids/friction.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fluids/friction.py b/fluids/friction.py
index d57e235..6f0b12a 100644
--- a/fluids/friction.py
+++ b/fluids/friction.py
@@ -434,18 +434,18 @@ def Colebrook(Re: float, eD: float, tol: float | None=None) -> float:
 #        return float(log(10)**2*Rational('3.7')**2*Rational('2.51')**2/(den*den))
         try:
             from mpmath import lambertw as mp_lambertw
-            from mpmath import log, mp, mpf
+            from mpmath import log, mpf, workdps
             from mpmath import sqrt as sqrtmp
         except ImportError:
             raise ImportError("For exact solutions, the `mpmath` library is "
                               "required")
-        mp.dps = 50
-        Re = mpf(Re)
-        eD_Re = mpf(eD)*Re
-        sub = 1/mpf("6.3001")*10**(1/mpf("9.287")*eD_Re)*Re*Re
-        lambert_term = mp_lambertw(log(sqrtmp(10))*sqrtmp(sub))
-        den = log(10)*eD_Re - mpf("18.574")*lambert_term
-        return float(log(10)**2*mpf("3.7")**2*mpf("2.51")**2/(den*den))
+        with workdps(50):
+            Re = mpf(Re)
+            eD_Re = mpf(eD)*Re
+            sub = 1/mpf("6.3001")*10**(1/mpf("9.287")*eD_Re)*Re*Re
+            lambert_term = mp_lambertw(log(sqrtmp(10))*sqrtmp(sub))
+            den = log(10)*eD_Re - mpf("18.574")*lambert_term
+            return float(log(10)**2*mpf("3.7")**2*mpf("2.51")**2/(den*den))
     if tol is None:
         try:
             eD_Re = eD*Re
-- 
2.43.0


From 6b4cf6e3080df233748e9184adf87ab6765e0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:43 +0000
Subject: [PATCH 82/89] fix: liquid_jet_pump drew from the global random state,
 so that answers differed from call to call

---
 fluids/jet_pump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index 3a4d649..d0e4e89 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -441,7 +441,8 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
     .. [4] Ejectors and Jet Pumps. Design and Performance for Incompressible
        Liquid Flow. 85032. ESDU International PLC, 1985.
     """
-    from random import uniform
+    from random import Random
+    uniform = Random(0).uniform
     solution_vars = ["d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2", "P5"]
     unknown_vars = []
     for i in solution_vars:
-- 
2.43.0


From 5d8489a49fdd3c6e4d4d44b71998c36cd49963a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 83/89] fix: components of a vector Chebfun keep its domain

---
 fluids/optional/pychebfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 7411281..0488708 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -337,7 +337,7 @@ class Polyfun:
 
     def __getitem__(self, s):
         """Components s of the fun."""
-        return self.from_data(self.values().T[s].T)
+        return self.from_data(self.values().T[s].T, self.domain())
 
     def __bool__(self):
         """Test for difference from zero (up to tolerance)"""
-- 
2.43.0


From 2195bc0343d009691e6ee743cd85fdee58ed8fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 84/89] fix: roots of a linear Chebfun instead of an IndexError

---
 fluids/optional/pychebfun.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 0488708..7edbe6d 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -544,6 +544,12 @@ class Chebfun(Polyfun):
         if self.size() == 1:
             return np.array([])
 
+        elif self.size() == 2:
+            # linear; the colleague matrix needs at least a quadratic
+            a0, a1 = self.coefficients()
+            root = -a0/a1
+            return self._ui_to_ab(np.array([root] if np.abs(root) <= 1 else []))
+
         elif self.size() <= 100:
             ak = self.coefficients()
             v = np.zeros_like(ak[:-1])
-- 
2.43.0


From fb8fc30abcd88d6649ff7d963caf2e03eb67f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 85/89] fix: build_solve_pychebfun ends when there are fewer
 roots than asked for

---
 fluids/optional/pychebfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 7edbe6d..e273439 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -85,7 +85,7 @@ def build_solve_pychebfun(f, goal, domain, N=15, N_max=100, find_roots=2):
     fun = build_pychebfun(cached_fun, domain, N=N)
     roots = (fun - goal).roots()
 
-    while (len(roots) < find_roots and len(fun._values) < N_max):
+    while (len(roots) < find_roots and len(fun._values) < N_max and N < N_max):
         N *= 2
         fun = build_pychebfun(cached_fun, domain, N=N)
         roots = (fun - goal).roots()
-- 
2.43.0


From 1ed0f2aa7b04882897613fa497ae59355e49e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 86/89] fix: primitive of a vector Chebfun instead of an
 AttributeError

---
 fluids/optional/pychebfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index e273439..60b7403 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -515,7 +515,7 @@ class Chebfun(Polyfun):
         a,b = self.domain()
         int_coeffs = 0.5*(b-a)*poly.chebyshev.chebint(coeffs)
         antiderivative = self.from_coeff(int_coeffs, domain=self.domain())
-        return antiderivative - antiderivative(a)
+        return antiderivative - self.from_data([antiderivative(a)], self.domain())
 
     def differentiate(self, n=1):
         """n-th derivative, default 1."""
-- 
2.43.0


From cde4581062018d4fbffb2b7d2836b9fc62e29615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 87/89] fix: constant Chebfuns evaluate exactly, so integer
 powers of negative values exist

---
 fluids/optional/pychebfun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 60b7403..2fe8831 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -333,6 +333,10 @@ class Polyfun:
     # ----------------------------------------------------------------
 
     def __call__(self, x):
+        if self.size() == 1:
+            # A constant; the barycentric formula divides and so may round it,
+            # which is enough for a power of a negative value to be NaN
+            return np.multiply.outer(np.ones(np.shape(x)), self._values[0])
         return self.p(self._ab_to_ui(x))
 
     def __getitem__(self, s):
-- 
2.43.0


From 2d345d0a2043cd99c4c7aefe17f4e435dd6fdf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:44 +0000
Subject: [PATCH 88/89] fix: spheres thrown upwards meet drag of their speed,
 not Stokes drag of a negative Reynolds number

---
 fluids/drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/drag.py b/fluids/drag.py
index 2919031..7b172cc 100644
--- a/fluids/drag.py
+++ b/fluids/drag.py
@@ -1536,7 +1536,7 @@ def integrate_drag_sphere(D: float, rhop: float, rho: float, mu: float, t: float
     # Delayed import of necessary functions
     import numpy as np
     from scipy.integrate import odeint
-    laminar_initial = Reynolds(V=V, rho=rho, D=D, mu=mu) < 0.01
+    laminar_initial = abs(Reynolds(V=V, rho=rho, D=D, mu=mu)) < 0.01
     v_laminar_end_assumed = v_terminal(D=D, rhop=rhop, rho=rho, mu=mu, Method=Method)
     laminar_end = Reynolds(V=v_laminar_end_assumed, rho=rho, D=D, mu=mu) < 0.01
     if Method == "Stokes" or (laminar_initial and laminar_end and Method is None):
@@ -1594,7 +1594,7 @@ def integrate_drag_sphere(D: float, rhop: float, rho: float, mu: float, t: float
             t2 = 0.0
         else:
 #            t2 = c2*V*V*Stokes(Re_ish*V)
-            t2 = c2*V*V*drag_sphere(Re_ish*V, Method=Method)
+            t2 = c2*V*abs(V)*drag_sphere(Re_ish*abs(V), Method=Method)
         return c1 + t2
 
     # Number of intervals for the solution to be solved for; the integrator
-- 
2.43.0


From 8472510478d50608f2f8cf4ad9d40ee6c7d4be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:42 +0000
Subject: [PATCH 89/89] fix: circle_segment_h_from_A for segments larger than
 half the circle

---
 fluids/geometry.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 8771411..d773803 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1876,8 +1876,16 @@ def circle_segment_h_from_A(A: float, D: float) -> float:
     if A == 0.0:
         return 0.0
     R = 0.5*D
-    return newton(circle_segment_area_inner, x0=0.25*R, fprime=True, high=R, low=0.0,
-                  args=(R, A), xtol=1e-12, bisection=True)
+    A_circle = pi*R*R
+    over_half = A > 0.5*A_circle
+    if over_half:
+        # Solve for the smaller segment above the chord
+        A = A_circle - A
+        if A == 0.0:
+            return D
+    h = newton(circle_segment_area_inner, x0=0.25*R, fprime=True, high=R, low=0.0,
+               args=(R, A), xtol=1e-12, bisection=True)
+    return D - h if over_half else h
 
 
 def SA_partial_horiz_conical_head(D: float, a: float, h: float) -> float:
-- 
2.43.0

