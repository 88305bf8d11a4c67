From 960b93adb37cac79c873efd4c4d6c59be9cafe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 01/28] fix: zero-frequency block matrices no longer use
 np.float

np.float is gone from NumPy, and np.float(array) never worked for the interior
geometry with more than one multipole, so every zeroth Matsubara term raised.
---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 6e4b0d9..56da6a2 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -230,7 +230,7 @@ class SphereSphere:
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
         lss = np.arange(lmin, self.lssmax+1)[np.newaxis, np.newaxis, :]
-        sgn = (-1)**np.float(lss-l1)        
+        sgn = (-1.0)**(lss-l1)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
         distance_dep = np.log(r1/r2) + l1*np.log(r1/L)+2*lss*np.log(L/r2) + l2*np.log(r1/L)
@@ -261,7 +261,7 @@ class SphereSphere:
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
-        lss = np.arange(lmin, self.lssmax+1, dtype = np.float)[np.newaxis, np.newaxis, :]
+        lss = np.arange(lmin, self.lssmax+1, dtype = float)[np.newaxis, np.newaxis, :]
         sgn = (-1)**(lss-l2)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
-- 
2.43.0


From 0b23339b13cd24eecf8d9ba92a5427f0e1e87423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 02/28] fix: restrict freshly computed Mie coefficients to l >=
 m

Only cached coefficients were cut to the multipoles of the m-subspace, so the first
evaluation of a wavenumber array at m >= 2 failed while the same call worked later.
---
 CasimirRio/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 56da6a2..e1aa467 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -166,7 +166,7 @@ class SphereSphere:
                      ]
 
             V.extend(Vdiff)
-        return [mieA, mieB, V]
+        return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
     def roundTrip_elements_k0(self, m, k):
         """Collect all necessyary Mie-coefficients and translation matrices
-- 
2.43.0


From 29833b6939e69c3fc755487abe0b147fc5ac43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 03/28] fix: cache zero-frequency Mie coefficients from l = 1
 on

The cache was filled starting at l = m of the first call, which broke every later
call for another m on the same geometry.
---
 CasimirRio/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index e1aa467..5fe637b 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -198,14 +198,14 @@ class SphereSphere:
                 raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
                                           " is not yet implemented for stratified spheres")
             self.MieA_k0 = scattering(self.mat1, self.mat3
-                                   ).mie_k0(lmin, self.lmax, self.r1
+                                   ).mie_k0(1, self.lmax, self.r1
                                          )[:, :, np.newaxis, np.newaxis]
             if not self.ext_flag:
                 self.MieB_k0 = scattering(self.mat3, self.mat2
-                    ).mie_internal_k0(lmin, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
+                    ).mie_internal_k0(1, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
             else:
                 self.MieB_k0 = scattering(self.mat2, self.mat3
-                             ).mie_k0(lmin, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
+                             ).mie_k0(1, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
             mieA_k0 = self.MieA_k0
             mieB_k0 = self.MieB_k0
         V_k0 = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
@@ -217,7 +217,7 @@ class SphereSphere:
                                       "is not implemented, yet.")
 
             V.extend(Vdiff)
-        return [mieA_k0, mieB_k0, V_k0]
+        return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
 
     def blockmatrices_k0_int(self, m):
         """ Returns a list of two blockmatrices corresponding to a subspace
-- 
2.43.0


From 739f9f6f34a1f6e34598433f9e14dc2e5c4abc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 04/28] fix: do not shorten the caller's material and radius
 lists

mie_stratified() removes invisible outer layers from its lists; it now works on its own copies.
---
 CasimirRio/stratified_sphere_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/stratified_sphere_scattering.py b/CasimirRio/stratified_sphere_scattering.py
index 8c0cb0d..89f08de 100644
--- a/CasimirRio/stratified_sphere_scattering.py
+++ b/CasimirRio/stratified_sphere_scattering.py
@@ -26,8 +26,8 @@ class StratifiedMieScattering(scattering):
     def __init__(self, mat_list, r_list):  # nCore, nCoating, nMedium
         try:
             if type(mat_list) == list and type(r_list) == list:
-                self.mat_list = mat_list
-                self.r_list = r_list
+                self.mat_list = list(mat_list)
+                self.r_list = list(r_list)
                 assert(len(r_list)==len(mat_list)-1)
                 scattering.__init__(self, mat_list[0], mat_list[1])
         except:
-- 
2.43.0


From 53a909158b210f9d7fbb67b676c1f7b7952f48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 05/28] fix: lowest Bessel orders of unsorted arguments

Small and large arguments were concatenated instead of being put back to where they
came from, which swapped the rows of l = 0, 1 for arrays that are not ascending.
---
 CasimirRio/bessel_sk.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 655f4d9..85683a9 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -67,12 +67,11 @@ def lniknu(x, lmax):
     xsm = x[sm]
     xlg = x[lg]
     if not xsm.shape[0] == 0 and not xlg.shape[0] == 0:
-        i0sm = xsm**2/6 - xsm**4/180 + xsm**6/2835
-        i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-        i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
-        i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-        i0 = np.append(i0sm, i0lg, axis=0)
-        i1 = np.append(i1sm, i1lg, axis=0)
+        i0, i1 = np.empty(len(x)), np.empty(len(x))
+        i0[sm] = xsm**2/6 - xsm**4/180 + xsm**6/2835
+        i0[lg] = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
+        i1[sm] = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
+        i1[lg] = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
     else:
         if xsm.shape[0] == 0:
             i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-- 
2.43.0


From de37f6cfeb207575513b8c9b99077b36afbca077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 06/28] fix: length of the continued fraction for large
 arguments

The number of terms looked at the last argument only, and 140 terms are not enough above
x = 1000 (an error of 10 percent at x = 10^4). It now grows like sqrt(max(x)), and the
fraction is evaluated in a loop since the recursion would become too deep.
---
 CasimirRio/bessel_sk.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 85683a9..24893d6 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -35,9 +35,10 @@ def fraction(x):
            http://dx.doi.org/10.2307/2006491
 
     """
-    if len(x[0, :]) == 1:
-        return x[:, 0]
-    return x[:, 0] + 1 / fraction(x[:, 1::])
+    result = x[:, -1]
+    for n in range(x.shape[1]-2, -1, -1):
+        result = x[:, n] + 1 / result
+    return result
 
 def fnu(x, nu):
     """returns I(nu, x)/I(nu+1, x)
@@ -46,8 +47,8 @@ def fnu(x, nu):
 
     """
     Nmax = 80
-    if x[-1] > 100:
-        Nmax = 140
+    if np.max(x) > 100:
+        Nmax = max(140, int(5*np.sqrt(np.max(x))))
     n = np.arange(1, Nmax+1).reshape(1, Nmax)
     x = x[..., np.newaxis]
     an = 2 * (nu + n) / x
-- 
2.43.0


From 16a24764bddaeeb47b03f96681a4477d22979202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 07/28] fix: zero-frequency reflection inside a plasma-model
 cavity

The logarithmic derivative of K_l(x) is -l - x*K_(l-1)/K_l; the additional factor x/(2l-1)
made the static TE coefficient differ from the low-frequency limit of mie_internal(), and
lmin > 1 did not work because the ratios always started at l = 1.
---
 CasimirRio/scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 10306f7..511ba6b 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -237,8 +237,8 @@ class scattering:
             except IndexError:
                 wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
-                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, :]
-                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])*wPR_c/(2*l-1)#k_wp[0:-1]/k_wp[1:]*wPR_c/(2*l-1)
+                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
+                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
                 k_fracterm = -l-wPR_c*k_ratio
                 bTE = (-(mu0_e*l + mu0_i*k_fracterm )
                        /( (l+1)*mu0_e - mu0_i*k_fracterm )
-- 
2.43.0


From cce06688915cd519cb650304e3c81a8df002f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 08/28] fix: static TE coefficients of plasma materials

The plasma frequency was taken from the first oscillator of the list, whatever its resonance
frequency, and the static permeability was left out of the refractive index.
---
 CasimirRio/scattering.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 511ba6b..9140d74 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -9,6 +9,15 @@ from scipy.special import gammaln
 import bessel_sk
 from helper_functions import ln_2dbl, lfac
 
+def static_plasma_frequency(mat):
+    """plasma frequency of the undamped free charge carriers of material mat,
+       k^2*epsilon(k) approaches its square for k -> 0
+
+    """
+    return np.sqrt(sum(wP**2 for wP, wR, gamma in mat.e_properties
+                                          if wR == 0 and gamma == 0))
+
+
 class scattering:
     def __init__(self, mat1, mat2):
         """Mie scattering at a solid sphere of material mat1 which is 
@@ -59,11 +68,7 @@ class scattering:
         bTM = (l+1)/l
         if not self.mat1.is_perfect_conductor:
             mu0_sp = self.mat1.mu(k)
-            wPR_c = np.array([0])
-            try:
-                wPR_c = np.array([self.mat1.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
+            wPR_c = static_plasma_frequency(self.mat1)*R/2.998e14*np.sqrt(mu0_sp)
             if not self.mat1.is_sigma_finite:
                 ifraction = bessel_sk.i_fraction(wPR_c, l-0.5)[:, 0]
                 i_frac_term = (-l + wPR_c * ifraction)
@@ -232,10 +237,7 @@ class scattering:
         sgn = (-1)**(l)
         bTM = l/(l+1)
         if not self.mat2.is_perfect_conductor:
-            try:
-                wPR_c = np.array([self.mat2.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
+            wPR_c = static_plasma_frequency(self.mat2)*R/2.998e14*np.sqrt(mu0_e)
             if not self.mat2.is_sigma_finite:
                 k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
                 k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
-- 
2.43.0


From d821f660e35d6651fdf3b383791daf9d8210e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 09/28] fix: translation coefficients in a magnetic medium

The refractive index of the medium is sqrt(epsilon*mu), as in scattering.py.
---
 CasimirRio/translation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/translation.py b/CasimirRio/translation.py
index e4fb086..c9e6dd0 100644
--- a/CasimirRio/translation.py
+++ b/CasimirRio/translation.py
@@ -51,7 +51,7 @@ class translation:
             self.trans_k0 = self.trans_k0_int
         if not (k == 0).any():
             self.bessels = bessel_sk.trans_bessels(self.k*self.L*
-                 np.sqrt(self.medium.epsilon(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
+                 np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
         self.forceFlag = forceFlag
         if self.forceFlag:
             self.get_vl1l2 = self.get_vl1l2_force
@@ -181,7 +181,7 @@ class translation:
         lppmax = l1+l2
         lpp = np.arange(abs(l1-l2), lppmax+1, 2)[np.newaxis, :]
         gaunt = self.gnt(l1, l2, self.m)
-        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)))[:, np.newaxis]
+        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)))[:, np.newaxis]
         sphB, skalierung = self.get_scaled_bessels(l1, l2, lpp)
         sphB_gnt = sphB * gaunt
         sgn_ba = (-1)**lpp
-- 
2.43.0


From 99ea8bf1c44d8751cab0078e078402e68b384982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 10/28] fix: CoatedSphereSphere passes its arguments on
 correctly

lssmax ended up as l_offset, forceFlag as lssmax, and the minimum order of the scattering
coefficients was left out, so that no evaluation was possible. The analytic zeroth Matsubara
term belongs to solid spheres; as for stratified spheres it is not available.
---
 CasimirRio/geometry.py       | 11 ++++++++---
 CasimirRio/thermodynamics.py |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 5fe637b..47a9ba1 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -608,7 +608,8 @@ class CoatedSphereSphere(SphereSphere):
     def __init__(self, r1_i, r1_a, mat1_core, mat1_coat, r2_i, r2_a,
                  mat2_core, mat2_coat, L, matMd, lmax, lssmax, forceFlag=0):
         SphereSphere.__init__(self, r1_a, r2_a, L, mat1_coat, mat2_coat,
-                               matMd, lmax, lssmax, forceFlag)
+                               matMd, lmax=lmax, lssmax=lssmax,
+                               forceFlag=forceFlag)
         self.r1_i = r1_i
         self.r2_i = r2_i
         self.r1_a = r1_a
@@ -635,11 +636,11 @@ class CoatedSphereSphere(SphereSphere):
         else:
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
-                ).mie_coated(k, self.lmax, self.r1_i,
+                ).mie_coated(k, 1, self.lmax, self.r1_i,
                              self.r1_a)[..., np.newaxis, np.newaxis]
             self.MieB = coated_miescattering(self.mat2core, self.mat2coat,
                                              self.matMd).mie_coated(
-                k, self.lssmax, self.r2_i, self.r2_a)
+                k, 1, self.lssmax, self.r2_i, self.r2_a)
             self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
                                                  np.newaxis, :]**ext_VZ,
                                   self.MieB[2][np.newaxis, :, np.newaxis,
@@ -665,6 +666,10 @@ class CoatedSphereSphere(SphereSphere):
             V.extend(Vdiff)
         return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
+    def roundTrip_elements_k0(self, m, k):
+        raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
+                                  " is not yet implemented for coated spheres")
+
 
 def dot_3d_matrices(a, b):
     """determine the matrix product of three-dimensional matrices a and b
diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d88fe6a..d2cfaa8 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -32,7 +32,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                              but given was", nprocs)
         self.nprocs = nprocs
         self.analytic_n0 = analytic_n0
-        if type(geom.mat1) == list or type(geom.mat2) == list:
+        if (type(geom.mat1) == list or type(geom.mat2) == list
+            or isinstance(geom, geometry.CoatedSphereSphere)):
             self.analytic_n0 = False
         self.nmax = nmax# ??? Was ist wenn nmax<maxstep gewählt ist?
         self.Tmax = Tmax
-- 
2.43.0


From 6942d835908aa8068b047ca54378c8123e489d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 11/28] fix: a force evaluation no longer changes later results

The force flags of the geometry and of finiteT stayed set after force(), so that
free_energy() and entropy() called afterwards used the force branch.
---
 CasimirRio/geometry.py       | 6 +++++-
 CasimirRio/thermodynamics.py | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 47a9ba1..78bdad2 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -584,8 +584,12 @@ class SphereSphere:
            matrices returned by the blockmatrices() method.
 
         """
+        previous_flag = self.forceFlag
         self.forceFlag = forceFlag
-        Ms = self.blockmatrices(m, matsubaras)
+        try:
+            Ms = self.blockmatrices(m, matsubaras)
+        finally:
+            self.forceFlag = previous_flag
         bigM = np.append(Ms[0], Ms[1], axis=2)
         bigM = np.append(bigM, np.append(Ms[2], Ms[3], axis=2), axis=1)
         return bigM
diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d2cfaa8..a01005e 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -86,9 +86,12 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """compute the Casimir force times 2π/ℏc in units of micrometers squared
 
         """
-        self.forceFlag = 1
         if self.force_matsubaras is None:
-            self.force_matsubaras = self.get_f_matsubaras(0)
+            self.forceFlag = 1
+            try:
+                self.force_matsubaras = self.get_f_matsubaras(0)
+            finally:
+                self.forceFlag = 0
         Ts = self.deltaT*np.arange(1, self.maxstep+1)
         Force_T = Ts*np.array([self.force_matsubaras[::i].sum()
                                for i in range(1, self.maxstep+1)])
-- 
2.43.0


From 74cba43fcb8fdc882c92f458d860f167abb3a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 12/28] fix: numerical zeroth Matsubara term in a slice of its
 own

F_alle(np.array([0])) evaluated an empty array when analytic_n0 is False.
---
 CasimirRio/thermodynamics.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index a01005e..1d25147 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -155,12 +155,11 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         if matsubaras[0] == 0:
             if not self.forceFlag and self.analytic_n0:
                 F_n_0 = 0.5 * self.geometry.mSumme_k0()
-                if len(matsubaras) == 1:
-                    return F_n_0
-                F_n_alle = self.geometry.mSumme(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
-                F_n_alle = self.geometry.mSumme(matsubaras[1:])
+            if len(matsubaras) == 1:
+                return F_n_0
+            F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
             if self.forceFlag:
-- 
2.43.0


From bc435f6be813189440a77b2c635ed0be966d5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 13/28] fix: worker.py does not overwrite earlier results

The name was extended only once, so the third run with the same output name overwrote the
result of the second one.
---
 CasimirRio/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 492fae1..cde965a 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -149,7 +149,7 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    if os.path.exists(foutput):
+    while os.path.exists(foutput):
         foutput += "1"
     outfile = open(foutput, "w")
     comment = job_infos()
-- 
2.43.0


From 8f4dffafd3f453075ee8dcc091ad5031d9559f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 14/28] fix: worker.py honours analytic_n0

The option of the config file was read and then always replaced by True.
---
 CasimirRio/worker.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index cde965a..4fc0ae7 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -107,11 +107,7 @@ def do_calculation():
         nmax = config.get("thermodynamics", "nmax")
         if not nmax == "automatic":
             print("nmax has to be given as integer or \"automatic\"") 
-    try:
-        analytic_n0 = config.get("geometry", "analytic_n0")
-    except ValueError:
-        print("analytic_n0 is not given correctly: ", analytic_n0)
-    analytic_n0 = True
+    analytic_n0 = config.getboolean("geometry", "analytic_n0")
     if type(geom.r1) == list or type(geom.r2) == list:
         analytic_n0 = False
     Tmax = config.getfloat("thermodynamics", "Tmax")
-- 
2.43.0


From 58d226bc4e45b336b459782af7043dc961f3e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 15/28] fix: plane-plane pressure is minus the derivative of
 the free energy

d/dL of exp(-2*k*L) gives a factor 2*k; the pressure was half of what it should be
(-pi^3/240 L^-4 instead of -pi^3/120 L^-4 for perfect conductors at T -> 0).
---
 CasimirRio/PFA.py     | 8 ++++----
 CasimirRio/raw_PFA.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 45c7cba..c88b0a1 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -41,8 +41,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def pressureRoundTrip(self, k_perp, kn, L):
@@ -54,8 +54,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE)+
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE)+
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index a4dcb1f..4ca9519 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -30,8 +30,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
-- 
2.43.0


From cb0ebb00be75aacb8a8a3f3a644e0ddad9bc52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 16/28] fix: spheresphereForce passes n0_shielding on

---
 CasimirRio/PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index c88b0a1..8deec6d 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -183,7 +183,7 @@ class SphereSpherePFA:
         nenner = r1+r2
         if d < r1+r2:
             nenner = max(r1, r2)-min(r1, r2)
-        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0))
+        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0), n0_shielding)
         return force
 
     def distance(self, r1, r2, d, rho):
-- 
2.43.0


From 0c5e56ff904eb6146f4d4586c8caffacead0bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 17/28] fix: PFA energy for r1 > r2

The integration over the overlapping cross section ran up to r1, beyond the smaller sphere.
---
 CasimirRio/PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 8deec6d..c3329a1 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -171,7 +171,7 @@ class SphereSpherePFA:
         """
         Lrho = lambda rho: self.distance(r1, r2, d, rho)
         freeE = quad(lambda rho: 2*np.pi*rho*self.planeplaneFreeEnergy(T, Lrho(rho),
-                                           n0_shielding), 0, r1)[0]
+                                           n0_shielding), 0, min(r1, r2))[0]
         return freeE
 
     def spheresphereForce(self, r1, r2, T, d, n0_shielding = False):
-- 
2.43.0


From 9a8705853d3015e1c521b2bfbb77b5abec21032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 18/28] fix: raw_PFA.get_f_matsubaras leaves the given
 wavenumbers alone

---
 CasimirRio/raw_PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index 4ca9519..5bff68e 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -107,7 +107,7 @@ class SphereSpherePFA:
         """
         assert type(matsubaras) == np.ndarray
         if matsubaras[0] == 0:
-            matsubaras[0] = 1e-20
+            matsubaras = np.append(1e-20, matsubaras[1:])
         norm = 2*np.pi
         integralTE = lambda kn: quad(
                         lambda k_perp: k_perp/norm*self.roundTrips(k_perp, kn, L)[0], 
-- 
2.43.0


From f6c8ca4c67c68e14c7b32569d37b53a9be51e712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 19/28] fix: balancing terminates for very large matrix
 elements

The squared norm of elements above 1e154 overflows, and with an infinite norm the search for
the scaling factor never ended. Such rows and columns are now left as they are.
---
 CasimirRio/matrix_balancing.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/matrix_balancing.pyx b/CasimirRio/matrix_balancing.pyx
index ccd75ee..6cb2ce3 100644
--- a/CasimirRio/matrix_balancing.pyx
+++ b/CasimirRio/matrix_balancing.pyx
@@ -22,7 +22,7 @@ def balance(np.ndarray[np.float64_t, ndim=2] matrix, double conv = 0.95):
                 if not j == i:
                     c += abs(matrix[j, i])**2
                     r += abs(matrix[i, j])**2
-            if not(abs(r) <= 1e-320  or abs(c) <= 1e-320):
+            if not(abs(r) <= 1e-320  or abs(c) <= 1e-320 or r > 1e300 or c > 1e300):
                 s = c + r
                 c = c**0.5
                 r = r**0.5
-- 
2.43.0


From 1566f1b8349b933040d80914310b6f6bed5c1add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 20/28] fix: xrange does not exist in Python 3

---
 CasimirRio/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 78bdad2..d4b892f 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -523,7 +523,7 @@ class SphereSphere:
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
         TrM_matsubaras_m = np.array([np.trace(A[i,:,:]+D[i,:,:]) 
-                    for i in xrange(len(matsubaras))])
+                    for i in range(len(matsubaras))])
         th_m_max = round(np.log(self.precision)/np.log(0.5))
         if mmax == "automatic":
             mmax = round(np.log(self.precision)/np.log(0.5))
@@ -535,11 +535,11 @@ class SphereSphere:
             sh = np.shape(A)
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                            for i in xrange(len(matsubaras))])
+                            for i in range(len(matsubaras))])
                 return TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                                    for i in xrange(len(matsubaras))])
+                                    for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
                 return TrM_matsubaras_m
         return TrM_matsubaras_m
-- 
2.43.0


From fc3a94e34e625cdc78e443c35bc303a6718ce753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:26 +0000
Subject: [PATCH 21/28] fix: sign of the single round-trip approximation

ln det(1-M) is -Tr M to first order, as in arbitrary_roundtrips().
---
 CasimirRio/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index d4b892f..52d1316 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -518,7 +518,7 @@ class SphereSphere:
 
     def mSum_oneRoundtrip(self, matsubaras, mmax="automatic"):# ??? Was hat das mit der Geometrie zu tun?
         """The analog of mSumme but calculating ln det(1-M(matsubaras)) in 
-           single round-trip approximation as Trace(M(matsubaras))
+           single round-trip approximation as -Trace(M(matsubaras))
 
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
@@ -536,13 +536,13 @@ class SphereSphere:
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
                             for i in range(len(matsubaras))])
-                return TrM_matsubaras_m
+                return -TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
                                     for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
-                return TrM_matsubaras_m
-        return TrM_matsubaras_m
+                return -TrM_matsubaras_m
+        return -TrM_matsubaras_m
 
     def mSum_roundtrips(self, matsubaras, order="automatic", forceFlag=0):
         m = 0
-- 
2.43.0


From 906a79f8043304ac8d3a23c15b018a59c09aaf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:31 +0000
Subject: [PATCH 22/28] fix: single round-trip zeroth term in a slice of its
 own

---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 1d25147..e2e4d9c 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -194,6 +194,8 @@ class oneRoundtrip(finiteT):
         if matsubaras[0] == 0.:
             if not self.forceFlag:
                 F_n_0 = 0.5 * self.geometry.mSum_oneRoundtrip(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSum_oneRoundtrip(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSum_trace_dot_oneRoundtrip(np.array([1e-10]))
-- 
2.43.0


From 49ca8f592ca27907a6b0ae79098235943c9a87b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:58 +0000
Subject: [PATCH 23/28] fix: l_offset is optional for automatic lmax in job
 files

---
 CasimirRio/worker.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 4fc0ae7..b1b1ae3 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -59,11 +59,6 @@ def return_geometry():
         lmax = config.getint("geometry", "lmax")
     except ValueError:
         lmax = config.get("geometry", "lmax")
-        if lmax == "automatic":
-            try:
-                l_offset = config.getint("geometry", "l_offset")
-            except ValueError:
-                l_offset = None      
         if not lmax == "automatic":
             print("lmax has to be given as integer or \"automatic\"") 
     try:
-- 
2.43.0


From 4f22a33d025c20f1926b3b531b2d6a1b17242580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:15 +0000
Subject: [PATCH 24/28] fix: materials_converter.transform no longer overwrites
 the caller's oscillator list

---
 CasimirRio/materials_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/materials_converter.py b/CasimirRio/materials_converter.py
index ced384a..8efab30 100644
--- a/CasimirRio/materials_converter.py
+++ b/CasimirRio/materials_converter.py
@@ -1,5 +1,6 @@
 # convert material parameters of Palasantzas to frequencies 
 # which can be used in a Lorentz osciallator model
+from copy import deepcopy
 from math import sqrt
 
 def transform(params):
@@ -10,7 +11,7 @@ def transform(params):
     eV = 1.60218e-19
     hbar = 1.05457e-34
     omega_eV = eV/hbar
-    t_params = params.copy()
+    t_params = deepcopy(params)
     for i, osciallator in enumerate(params):
         t_params[i][0] = sqrt(osciallator[0]*(osciallator[1]*omega_eV)**2)
         t_params[i][1] = osciallator[1]*omega_eV
-- 
2.43.0


From 603369a304916f3c541d01df8b0f9a9a22a37827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:13 +0000
Subject: [PATCH 25/28] fix: automatic number of round trips stopped early when
 the trace vanished at the first wavenumber

---
 CasimirRio/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 52d1316..535b9eb 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -574,7 +574,8 @@ class SphereSphere:
                 Matrix = np.einsum("ijk, ikl -> ijl", Matrices, Matrix)
                 to_add = np.trace(Matrix,axis1=1,axis2=2)/n
                 traceSum += to_add
-                relchange = max(abs(to_add/traceSum))
+                nonzero = traceSum != 0
+                relchange = max(abs(to_add[nonzero]/traceSum[nonzero]), default=0)
                 n += 1  
         self.roundTrip_dct[m] = n
         return -traceSum
-- 
2.43.0


From ee3407a551aa3f1d4ca7980f9c5789e1de77e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:15 +0000
Subject: [PATCH 26/28] fix: an evaluation that raised left scattering
 coefficients of other wavenumbers in the cache

MieA was replaced before MieB was computed while K still named the previous
wavenumbers; after an exception in between the previous wavenumbers were
answered with the new MieA.
---
 CasimirRio/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 535b9eb..ff15a03 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -126,6 +126,7 @@ class SphereSphere:
                 V.extend(Vdiff)
             return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
         else:
+            self.K = None
             if type(self.mat1)== list:
                 self.MieA = strat_scat(self.mat1, self.r1
                  ).mie_stratified(k, 1, self.lmax)[..., np.newaxis, np.newaxis]
@@ -639,6 +640,7 @@ class CoatedSphereSphere(SphereSphere):
         if np.shape(self.K) == np.shape(k) and (self.K == k).all():
             mieA, mieB = self.MieA, self.MieB
         else:
+            self.K = None
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
                 ).mie_coated(k, 1, self.lmax, self.r1_i,
-- 
2.43.0


From 1ef268640f3e35e81b65af15e0b0af710331054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:15 +0000
Subject: [PATCH 27/28] fix: jobs finishing at the same time no longer
 overwrite each other's result file

The test for an existing file and its creation were separate steps; create the
file exclusively instead.
---
 CasimirRio/worker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index b1b1ae3..ba20799 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -140,9 +140,12 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    while os.path.exists(foutput):
-        foutput += "1"
-    outfile = open(foutput, "w")
+    outfile = None
+    while outfile is None:
+        try:
+            outfile = open(foutput, "x")
+        except FileExistsError:
+            foutput += "1"
     comment = job_infos()
     outfile.write(comment)
     outfile.close()
-- 
2.43.0


From d5d89a1f46a6965926554bebfeb238686cdc12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:15 +0000
Subject: [PATCH 28/28] fix: PFA.get_f_matsubaras returned NaN for metals at
 zero frequency

Use a tiny wavenumber for the zeroth term as raw_PFA does.
---
 CasimirRio/PFA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index c3329a1..d0ae385 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -125,6 +125,8 @@ class SphereSpherePFA:
             e.g. V. Esteso, S. Carretero-Palacios, H. Miguez, J. Phys. Chem. C 119 5663
         """
         assert type(matsubaras) == np.ndarray
+        if matsubaras[0] == 0:
+            matsubaras = np.append(1e-20, matsubaras[1:])
         norm = 2*np.pi
         integralTE = lambda kn: quad(
                         lambda k_perp: k_perp/norm*self.roundTrips(k_perp, kn, L)[0], 
-- 
2.43.0

