From 9f0749e46669c05201cd914368a8e8034ba99040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 01/97] fix: check p_ex instead of p_0 if geometry[3] is fixed

---
 rt1/surface.py | 4 ++--
 rt1/volume.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index fda6d74..e7d2083 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -254,7 +254,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -388,7 +388,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
diff --git a/rt1/volume.py b/rt1/volume.py
index 4c6d13b..1f38d8d 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -253,7 +253,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -426,7 +426,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
-- 
2.43.0


From 4e722ce38ab2d0927acf1d431508f1f2cf69a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 02/97] fix: set ncoefs and legexpansion of LinCombV on
 initialization

---
 rt1/volume.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/volume.py b/rt1/volume.py
index 1f38d8d..d070839 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -484,6 +484,7 @@ class LinCombV(Volume):
         super(LinCombV, self).__init__(**kwargs)
 
         self.Vchoices = Vchoices
+        self._set_legexpansion()
 
         name = "LinCombV"
         for c in Vchoices:
-- 
2.43.0


From 6468856b06b6a6d931197c61d737dcd11e6d662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 03/97] fix: evaluation of constant fn-coefficients in the
 interaction term

---
 rt1/rt1.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 3f9ef0f..776e397 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -1263,8 +1263,8 @@ class RT1(object):
             )
 
             # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(args))
+            # is a constant (all coefficients must have the shape of the angles!)
+            fn = np.broadcast_arrays(*self._fnevals(args), args[0])[:-1]
         else:
             args = np.broadcast_arrays(
                 np.arccos(mu1),
@@ -1274,8 +1274,8 @@ class RT1(object):
                 *self.param_dict.values(),
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+            # is a constant (all coefficients must have the shape of the angles!)
+            fn = np.broadcast_arrays(*self._fnevals(*args), args[0])[:-1]
 
         multip = self._mu_0_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
@@ -1305,8 +1305,8 @@ class RT1(object):
             )
 
             # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(args))
+            # is a constant (all coefficients must have the shape of the angles!)
+            fn = np.broadcast_arrays(*self._fnevals(args), args[0])[:-1]
         else:
             args = np.broadcast_arrays(
                 np.arccos(mu1),
@@ -1316,8 +1316,8 @@ class RT1(object):
                 *self.param_dict.values(),
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+            # is a constant (all coefficients must have the shape of the angles!)
+            fn = np.broadcast_arrays(*self._fnevals(*args), args[0])[:-1]
 
         multip = self._mu_ex_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From 1bc55d82aa611e5aeaa4316c5780fc7746ecb14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 04/97] fix: interaction term at nadir

---
 rt1/rt1.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 776e397..13f56df 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -1340,12 +1340,18 @@ class RT1(object):
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
 
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
+        # the limit of log(mu / (1 - mu)) + expi(tau / mu - tau) at mu=1 is
+        # evaluated explicitly since both terms are singular for nadir angles
+        nadir = np.equal(mu, 1.0)
+        use_mu = np.where(nadir, 0.5, mu)
+        hlp0 = np.where(
+            nadir,
+            np.euler_gamma + np.log(tau),
+            np.log(use_mu / (1.0 - use_mu)) + expi(tau / use_mu - tau),
         )
 
+        hlp1 = np.exp(-tau / mu) * hlp0 - expi(-tau)
+
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
         def innerfunc(k):
-- 
2.43.0


From 7fb888b6ecd91321e6b26e51ac58ca2558c30965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 05/97] fix: nan values of the interaction term for grazing
 angles

---
 rt1/rt1.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 13f56df..bdb27f7 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -15,6 +15,7 @@ from functools import lru_cache
 
 from scipy.special import expi
 from scipy.special import expn
+from scipy.special import factorial
 
 import sympy as sp
 
@@ -1352,6 +1353,15 @@ class RT1(object):
 
         hlp1 = np.exp(-tau / mu) * hlp0 - expi(-tau)
 
+        # expi overflows for large arguments (e.g. grazing angles), use the
+        # asymptotic expansion exp(-x) * expi(x) = sum(k! / x**(k + 1)) instead
+        x = tau / mu - tau
+        large = x > 500.0
+        if np.any(large):
+            x = np.where(large, x, 500.0)
+            asymptotic = sum(factorial(k) / x ** (k + 1) for k in range(8))
+            hlp1 = np.where(large, np.exp(-tau) * asymptotic - expi(-tau), hlp1)
+
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
         def innerfunc(k):
-- 
2.43.0


From 0b64de439591b9eae3ece3836c1ab893b39513d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 06/97] fix: re-evaluate cached cosine-powers if t_0 or t_ex is
 changed

---
 rt1/rt1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index bdb27f7..8f886e4 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -394,6 +394,9 @@ class RT1(object):
         if np.isscalar(t_0):
             t_0 = np.array([t_0])
         self.__t_0 = t_0
+        # make sure cached powers of the cosines are re-evaluated
+        RT1._mu_0_x.fget.cache_clear()
+        RT1._mu_ex_x.fget.cache_clear()
 
     t_0 = property(_get_t_0, _set_t_0)
 
@@ -424,6 +427,8 @@ class RT1(object):
             if np.isscalar(t_ex):
                 t_ex = np.array([t_ex])
             self.__t_ex = t_ex
+            # make sure cached powers of the cosines are re-evaluated
+            RT1._mu_ex_x.fget.cache_clear()
 
     t_ex = property(_get_t_ex, _set_t_ex)
 
-- 
2.43.0


From 8bb92ef7c77adecd79708ee6fdc015d50938a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 07/97] fix: clear the cache of the volume derivative functions

---
 rt1/rt1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 8f886e4..75a5ace 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -227,7 +227,7 @@ class RT1(object):
 
         names = [
             "_d_surface_dummy_lambda",
-            "_d_surface_dummy_lambda",
+            "_d_volume_dummy_lambda",
             "_mu_0_x",
             "_mu_ex_x",
         ]
@@ -235,7 +235,7 @@ class RT1(object):
 
     def _clear_cache(self):
         self._d_surface_dummy_lambda.cache_clear()
-        self._d_surface_dummy_lambda.cache_clear()
+        self._d_volume_dummy_lambda.cache_clear()
         RT1._mu_0_x.fget.cache_clear()
         RT1._mu_ex_x.fget.cache_clear()
 
-- 
2.43.0


From 50cb959b52693b9deae939da3a7b03b40158adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 08/97] fix: parameter names must not overwrite variables of
 the rt1 module

---
 rt1/rt1.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 75a5ace..5ce097f 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -321,9 +321,14 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
-                ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                + tuple(map(str, self.param_dict.keys()))
+            # (don't use sp.var() here since it would overwrite any module-level
+            # variable that has the same name as one of the parameters!)
+            variables = tuple(
+                map(
+                    sp.Symbol,
+                    ("theta_0", "phi_0", "theta_ex", "phi_ex")
+                    + tuple(map(str, self.param_dict.keys())),
+                )
             )
 
             # use symengine's Lambdify if symengine has been used within
-- 
2.43.0


From 206e79067810f3f468465b89f0d99423a889421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 09/97] fix: evaluate fn-coefficients independent of the order
 of param_dict

---
 rt1/rt1.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 5ce097f..06385c2 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -327,7 +327,7 @@ class RT1(object):
                 map(
                     sp.Symbol,
                     ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                    + tuple(map(str, self.param_dict.keys())),
+                    + tuple(map(str, sorted(self.param_dict, key=str))),
                 )
             )
 
@@ -370,7 +370,9 @@ class RT1(object):
 
                                     The call-signature is:
                                         RT1-object._fnevals(theta_0, phi_0, \
-                                        theta_ex, phi_ex, *param_dict.values())
+                                        theta_ex, phi_ex, *params)
+                                    where params are the values of param_dict
+                                    sorted by the names of the parameters
                                     """
 
             else:
@@ -1250,6 +1252,14 @@ class RT1(object):
 
         return self.SRF.NormBRDF * (1.0 - self.bsf) * Iint
 
+    @property
+    def _param_values(self):
+        """
+        The values of the param_dict sorted by the names of the parameters
+        (e.g. the order in which they are passed to the _fnevals functions)
+        """
+        return [self.param_dict[key] for key in sorted(self.param_dict, key=str)]
+
     def _calc_Fint_1(self):
         """
         Numerical evaluation of the F_int() function used in the definition
@@ -1270,7 +1280,7 @@ class RT1(object):
                 phi1,
                 np.arccos(mu2),
                 phi2,
-                *self.param_dict.values(),
+                *self._param_values,
             )
 
             # to correct for 0 dimensional arrays if a fn-coefficient
@@ -1282,7 +1292,7 @@ class RT1(object):
                 phi1,
                 np.arccos(mu2),
                 phi2,
-                *self.param_dict.values(),
+                *self._param_values,
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is a constant (all coefficients must have the shape of the angles!)
@@ -1312,7 +1322,7 @@ class RT1(object):
                 phi1,
                 np.arccos(mu2),
                 phi2,
-                *self.param_dict.values(),
+                *self._param_values,
             )
 
             # to correct for 0 dimensional arrays if a fn-coefficient
@@ -1324,7 +1334,7 @@ class RT1(object):
                 phi1,
                 np.arccos(mu2),
                 phi2,
-                *self.param_dict.values(),
+                *self._param_values,
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is a constant (all coefficients must have the shape of the angles!)
-- 
2.43.0


From 9f48888e37bd5fbbf191df851e7dc258f5781d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 10/97] fix: second interaction path for geometries with fixed
 angles

---
 rt1/rt1.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 06385c2..ba22a04 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -393,6 +393,37 @@ class RT1(object):
 
     _fnevals = property(_get_fnevals, _set_fnevals)
 
+    @property
+    def _fnevals_ex(self):
+        """
+        the function to evaluate the fn-coefficients for the second interaction
+        path (i.e. with interchanged incidence- and exit angles)
+        """
+        # if all angles are treated as variables, the function is symmetric
+        if "f" not in self.geometry:
+            return self._fnevals
+
+        # fixed angles are part of the fn-coefficients so they must be
+        # interchanged before evaluating the coefficients!
+        try:
+            return self.__fnevals_ex
+        except AttributeError:
+            R = RT1(
+                self.I0,
+                self.t_ex,
+                self.t_0,
+                self.p_ex,
+                self.p_0,
+                V=self.V,
+                SRF=self.SRF,
+                geometry="".join(self.geometry[i] for i in (1, 0, 3, 2)),
+                param_dict=self.param_dict,
+                lambda_backend=self.lambda_backend,
+                verbosity=self.verbosity,
+            )
+            self.__fnevals_ex = R._fnevals
+            return self.__fnevals_ex
+
     def _get_t_0(self):
         return self.__t_0
 
@@ -1314,6 +1345,7 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
         """
         mu1, mu2, phi1, phi2 = self._mu_ex, self._mu_0, self.p_ex, self.p_0
+        fnevals = self._fnevals_ex
 
         # evaluate fn-coefficients
         if self.lambda_backend == "symengine":
@@ -1327,7 +1359,7 @@ class RT1(object):
 
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is a constant (all coefficients must have the shape of the angles!)
-            fn = np.broadcast_arrays(*self._fnevals(args), args[0])[:-1]
+            fn = np.broadcast_arrays(*fnevals(args), args[0])[:-1]
         else:
             args = np.broadcast_arrays(
                 np.arccos(mu1),
@@ -1338,7 +1370,7 @@ class RT1(object):
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is a constant (all coefficients must have the shape of the angles!)
-            fn = np.broadcast_arrays(*self._fnevals(*args), args[0])[:-1]
+            fn = np.broadcast_arrays(*fnevals(*args), args[0])[:-1]
 
         multip = self._mu_ex_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From 76c8d943a4b3f25068090681aedcef2d0c4e2048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 11/97] fix: re-evaluate fn-coefficients if the value of a
 fixed angle is changed

---
 rt1/rt1.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index ba22a04..6ae9fc7 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -424,10 +424,23 @@ class RT1(object):
             self.__fnevals_ex = R._fnevals
             return self.__fnevals_ex
 
+    def _reset_fn(self, name, value):
+        """
+        drop fn-coefficients (and associated functions) that have been evaluated
+        for a different value of an angle that is treated as a numerical constant
+        """
+        old = self.__dict__.get(f"_RT1__{name}", None)
+        if old is None or np.array_equal(np.unique(old), np.unique(value)):
+            return
+        for key in ["_RT1__fn", "_RT1__fnevals", "_RT1__fnevals_ex"]:
+            self.__dict__.pop(key, None)
+
     def _get_t_0(self):
         return self.__t_0
 
     def _set_t_0(self, t_0):
+        if self.geometry[0] == "f":
+            self._reset_fn("t_0", t_0)
         # if t_0 is given as scalar input, convert it to 1d numpy array
         if np.isscalar(t_0):
             t_0 = np.array([t_0])
@@ -442,6 +455,8 @@ class RT1(object):
         return self.__p_0
 
     def _set_p_0(self, p_0):
+        if self.geometry == "mono" or self.geometry[2] == "f":
+            self._reset_fn("p_0", p_0)
         # if p_o is given as scalar input, convert it to 1d numpy array
         if np.isscalar(p_0):
             p_0 = np.array([p_0])
@@ -461,6 +476,8 @@ class RT1(object):
             log.info('t_ex is always equal to t_0 if geometry is "mono"')
             pass
         else:
+            if self.geometry[1] == "f":
+                self._reset_fn("t_ex", t_ex)
             # if t_ex is given as scalar input, convert it to 1d numpy array
             if np.isscalar(t_ex):
                 t_ex = np.array([t_ex])
@@ -482,6 +499,8 @@ class RT1(object):
             log.info('p_ex is equal to (p_0 + PI) if geometry is "mono"!')
             pass
         else:
+            if self.geometry[3] == "f":
+                self._reset_fn("p_ex", p_ex)
             # if p_ex is given as scalar input, convert it to 1d numpy array
             if np.isscalar(p_ex):
                 p_ex = np.array([p_ex])
-- 
2.43.0


From 877f0a9fc70ae9de4b869d7d233e3e4c48074097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 12/97] fix: use np.round instead of np.round_ (removed in
 numpy 2.0)

---
 rt1/rtplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index eb37667..c9876d3 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -244,7 +244,7 @@ def polarplot(
                     [],
                     color=color,
                     label=r"$\theta_0$ = "
-                    + str(np.round_(np.rad2deg(ti), decimals=1))
+                    + str(np.round(np.rad2deg(ti), decimals=1))
                     + r"${}^\circ$",
                 )
             ]
-- 
2.43.0


From 7d8b2afacd3969f44986a556bd4d802458ad5b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 13/97] fix: legendre-coefficients of a cosine lobe of power 0

---
 rt1/surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rt1/surface.py b/rt1/surface.py
index e7d2083..a2b42fd 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -668,6 +668,9 @@ class CosineLobe(Surface):
     @lru_cache()
     def legcoefs(self):
         n = sp.Symbol("n")
+        if self.i == 0:
+            # a lobe of power 0 is isotropic (e.g. it equals 1/pi for all angles)
+            return sp.KroneckerDelta(n, 0) / sp.pi
         # A13   The Rational(is needed as otherwise a Gamma function
         # Pole error is issued)
         return (
-- 
2.43.0


From 8fb6d0c5539c110280600b36222b0267d2baddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 14/97] fix: hemreflect for surfaces with a symbolic NormBRDF

---
 rt1/rtplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index c9876d3..504ba92 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -336,7 +336,7 @@ def hemreflect(
     elif SRF is not None:
         BRDF = SRF.brdf
         try:
-            Nsymb = SRF.NormBRDF[0].free_symbols
+            Nsymb = SRF.NormBRDF.free_symbols
             Nfunc = sp.lambdify(Nsymb, SRF.NormBRDF, modules=["numpy"])
             NormBRDF = Nfunc(*[param_dict[str(i)] for i in Nsymb])
         except Exception:
-- 
2.43.0


From b188857631f45eb9b8f3993ba3c92c0e1f0b362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 15/97] fix: derivatives of the cosine lobe

---
 rt1/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index a2b42fd..e6a5b00 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -709,7 +709,8 @@ class CosineLobe(Surface):
         #     (this is done because   sp.lambdify('x',sp.Max(x), "numpy")
         #      generates a function that can not interpret array inputs.)
         x = self.scat_angle(theta_0, theta_ex, phi_0, phi_ex, a=self.a)
-        return 1.0 / sp.pi * (x * (1.0 + sp.sign(x)) / 2.0) ** self.i
+        # (the same is true for the derivatives of expressions with sp.sign())
+        return 1.0 / sp.pi * sp.Piecewise((x**self.i, x > 0), (0.0**self.i, True))
 
 
 class HenyeyGreenstein(Surface):
-- 
2.43.0


From a295a48cc9e78f8b550464036463357c598b3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 16/97] fix: shape of the volume and interaction contribution
 if tau=0

---
 rt1/rt1.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 6ae9fc7..be4fff7 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -746,15 +746,14 @@ class RT1(object):
         if isinstance(self.V.tau, (int, float)):
             Isurf = self.surface()
             # differentiation for non-existing canopy, as otherwise NAN values
+            Ivol = self.volume()
             if self.V.tau > 0.0:
-                Ivol = self.volume()
                 if self.int_Q is True:
                     Iint = self.interaction()
                 else:
                     Iint = np.array([0.0])
             else:
-                Ivol = np.array([0.0])
-                Iint = np.array([0.0])
+                Iint = np.zeros_like(Isurf + Ivol)
         else:
             Isurf = self.surface()
             Ivol = self.volume()
-- 
2.43.0


From 2301fa12d114cd5e7c88b18b23db15ba412df3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 17/97] fix: numeric evaluation of functions whose t-parameter
 is an expression

---
 rt1/surface.py | 6 ++++++
 rt1/volume.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/rt1/surface.py b/rt1/surface.py
index e6a5b00..aed1790 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -863,6 +863,12 @@ class HG_nadirnorm(Surface):
 
         if isinstance(self.t, sp.Symbol):
             t = kwargs[str(self.t)]
+        elif isinstance(self.t, sp.Basic):
+            # t is an expression of (possibly multiple) parameters
+            symbs = sorted(self.t.free_symbols, key=str)
+            t = sp.lambdify(symbs, self.t, modules=["numpy", "sympy"])(
+                *(kwargs[str(s)] for s in symbs)
+            )
         else:
             t = self.t
 
diff --git a/rt1/volume.py b/rt1/volume.py
index d070839..c450bca 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -717,6 +717,12 @@ class HenyeyGreenstein(Volume):
         """direct numeric version of _func"""
         if isinstance(self.t, sp.Symbol):
             t = kwargs[str(self.t)]
+        elif isinstance(self.t, sp.Basic):
+            # t is an expression of (possibly multiple) parameters
+            symbs = sorted(self.t.free_symbols, key=str)
+            t = sp.lambdify(symbs, self.t, modules=["numpy", "sympy"])(
+                *(kwargs[str(s)] for s in symbs)
+            )
         else:
             t = self.t
         x = self._scat_angle_numeric(theta_0, theta_ex, phi_0, phi_ex, self.a)
-- 
2.43.0


From 80ea4971dd4c7101ba07461f1a8ff8b89564bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 18/97] fix: parameter names must not overwrite variables of
 the rtfits module

---
 rt1/rtfits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 909207a..15a7783 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1060,7 +1060,9 @@ class Fits(Scatter):
         for key, val in self.defdict.items():
             # if parameter is intended to be fitted, assign a sympy-symbol
             if val[0] is True:
-                setdict[key] = sp.var(key)
+                # (don't use sp.var() here since it would overwrite any module-level
+                # variable that has the same name as the parameter!)
+                setdict[key] = sp.Symbol(key)
 
             elif val[0] is False:
                 # treat parameters that are intended to be constants
@@ -1069,7 +1071,7 @@ class Fits(Scatter):
                     setdict[key] = val[1]
                 else:
                     # if value is provided as array, add it to fixed_dict
-                    setdict[key] = sp.var(key)
+                    setdict[key] = sp.Symbol(key)
         return setdict
 
     @property
-- 
2.43.0


From 13970c869177c398ce1588d460916e0a28a4bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 19/97] fix: jacobian for parameter-groups that are not
 consecutive

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 15a7783..d1ec17a 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1885,8 +1885,10 @@ class Fits(Scatter):
                 data = np.fromiter(chain(*jac[i]), dtype=float, count=jac_size)
                 row_ind, col_ind = self._jac_assign_rule[key]
                 # generate a sparse matrix
+                # (col_ind is sorted with respect to the parameter-groups which
+                # are not necessarily consecutive!)
                 m = csr_matrix(
-                    (data, (row_ind, col_ind)),
+                    (data[col_ind], (row_ind, col_ind)),
                     shape=(max(row_ind) + 1, max(col_ind) + 1),
                 )
                 newjacdict[key] = m
-- 
2.43.0


From 8757b24b27f6af524a71d58e783b92e19348f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 20/97] fix: derivatives of functional definitions of tau,
 omega and NormBRDF

---
 rt1/rtfits.py | 115 ++++++++++++++++++--------------------------------
 1 file changed, 41 insertions(+), 74 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index d1ec17a..24437b6 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1843,25 +1843,47 @@ class Fits(Scatter):
             assign=True,
         )
 
-        # if tau, omega or NormBRDF have been provided in terms of symbols,
-        # remove the symbols that are intended to be fitted (that are also
-        # in param_dyn_dict) and replace them by 'omega', 'tau' and 'NormBRDF'
-        # so that calling R.jacobian will calculate the "outer" derivative
-        neworder = [o for o in order]
-        if len(self._tau_symb) != 0:
-            for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "tau"
-        if len(self._omega_symb) != 0:
-            for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "omega"
-        if len(self._N_symb) != 0:
-            for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "NormBRDF"
-
-        # calculate the jacobian based on neworder
-        # (evaluating only "outer" derivatives with respect to omega,
-        # tau and NormBRDF)
-        jac = R.jacobian(sig0=self.sig0, dB=self.dB, param_list=neworder)
+        # distribute the parameter-values to the shape of the dataset
+        # (as required to evaluate the "inner" derivatives)
+        vals = self._assignvals(res_dict, interp_vals)
+        vals.update(fixed_dict)
+
+        # if tau, omega or NormBRDF have been provided in terms of symbols, the
+        # derivatives are evaluated via the chain-rule, i.e.:
+        #    df/dx = df/dtau * dtau/dx = df/dtau * d_inner
+        # (the same symbol might be used in more than one of the definitions and
+        # also directly in the definition of the scattering functions)
+        inner = dict(
+            tau=(self._tau_symb, self._tau_diff_func),
+            omega=(self._omega_symb, self._omega_diff_func),
+            NormBRDF=(self._N_symb, self._N_diff_func),
+        )
+        terms = dict()
+        for key in order:
+            terms[key] = [p for p, (_, funcs) in inner.items() if key in funcs]
+            if key in R.param_dict or len(terms[key]) == 0:
+                terms[key].append(key)
+
+        # evaluate all "outer" derivatives
+        outer_list = list(dict.fromkeys(chain(*terms.values())))
+        outer = dict(
+            zip(
+                outer_list,
+                R.jacobian(sig0=self.sig0, dB=self.dB, param_list=outer_list),
+            )
+        )
+
+        jac = []
+        for key in order:
+            df_dx = np.zeros_like(self.inc, dtype=float)
+            for p in terms[key]:
+                if p in inner and key in inner[p][1]:
+                    symbs, funcs = inner[p]
+                    d_inner = funcs[key](**{i: vals[i] for i in symbs})
+                else:
+                    d_inner = 1.0
+                df_dx = df_dx + outer[p] * d_inner
+            jac.append(df_dx)
         # self.jacshape = jac[0].shape
         # generate a scipy.sparse matrix that represents the jacobian for all
         # the individual parameters according to jac_dyn_dict
@@ -1893,61 +1915,6 @@ class Fits(Scatter):
                 )
                 newjacdict[key] = m
 
-        # evaluate jacobians of the functional representations of tau
-        # and add them to newjacdict
-        for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-            # generate a function that evaluates the 'inner' derivative, i.e.:
-            # df/dx = df/dtau * dtau/dx = df/dtau * d_inner
-            # evaluate the inner derivative
-            df_dx = self._tau_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._tau_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                # flatten the array (except if it is a scalar)
-                # happens for example when   f = 5*x   ->   df/dx = 5
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                # calculate "outer" * "inner" derivative for sparse matrices
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for omega
-        for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._omega_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._omega_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for NormBRDF
-        for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._N_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._N_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
         if hasattr(self, "intermediate_results"):
             self.intermediate_results["jacobian"] += [newjacdict]
 
-- 
2.43.0


From dfc56ace2fdd8db6222934951dcc6cb95c869b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 21/97] fix: incorporate data-weights in the jacobian used to
 perform the fit

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 24437b6..8965bcd 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1883,7 +1883,8 @@ class Fits(Scatter):
                 else:
                     d_inner = 1.0
                 df_dx = df_dx + outer[p] * d_inner
-            jac.append(df_dx)
+            # incorporate data-weighting
+            jac.append(self.data_weights * df_dx)
         # self.jacshape = jac[0].shape
         # generate a scipy.sparse matrix that represents the jacobian for all
         # the individual parameters according to jac_dyn_dict
-- 
2.43.0


From 34cc2cc1bf463e1f86dc814e50bf3469ffb952bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 22/97] fix: re-evaluate the interaction functions if the
 definition of a fit is changed

---
 rt1/rtfits.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 8965bcd..939ca3a 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -384,7 +384,7 @@ class Fits(Scatter):
             delattr(self, "_rt1_dump_mini")
 
             # remove unnecessary data to save storage
-            removekeys = ["_fnevals_input"]
+            removekeys = ["_fnevals_input", "_auto_fnevals"]
             returndict = {key: val for key, val in self.__dict__.items()}
             for key in removekeys:
                 returndict[key] = None
@@ -412,6 +412,14 @@ class Fits(Scatter):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
 
+        # drop functions to evaluate the interaction-term that have been generated
+        # for a different definition of the model
+        # (functions that have been provided explicitly are maintained)
+        if attr in ["defdict", "set_V_SRF", "lambda_backend"]:
+            auto_fnevals = self.__dict__.pop("_auto_fnevals", None)
+            if auto_fnevals is not None and self._fnevals_input is auto_fnevals:
+                self._fnevals_input = None
+
         super().__setattr__(attr, value)
 
     @property
@@ -1359,6 +1367,8 @@ class Fits(Scatter):
 
         if self.int_Q is True and self._fnevals_input is None:
             self._fnevals_input = R._fnevals
+            # remember that the functions have been generated automatically
+            self._auto_fnevals = self._fnevals_input
         elif self.int_Q is True:
             # store _fnevals functions in case they have not been provided as
             # input-arguments explicitly to avoid recalculation for each step
-- 
2.43.0


From 37ee83f7f437274e0f28846a867946759d6b5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 23/97] fix: share all attributes if a fit is re-initialized

---
 rt1/rtfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 939ca3a..5371864 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2739,6 +2739,8 @@ class Fits(Scatter):
             "int_Q": self.int_Q,
             "lambda_backend": self.lambda_backend,
             "_fnevals_input": use_fnevals,
+            "verbose": self.verbose,
+            "ID": self.ID,
         }
 
         args.update(**kwargs)
@@ -2808,7 +2810,9 @@ class Fits(Scatter):
             a new Fits-object.
 
         """
-        return self._reinit_object(self, **kwargs)
+        return self._reinit_object(
+            self, share_fnevals=share_fnevals, share_auxdata=share_auxdata, **kwargs
+        )
 
     def _get_res_dict_df(self, ID=None):
         """
-- 
2.43.0


From a3c82b4ff623613551ad5a3f1fbbc665883f5d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 24/97] fix: integer frequencies larger than the number of
 available dates

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 5371864..87298ed 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -632,7 +632,7 @@ class Fits(Scatter):
                         # find the number of groups required to split the
                         # dataset into measurement-bins of length "f"
                         n_dat = self.dataset.index.nunique()
-                        ngrps = n_dat // f
+                        ngrps = max(1, n_dat // f)
                         rest = n_dat % f
                         res = [0 for i in range(ngrps)]
                         # distribute the rest as equal as possible
-- 
2.43.0


From 8334317b758e7e90b8f402b2d3414619b2789897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 25/97] fix: support arbitrary labels for manual parameter
 dynamics

---
 rt1/rtfits.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 87298ed..bd73962 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -672,21 +672,12 @@ class Fits(Scatter):
 
             manual_dyn_df = self._manual_dyn_df
             if manual_dyn_df is not None:
-                for key, val in manual_dyn_df.astype(str).items():
-                    dd1 = np.char.zfill(
-                        np.array(param_dyn_dict[key], dtype="str"),
-                        len(
-                            max(
-                                np.array(param_dyn_dict[key], dtype="str"),
-                                key=len,
-                            )
-                        ),
-                    )
-                    dd2 = val.str.zfill(len(max(val, key=len)))
-                    # generate a combined (unique) integer
-                    param_dyn_dict[key] = np.array(
-                        np.char.add(dd1, dd2), dtype=float
-                    ).astype(int)
+                for key, val in manual_dyn_df.items():
+                    # identify the groups by consecutive integers (to support
+                    # arbitrary labels) and generate a combined (unique) integer
+                    dd1, _ = pd.factorize(np.array(param_dyn_dict[key]))
+                    dd2, _ = pd.factorize(val, use_na_sentinel=False)
+                    param_dyn_dict[key] = dd1 * (max(dd2) + 1) + dd2
             return param_dyn_dict
 
     @property
-- 
2.43.0


From 11c40bf3c67d582f52030cf1c070121ab5ccfc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 26/97] fix: auxiliary start-values if the number of
 observations per date varies

---
 rt1/rtfits.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index bd73962..1ff878f 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1129,27 +1129,22 @@ class Fits(Scatter):
                     )
 
                     # evaluate the mean start-value for each group
-                    if val[2] == "index":
-                        # avoid grouping with _param_assigns since anyway
-                        # only a single value is given for each group
-                        meanstartvals = np.mean(meanstartvals, axis=1)
-                    else:
-                        # get a rectangularized list of indices for each
-                        # parameter (instead of using a loop which can be VERY
-                        # slow for a large number of parameters)
-                        st, sm = rectangularize(
-                            self._param_assigns[key].values(), return_mask=True
-                        )
-                        # average over each group in the dataset
-                        meanstartvals = np.ma.mean(
-                            rectangularize(meanstartvals, return_masked=True),
-                            axis=1,
-                        )
-                        # assign individual values to each parameter-group
-                        meanstartvals = np.ma.mean(
-                            np.ma.masked_array(np.take(meanstartvals, st), sm),
-                            axis=1,
-                        ).compressed()
+                    # get a rectangularized list of indices for each
+                    # parameter (instead of using a loop which can be VERY
+                    # slow for a large number of parameters)
+                    st, sm = rectangularize(
+                        self._param_assigns[key].values(), return_mask=True
+                    )
+                    # average over each group in the dataset
+                    meanstartvals = np.ma.mean(
+                        rectangularize(meanstartvals, return_masked=True),
+                        axis=1,
+                    )
+                    # assign individual values to each parameter-group
+                    meanstartvals = np.ma.mean(
+                        np.ma.masked_array(np.take(meanstartvals, st), sm),
+                        axis=1,
+                    ).compressed()
 
                     startvaldict[key] = meanstartvals
                 else:
-- 
2.43.0


From 53c8095185e7d4fc05666ba405b824d7b146d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 27/97] fix: calc_model(return_components=True) for linear
 intensity values

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 1ff878f..b587f2e 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1773,7 +1773,7 @@ class Fits(Scatter):
 
         # calculate total backscatter-values
         if return_components is True:
-            model_calc = R.calc()
+            model_calc = np.array(R.calc())
         else:
             model_calc = R.calc()[0]
 
-- 
2.43.0


From 2f7e80cc797d14ac0ee71d1c218afa90b4cd6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 28/97] fix: fixed parameters used in the components of linear
 combinations

---
 rt1/rtfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index b587f2e..47914b1 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2190,7 +2190,10 @@ class Fits(Scatter):
                 for val, initdict in props[f"{prefix}choices"]:
                     useval = checkval(val, val)
 
-                    choices.append([useval, self._init_V_SRF(initdict)])
+                    choice = self._init_V_SRF(initdict, setdict=setdict)
+                    free_symbols.update(choice.free_symbols)
+
+                    choices.append([useval, choice])
 
                 set_dict[f"{prefix}choices"] = choices
 
-- 
2.43.0


From 74f610897ebbd19d0fadd4f9289fe3725ac1d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 29/97] fix: joint parameter-groups whose number exceeds the
 range of int64

---
 rt1/rtfits.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 47914b1..148802c 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -730,7 +730,13 @@ class Fits(Scatter):
                 conclist = list(map(partial(doit, N=maxdict[key]), val))
             else:
                 conclist = map(add, conclist, map(partial(doit, N=maxdict[key]), val))
-        return np.array(list(map(int, conclist)))
+        groupindex = list(map(int, conclist))
+        try:
+            return np.array(groupindex, dtype=np.int64)
+        except OverflowError:
+            # maintain exact integers in case the concatenated numbers are too large
+            # (otherwise they would be converted to floats and groups get lost)
+            return np.array(groupindex, dtype=object)
 
     @property
     @lru_cache()
-- 
2.43.0


From e65ad320630c8fafcbdfd980315d1f0d3b9b37cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 30/97] fix: average date of lists of datetime-objects

---
 rt1/general_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index d8fd94a..bd54373 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -112,10 +112,11 @@ def meandatetime(datetimes):
     if len(datetimes) == 1:
         return datetimes[0]
 
-    x = datetimes
-    deltas = (x[0] - x[1:]) / len(x)
-    meandelta = sum(deltas)
-    meandate = x[0] - meandelta
+    # (iterate over the values to support any kind of datetime-objects)
+    first, *others = datetimes
+    meandate = first
+    for i in others:
+        meandate = meandate - (first - i) / len(datetimes)
     return meandate
 
 
-- 
2.43.0


From fc9310641283f0add75c3b8f67e30c5df1b386d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 31/97] fix: interpolation of parameter-groups that appear
 repeatedly

---
 rt1/rtfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 148802c..a9e7997 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -705,8 +705,11 @@ class Fits(Scatter):
     @lru_cache()
     def _param_dyn_monotonic(self):
         """a dict indicating if the param_dyn assignments are monotonic"""
+        # (check the assignments with respect to the dataset, since the unique
+        # combinations in param_dyn_df do not contain groups that appear repeatedly)
         return {
-            key: val.is_monotonic_increasing for key, val in self.param_dyn_df.items()
+            key: pd.Index(val).is_monotonic_increasing
+            for key, val in self.param_dyn_dict.items()
         }
 
     @property
-- 
2.43.0


From c1eb20070024e161c7d6c375e64b2cbe6bb24cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 32/97] fix: fit.calc() for components that depend on different
 parameters

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index a9e7997..1c5687b 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1782,7 +1782,9 @@ class Fits(Scatter):
 
         # calculate total backscatter-values
         if return_components is True:
-            model_calc = np.array(R.calc())
+            # (the components only have the same shape if they depend on the same
+            # parameters)
+            model_calc = np.array(np.broadcast_arrays(*R.calc()))
         else:
             model_calc = R.calc()[0]
 
-- 
2.43.0


From 9c7f36fcf9da9d943bad5ea4995297c8360c317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 33/97] fix: conversion of parameter definitions to dicts

---
 rt1/_containers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 58d0c37..213c83d 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -386,10 +386,10 @@ class _RT1_variable:
         """
 
         return dict(
-            fitQ=self.fitQ.value,
-            val=self.val.value,
-            freq=self.freq.value,
-            minval=self.minval.value,
-            maxval=self.maxval.value,
-            interpQ=self.interpQ.value,
+            fitQ=self.fitQ,
+            val=self.val,
+            freq=self.freq,
+            minval=self.minval,
+            maxval=self.maxval,
+            interpQ=self.interpQ,
         )
-- 
2.43.0


From 8c85161a975c27fc19357a88bf465229f75f23d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 34/97] fix: overwrite existing parameter definitions on
 attribute assignment

---
 rt1/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 213c83d..e537451 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -24,7 +24,7 @@ class _RT1_defdict:
         return getattr(self.var, key)
 
     def __setattr__(self, key, val):
-        if not key.startswith("_") and key not in self._variables:
+        if not key.startswith("_"):
             # set the value of the corresponding property on item assignment
             if isinstance(val, dict):
                 self.add_variable(key, **val)
-- 
2.43.0


From 62649258339473ee9b3a622fae0996ed93fca192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 35/97] fix: boundary values of parameter definitions assigned
 as list

---
 rt1/_containers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index e537451..47cbe5c 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -29,7 +29,12 @@ class _RT1_defdict:
             if isinstance(val, dict):
                 self.add_variable(key, **val)
             elif isinstance(val, list):
-                self.add_variable(key, *val)
+                if len(val) > 3 and isinstance(val[3], (list, tuple)):
+                    # [fitQ, val, freq, ([minval], [maxval]), interpQ]
+                    self.add_variable(key)
+                    self[key]._from_list(val)
+                else:
+                    self.add_variable(key, *val)
             else:
                 raise AttributeError(
                     "RT1 defdicts only support setting new variables"
-- 
2.43.0


From 4f2b3b645e78a22b1b3d0f99919e64f79d5e0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 36/97] fix: parameter definitions provided as pandas.DataFrame

---
 rt1/_containers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 47cbe5c..5e3081f 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -1,5 +1,7 @@
 import copy
 
+import pandas as pd
+
 
 class _var_container:
     def __init__(self):
@@ -165,6 +167,15 @@ class _RT1_defdict:
 
         defdict = cls()
         for key, val in d.items():
+            # columns of a pandas.DataFrame
+            if isinstance(val, pd.Series):
+                # (missing values are represented as NaN)
+                val = val.astype(object).where(val.notna(), None)
+                if set(val.index) <= set(_RT1_variable._paramnames):
+                    val = val.to_dict()
+                else:
+                    val = val.to_list()
+
             defdict.add_variable(key)
             if isinstance(val, list):
                 defdict[key]._from_list(copy.deepcopy(val) if copy_vals else val)
-- 
2.43.0


From b01d8b3f1a3602f9ad6507bc7ea57317bba2141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 37/97] fix: clear the cache if the dataset of a MultiFits
 object is changed

---
 rt1/rtfits.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 1c5687b..4745c86 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3267,9 +3267,8 @@ class MultiFits:
     def set_dataset(self, dataset):
         self._dataset = Fits._check_monotonic_dataset_index(dataset)
         for name in self.config_names:
-            # set "_dataset" directly instead of "dataset" to avoid checking the
-            # index-sorting twice in the dataset-setter
-            getattr(self.configs, name)._dataset = self._dataset
+            # (use the setter to make sure that the cache is cleared)
+            getattr(self.configs, name).dataset = self._dataset
 
     def set_aux_data(self, aux_data):
         self._aux_data = aux_data
-- 
2.43.0


From 78fe5aa68419fffc51dae2496aa34cfac1c8f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 38/97] fix: overwrite configurations and set reader_arg in
 MultiFits.add_config

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 4745c86..2fa2ce9 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3350,10 +3350,12 @@ class MultiFits:
         assert name not in set(
             self.__dict__
         ), f"you can not use {name} as the name for a configuration!"
-        self.config_names.append(name)
+        if name not in self.config_names:
+            self.config_names.append(name)
 
         fit_object.dataset = self.dataset
         fit_object.aux_data = self.aux_data
+        fit_object.reader_arg = self.reader_arg
         fit_object.config_name = name
         setattr(self.configs, name, fit_object)
 
-- 
2.43.0


From e48dbbca3b25fae6575c0feaf76156afa19ed22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 39/97] fix: arguments of the callbacks of the MultiFits
 accessor

---
 rt1/rtfits.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 2fa2ce9..717c1e8 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3089,16 +3089,12 @@ class _MultiAccessors:
 
         @wraps(getattr(Fits, prop))
         def cb(*args, **kwargs):
-            for i, arg in enumerate(args):
-                # update args and kwargs with new provided ones in case the function is
-                # called explicitly
-                if i < len(start_args):
-                    start_args[i] = arg
-                else:
-                    start_args.append(arg)
-            start_kwargs.update(kwargs)
+            # update args and kwargs with new provided ones in case the function is
+            # called explicitly (without changing the initial ones)
+            use_args = (*args, *start_args[len(args) :])
+            use_kwargs = {**start_kwargs, **kwargs}
 
-            return methodcaller(prop, *start_args, **start_kwargs)(val)
+            return methodcaller(prop, *use_args, **use_kwargs)(val)
 
         return cb
 
-- 
2.43.0


From fa34f6502cd0a5fae37d5a33942bfd17d809d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 40/97] fix: positional arguments of functions called via the
 MultiFits accessor

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 717c1e8..46ff3b2 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3055,7 +3055,7 @@ class _MultiAccessors:
                     self,
                     prop,
                     update_wrapper(
-                        partial(self._applyit, prop=prop), getattr(Fits(), prop)
+                        partial(self._applyit, prop), getattr(Fits(), prop)
                     ),
                 )
             elif isinstance(getattr(Fits, prop), property):
-- 
2.43.0


From d3018dd20e837a7118a01cf78b598ff444afc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 41/97] fix: copies of Fits objects must not share their
 attributes

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 46ff3b2..e8eac45 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -401,7 +401,9 @@ class Fits(Scatter):
 
             return returndict
         else:
-            return self.__dict__
+            # (return a copy to make sure that copies of the object do not share
+            # the same dict)
+            return self.__dict__.copy()
 
     def __setattr__(self, attr, value):
         # TODO write proper setters that do the job
-- 
2.43.0


From 12b79744c942b108f7d730b3ec5c5fe719bd47fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 42/97] fix: maintain the properties of the fit-output on
 repeated minimal dumps

---
 rt1/rtfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index e8eac45..baaaa3c 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -391,7 +391,10 @@ class Fits(Scatter):
 
             # save only a minimal subset of the fit-output
             fit_props = dict()
-            if hasattr(self, "fit_output") and self.fit_output is not None:
+            if type(getattr(self, "fit_output", None)) is dict:
+                # the fit has already been loaded from a minimal dump
+                fit_props.update(self.fit_output)
+            elif hasattr(self, "fit_output") and self.fit_output is not None:
                 for key in ["success", "status", "optimality"]:
                     try:
                         fit_props[f"fit_{key}"] = getattr(self.fit_output, key)
-- 
2.43.0


From 9db44bbe13defca519060332d83bb6ea5bf829de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 43/97] fix: fits remain unchanged if writing a minimal dump
 failed

---
 rt1/rtfits.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index baaaa3c..bd233fe 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2417,8 +2417,12 @@ class Fits(Scatter):
             except AttributeError:
                 pass
 
-        with open(path, "wb") as file:
-            cloudpickle.dump(self, file)
+        try:
+            with open(path, "wb") as file:
+                cloudpickle.dump(self, file)
+        finally:
+            # make sure that the indicator is removed even if the dump failed
+            self.__dict__.pop("_rt1_dump_mini", None)
 
     def calc(self, param, inc, return_components=True, fixed_param=None):
         """
@@ -3377,5 +3381,10 @@ class MultiFits:
                 except AttributeError:
                     pass
 
-        with open(path, "wb") as file:
-            cloudpickle.dump(self, file)
+        try:
+            with open(path, "wb") as file:
+                cloudpickle.dump(self, file)
+        finally:
+            # make sure that the indicators are removed even if the dump failed
+            for fit in self.accessor.config_fits.values():
+                fit.__dict__.pop("_rt1_dump_mini", None)
-- 
2.43.0


From 01f7c647a7802c9108566ddf1ea646441d397a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 44/97] fix: maintain the ID if a fit is re-initialized

---
 rt1/rtfits.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index bd233fe..1f3c7d6 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2755,6 +2755,10 @@ class Fits(Scatter):
         args.update(**kwargs)
 
         fit = cls(**args)
+        if "ID" not in kwargs:
+            # use exactly the same ID (e.g. avoid prefixing IDs that are not valid
+            # identifiers a second time)
+            fit._ID = self._ID
 
         if share_auxdata is True:
             if hasattr(self, "aux_data"):
-- 
2.43.0


From ea61e27d43fa4db517fe46039a880d5c7c1e966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 45/97] fix: find_missing starts at 0 if the provided list is
 empty

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index bd54373..f61b6af 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -385,7 +385,7 @@ def find_missing(lst=[], N=None):
     """
     start = 0
     # get the max. ID defined in "lst"
-    maxID = max(lst) if len(lst) > 0 else 0
+    maxID = max(lst) if len(lst) > 0 else start - 1
 
     if len(lst) > 0:
         # check for IDs that can be used to "fill-up" the provided list
-- 
2.43.0


From a1b9c699693d40925db83d9bdc02429475f7b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 46/97] fix: interpolate_to_index supports lists and arrays as
 documented

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index f61b6af..d2119f8 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -347,7 +347,7 @@ def interpolate_to_index(data, index, data_index=None, **interp1d_kwargs):
             'you must provide "data_index"' + "if data is provided as list or array"
         )
 
-        f = interp1d(data_index.to_julian_date(), data.values, **kwargs)
+        f = interp1d(data_index.to_julian_date(), np.asarray(data), **kwargs)
         x = f(index.to_julian_date())
         return Series(x, index)
 
-- 
2.43.0


From b56613b000be9095a5270104a34dc3f5f3a12aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 47/97] fix: names of parameters do not clash with functions
 and constants in generated code

---
 rt1/rt1.py     | 38 +++++++-------------------------------
 rt1/rtfits.py  | 11 +++++++----
 rt1/scatter.py | 45 +++++++++++++++++++++++++++++++++++++++++++++
 rt1/surface.py | 23 +++++------------------
 rt1/volume.py  | 23 +++++------------------
 5 files changed, 69 insertions(+), 71 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index be4fff7..d4f41b4 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -19,6 +19,8 @@ from scipy.special import factorial
 
 import sympy as sp
 
+from .scatter import lambdify_by_name
+
 try:
     # if symengine is available, use it to perform series-expansions
     from symengine import expand, Lambdify
@@ -355,12 +357,7 @@ class RT1(object):
 
                 sympy_fn = list(map(sp.sympify, self.fn))
 
-                self.__fnevals = sp.lambdify(
-                    (variables),
-                    sp.sympify(sympy_fn),
-                    modules=["numpy", "sympy"],
-                    dummify=False,
-                )
+                self.__fnevals = lambdify_by_name(variables, sympy_fn)
 
                 self.__fnevals.__doc__ = """
                                     A function to numerically evaluate the
@@ -1640,35 +1637,14 @@ class RT1(object):
             a function that calculates the derivative with respect to key.
 
         """
-        theta_0 = sp.Symbol("theta_0")
-        theta_ex = sp.Symbol("theta_ex")
-        phi_0 = sp.Symbol("phi_0")
-        phi_ex = sp.Symbol("phi_ex")
-
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
-
-        return sp.lambdify(
-            args,
-            sp.diff(self.SRF._func, sp.Symbol(key)),
-            modules=["numpy", "sympy"],
-        )
+        names = ("theta_0", "theta_ex", "phi_0", "phi_ex") + tuple(self.param_dict)
+        return lambdify_by_name(names, sp.diff(self.SRF._func, sp.Symbol(key)))
 
     @lru_cache(20)
     def _d_volume_dummy_lambda(self, key):
         """same as _d_surface_dummy_lambda but for volume"""
-
-        theta_0 = sp.Symbol("theta_0")
-        theta_ex = sp.Symbol("theta_ex")
-        phi_0 = sp.Symbol("phi_0")
-        phi_ex = sp.Symbol("phi_ex")
-
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
-
-        return sp.lambdify(
-            args,
-            sp.diff(self.V._func, sp.Symbol(key)),
-            modules=["numpy", "sympy"],
-        )
+        names = ("theta_0", "theta_ex", "phi_0", "phi_ex") + tuple(self.param_dict)
+        return lambdify_by_name(names, sp.diff(self.V._func, sp.Symbol(key)))
 
     def _d_surface_ddummy(self, key):
         """
diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 1f3c7d6..cdce199 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -11,7 +11,7 @@ from scipy.sparse import vstack
 from scipy.sparse import csr_matrix, isspmatrix
 from scipy.interpolate import interp1d
 
-from .scatter import Scatter
+from .scatter import Scatter, lambdify_by_name
 from .rt1 import RT1, _init_lambda_backend
 from .general_functions import (
     meandatetime,
@@ -1392,7 +1392,7 @@ class Fits(Scatter):
         of V and SRF
         """
         try:
-            func = sp.lambdify(
+            func = lambdify_by_name(
                 list(getattr(getattr(self, V_SRF), prop).free_symbols),
                 getattr(getattr(self, V_SRF), prop),
                 modules=["numpy"],
@@ -1409,7 +1409,7 @@ class Fits(Scatter):
 
         d_inner = dict()
         for param in self._get_V_SRF_symbs(V_SRF, prop) & self.param_dyn_dict.keys():
-            d_inner[param] = sp.lambdify(
+            d_inner[param] = lambdify_by_name(
                 self._get_V_SRF_symbs(V_SRF, prop),
                 sp.diff(getattr(getattr(self, V_SRF), prop), sp.Symbol(param)),
                 modules=["numpy"],
@@ -2184,7 +2184,10 @@ class Fits(Scatter):
             # then replace them by the corresponding values in setdict
             else:
                 # convert to sympy expression (check doc for use of _clash)
-                useval = sp.sympify(val, _clash, evaluate=False)
+                # (known parameter-names always represent symbols, irrespective
+                # of whether they coincide with the name of a sympy-function)
+                symbs = {**_clash, **{str(i): sp.Symbol(str(i)) for i in setdict}}
+                useval = sp.sympify(val, symbs, evaluate=False)
                 # in case parts of the expression are provided in setdict,
                 # replace them with the provided values
                 replacements = dict()
diff --git a/rt1/scatter.py b/rt1/scatter.py
index 0d9a1d5..0635c49 100644
--- a/rt1/scatter.py
+++ b/rt1/scatter.py
@@ -5,6 +5,51 @@ import sympy as sp
 import numpy as np
 
 
+def lambdify_by_name(names, expr, modules=["numpy", "sympy"]):
+    """
+    Lambdify a sympy-expression with respect to the symbols with the given names.
+
+    The symbols are replaced internally to ensure that the names of the
+    parameters can not clash with the names used in the generated code
+    (e.g. a parameter called "pi")
+
+    Parameters
+    ----------
+    names : iterable of str
+        the names of the symbols
+    expr : sympy expression or list of sympy expressions
+        the expression(s) to evaluate
+    modules : list
+        the modules-argument passed to `sympy.lambdify`
+
+    Returns
+    -------
+    func : callable
+        a function whose arguments can be provided either by position or by name
+    """
+    names = tuple(map(str, names))
+    args = [sp.Symbol(f"_rt1_arg_{i}") for i in range(len(names))]
+    replacements = dict(zip(names, args))
+    # (symbols are identified by name, irrespective of their assumptions)
+    if isinstance(expr, (list, tuple)):
+        expr = sp.Tuple(*expr)
+    else:
+        expr = sp.sympify(expr)
+    expr = expr.xreplace(
+        {
+            symb: replacements[str(symb)]
+            for symb in expr.free_symbols
+            if str(symb) in replacements
+        }
+    )
+    lambda_func = sp.lambdify(args, expr, modules=modules)
+
+    def func(*args, **kwargs):
+        return lambda_func(*args, *(kwargs[name] for name in names[len(args) :]))
+
+    return func
+
+
 class Scatter(object):
     """The basis object for any Surface and Volume objects"""
 
diff --git a/rt1/surface.py b/rt1/surface.py
index aed1790..64231e0 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -4,7 +4,7 @@ import numpy as np
 import sympy as sp
 from functools import partial, update_wrapper, lru_cache
 
-from .scatter import Scatter
+from .scatter import Scatter, lambdify_by_name
 from .rtplots import polarplot, hemreflect
 
 
@@ -74,17 +74,10 @@ class Surface(Scatter):
 
     @lru_cache()
     def _lambda_func(self, *args):
-        # define sympy objects
-        theta_0 = sp.Symbol("theta_0")
-        theta_ex = sp.Symbol("theta_ex")
-        phi_0 = sp.Symbol("phi_0")
-        phi_ex = sp.Symbol("phi_ex")
-
         # replace arguments and evaluate expression
         # sp.lambdify is used to allow array-inputs
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(args)
-        pfunc = sp.lambdify(args, self._func, modules=["numpy", "sympy"])
-        return pfunc
+        names = ("theta_0", "theta_ex", "phi_0", "phi_ex") + args
+        return lambdify_by_name(names, self._func)
 
     def brdf(self, t_0, t_ex, p_0, p_ex, param_dict={}):
         """
@@ -414,14 +407,8 @@ class Surface(Scatter):
         if return_symbolic is True:
             return dfunc_dtheta_0
         else:
-            args = (
-                sp.Symbol("theta_0"),
-                sp.Symbol("theta_ex"),
-                sp.Symbol("phi_0"),
-                sp.Symbol("phi_ex"),
-            ) + tuple(param_dict.keys())
-
-            brdffunc = sp.lambdify(args, dfunc_dtheta_0, modules=["numpy", "sympy"])
+            names = ("theta_0", "theta_ex", "phi_0", "phi_ex") + tuple(param_dict)
+            brdffunc = lambdify_by_name(names, dfunc_dtheta_0)
 
             # in case _func is a constant, lambdify will produce a function
             # with scalar output which is not suitable for further processing
diff --git a/rt1/volume.py b/rt1/volume.py
index c450bca..e3858de 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -3,7 +3,7 @@
 import numpy as np
 import sympy as sp
 from functools import partial, update_wrapper, lru_cache
-from .scatter import Scatter
+from .scatter import Scatter, lambdify_by_name
 from .rtplots import polarplot
 
 
@@ -72,17 +72,10 @@ class Volume(Scatter):
 
     @lru_cache()
     def _lambda_func(self, *args):
-        # define sympy objects
-        theta_0 = sp.Symbol("theta_0")
-        theta_ex = sp.Symbol("theta_ex")
-        phi_0 = sp.Symbol("phi_0")
-        phi_ex = sp.Symbol("phi_ex")
-
         # replace arguments and evaluate expression
         # sp.lambdify is used to allow array-inputs
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(args)
-        pfunc = sp.lambdify(args, self._func, modules=["numpy", "sympy"])
-        return pfunc
+        names = ("theta_0", "theta_ex", "phi_0", "phi_ex") + args
+        return lambdify_by_name(names, self._func)
 
     def p(self, t_0, t_ex, p_0, p_ex, param_dict={}):
         """
@@ -279,14 +272,8 @@ class Volume(Scatter):
         if return_symbolic is True:
             return dfunc_dtheta_0
         else:
-            args = (
-                sp.Symbol("theta_0"),
-                sp.Symbol("theta_ex"),
-                sp.Symbol("phi_0"),
-                sp.Symbol("phi_ex"),
-            ) + tuple(param_dict.keys())
-
-            pfunc = sp.lambdify(args, dfunc_dtheta_0, modules=["numpy", "sympy"])
+            names = ("theta_0", "theta_ex", "phi_0", "phi_ex") + tuple(param_dict)
+            pfunc = lambdify_by_name(names, dfunc_dtheta_0)
 
             # in case _func is a constant, lambdify will produce a function
             # with scalar output which is not suitable for further processing
-- 
2.43.0


From 8bef568166c49bed19deb25c2e807d31bffc8f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 48/97] fix: parse the power of the CosineLobe function as
 integer in config-files

---
 rt1/rtparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index e066dc2..f7169a6 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -254,7 +254,7 @@ class RT1_configparser(object):
         parsed_dict = dict()
         for key in inp:
             val = None
-            if key == "ncoefs" or key[1:] == "__ncoefs":
+            if key in ["ncoefs", "i"] or key[1:] in ["__ncoefs", "__i"]:
                 val = inp.getint(key)
             elif key == "a" or key[1:] == "__a":
                 val = inp[key]
-- 
2.43.0


From 995306dadcaebc071681bac752a2d7596a2f7bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 49/97] fix: config-file overrides of single components of
 linear-combinations

---
 rt1/rtparse.py | 51 +++++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index f7169a6..f99b866 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -248,7 +248,30 @@ class RT1_configparser(object):
             parsed_dict[key] = val
         return parsed_dict
 
-    def _parse_V_SRF(self, section):
+    def _parse_V_SRF(self, section, override_section=None):
+        parsed_dict = self._parse_V_SRF_values(section)
+        if override_section is not None:
+            # override the values prior to grouping the specifications of the
+            # components of linear-combinations
+            parsed_dict.update(self._parse_V_SRF_values(override_section))
+
+        for prefix in ["V", "SRF"]:
+            if (
+                f"{prefix}_name" in parsed_dict
+                and parsed_dict[f"{prefix}_name"] == f"LinComb{prefix}"
+            ):
+                choices = defaultdict(lambda: [1, dict()])
+                for key in list(parsed_dict):
+                    if key[0].isupper() and key[1:].startswith("__"):
+                        if key.endswith("__frac"):
+                            choices[key[0]][0] = parsed_dict.pop(key)
+                        else:
+                            choices[key[0]][1][key[3:]] = parsed_dict.pop(key)
+
+                parsed_dict[f"{prefix}choices"] = list(choices.values())
+        return parsed_dict
+
+    def _parse_V_SRF_values(self, section):
         inp = self.config[section]
 
         parsed_dict = dict()
@@ -271,20 +294,6 @@ class RT1_configparser(object):
 
             parsed_dict[key] = val
 
-        for prefix in ["V", "SRF"]:
-            if (
-                f"{prefix}_name" in parsed_dict
-                and parsed_dict[f"{prefix}_name"] == f"LinComb{prefix}"
-            ):
-                choices = defaultdict(lambda: [1, dict()])
-                for key in list(parsed_dict):
-                    if key[0].isupper() and key[1:].startswith("__"):
-                        if key.endswith("__frac"):
-                            choices[key[0]][0] = parsed_dict.pop(key)
-                        else:
-                            choices[key[0]][1][key[3:]] = parsed_dict.pop(key)
-
-                parsed_dict[f"{prefix}choices"] = list(choices.values())
         return parsed_dict
 
     def _parse_defdict(self, section):
@@ -390,14 +399,14 @@ class RT1_configparser(object):
 
             # update RT1_V
             if f"#config {config} RT1_V" in self.config:
-                V_props = self._parse_V_SRF("RT1_V")
-                V_props.update(self._parse_V_SRF(f"#config {config} RT1_V"))
-                set_V_SRF["V_props"] = V_props
+                set_V_SRF["V_props"] = self._parse_V_SRF(
+                    "RT1_V", f"#config {config} RT1_V"
+                )
             # update RT1_SRF
             if f"#config {config} RT1_SRF" in self.config:
-                SRF_props = self._parse_V_SRF("RT1_SRF")
-                SRF_props.update(self._parse_V_SRF(f"#config {config} RT1_SRF"))
-                set_V_SRF["SRF_props"] = SRF_props
+                set_V_SRF["SRF_props"] = self._parse_V_SRF(
+                    "RT1_SRF", f"#config {config} RT1_SRF"
+                )
 
         return dict(
             lsq_kwargs=lsq_kwargs,
-- 
2.43.0


From f93f4561f95e63acc8d6a010dbbd0634766a467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 50/97] fix: refuse ambiguous defdict-entries in config-files

---
 rt1/rtparse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index f99b866..e884da3 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -333,14 +333,14 @@ class RT1_configparser(object):
 
                 parsed_val += [([float(val[3])], [float(val[4])])]
 
-                try:
-                    interp_Q = val[5]
-                    if interp_Q == "True":
-                        parsed_val += [True]
-                    else:
-                        parsed_val += [False]
-                except Exception:
-                    parsed_val += [False]
+                assert len(val) <= 6, f"too many values in the defdict-entry of {key}"
+
+                interp_Q = val[5] if len(val) > 5 else "False"
+                assert interp_Q in ["True", "False"], (
+                    f"the last defdict-argument of {key} ({interp_Q}) must be "
+                    + 'either "True" or "False"'
+                )
+                parsed_val += [interp_Q == "True"]
 
             parsed_dict[key] = parsed_val
 
-- 
2.43.0


From 4571c30de24dcae5b2098ebb05714f4ee30f7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 51/97] fix: refuse config-specific sections that would be
 ignored

---
 rt1/rtparse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index e884da3..ac1f92d 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -429,6 +429,7 @@ class RT1_configparser(object):
                         name, section = i_split[1:]
                         assert (
                             section in self.config
+                            and section not in ["PROCESS_SPECS", "CONFIGFILES"]
                         ), f"the provided config section {i} is invalid"
 
                         config_sections.append(name)
-- 
2.43.0


From f2eac64a8436f4268e020c7d97e7f9a9ac6072d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 52/97] fix: allow None and empty lists as values of typed
 process-specs

---
 rt1/rtparse.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index ac1f92d..210c4e9 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -598,7 +598,17 @@ class RT1_configparser(object):
             if val == "None":
                 val = None
 
-            if key.startswith("datetime__"):
+            if val is None:
+                # remove the type-specifiers from the key
+                name = key
+                if name.startswith("list__"):
+                    name = name[6:]
+                for prefix in ["datetime__", "path__", "bool__", "float__", "int__"]:
+                    if name.startswith(prefix):
+                        name = name[len(prefix) :]
+                        break
+                process_specs[name] = None
+            elif key.startswith("datetime__"):
                 date = dict(zip(["s", "fmt"], [i.strip() for i in val.split("fmt=")]))
                 process_specs[key[10:]] = self._to_dt(**date)
             elif key.startswith("path__"):
@@ -653,9 +663,10 @@ class RT1_configparser(object):
                         def conffunc(x):
                             return x
 
-                    process_specs[listkey] = [
-                        conffunc(i.strip()) for i in val.strip()[1:-1].split(",")
-                    ]
+                    vals = val.strip()[1:-1].strip()
+                    process_specs[listkey] = (
+                        [conffunc(i.strip()) for i in vals.split(",")] if vals else []
+                    )
 
                 else:
                     assert False, f"{key} is not a list! (use brackets [] !)"
-- 
2.43.0


From 822c5adc7e174d0909c7c59f268cd1f5504efeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 53/97] fix: evaluate metrics on pairs of available values with
 the same index

---
 rt1/rtmetrics.py | 60 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index d95fed0..9854d0a 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -14,6 +14,30 @@ import pandas as pd
 import matplotlib.pyplot as plt
 
 
+def _get_pairs(d1, d2):
+    """
+    get the pairs of (available) values that belong to the same index-value
+
+    Parameters
+    ----------
+    d1, d2 : pandas.Series
+        the time series
+
+    Returns
+    -------
+    d1, d2 : pandas.Series
+        the time series with a common index and without missing values
+    """
+    if not d1.index.equals(d2.index):
+        df = pd.merge(
+            d1.rename("d1"), d2.rename("d2"), left_index=True, right_index=True
+        )
+        d1, d2 = df["d1"].rename(d1.name), df["d2"].rename(d2.name)
+
+    valid = d1.notna().to_numpy() & d2.notna().to_numpy()
+    return d1[valid], d2[valid]
+
+
 class _metric_keys(object):
     """
     a class to get all available variable-keys that can be used to
@@ -158,10 +182,10 @@ class _RTmetrics1(object):
             return self.auxdat[key]
         elif source == "dataset":
             return self.fit.dataset[key]
-        elif source == "calc_model" and key == "tot":
-            return self.fit.calc_model(return_components=False)[key]
         elif source == "calc_model":
-            return self.fit.calc_model(return_components=True)[key]
+            res = self.fit.calc_model(return_components=key != "tot")[key]
+            # the results are sorted by the fit-groups -> use the order of the dataset
+            return res.iloc[np.argsort(self.fit._idx_assigns[~self.fit.mask])]
         elif source == "res_df":
             return self.fit.res_df[key]
 
@@ -180,25 +204,12 @@ class _RTmetrics1(object):
     @property
     @lru_cache()
     def _unify_idx_data(self):
-        if len(self.d1) != len(self.d2):
+        if not self.d1.index.equals(self.d2.index):
             log.warning(
                 f'index of "{self._d1}" and "{self._d2}" is not '
-                + "the same! -> a concatenation is performed!"
-            )
-
-            # try to unify the index
-            df = pd.concat([self.d1, self.d2], axis=1, copy=False)
-            d1 = df[self._d1].dropna()
-            d2 = df[self._d2].dropna()
-
-            assert len(d1) == len(d2), (
-                "the length of the 2 datasets is "
-                + "not the same!"
-                + f"({len(self.d1)} != {len(d2)})"
+                + "the same! -> values with the same index are used!"
             )
-            return d1, d2
-        else:
-            return self.d1, self.d2
+        return _get_pairs(self.d1, self.d2)
 
     @property
     def pearson(self):
@@ -285,6 +296,7 @@ class RTmetrics(object):
             pearson correlation coefficient
 
         """
+        d1, d2 = _get_pairs(d1, d2)
         return d1.corr(d2, method="pearson")
 
     @staticmethod
@@ -305,6 +317,7 @@ class RTmetrics(object):
             spearman's rank correlation coefficient
 
         """
+        d1, d2 = _get_pairs(d1, d2)
         return d1.corr(d2, method="spearman")
 
     @staticmethod
@@ -325,6 +338,7 @@ class RTmetrics(object):
             float values for slope, intercept, pearson, pvalue, stderr
 
         """
+        d1, d2 = _get_pairs(d1, d2)
         try:
             return stats.linregress(d1, d2)._asdict()
         except ValueError:
@@ -348,6 +362,7 @@ class RTmetrics(object):
             root mean square deviation
 
         """
+        d1, d2 = _get_pairs(d1, d2)
         diff_sq = d1.subtract(d2).pow(2)
         return np.sqrt(diff_sq.mean())
 
@@ -369,6 +384,7 @@ class RTmetrics(object):
             unbiased root mean square deviation
 
         """
+        d1, d2 = _get_pairs(d1, d2)
         d1_corr = d1 - d1.mean()
         d2_corr = d2 - d2.mean()
         diff_sq = d1_corr.subtract(d2_corr).pow(2)
@@ -392,6 +408,7 @@ class RTmetrics(object):
             bias
 
         """
+        d1, d2 = _get_pairs(d1, d2)
         return d1.mean() - d2.mean()
 
     @staticmethod
@@ -412,6 +429,7 @@ class RTmetrics(object):
             mean absolute error
 
         """
+        d1, d2 = _get_pairs(d1, d2)
         abs_diff = d1.subtract(d2).abs()
         return abs_diff.mean()
 
@@ -434,6 +452,7 @@ class RTmetrics(object):
             mean absolute percentage error
 
         """
+        d1, d2 = _get_pairs(d1, d2)
         abs_rel_diff = d1.subtract(d2).div(d1).abs()
         return abs_rel_diff.mean()
 
@@ -456,6 +475,7 @@ class RTmetrics(object):
             standard deviation ratio
 
         """
+        d1, d2 = _get_pairs(d1, d2)
         return d1.std() / d2.std()
 
     @classmethod
@@ -503,6 +523,8 @@ class RTmetrics(object):
 
         """
 
+        d1, d2 = _get_pairs(d1, d2)
+
         # create plot and axes
         fig, (ax1, ax2) = plt.subplots(
             1, 2, figsize=(14, 6), gridspec_kw={"width_ratios": [5, 1]}
-- 
2.43.0


From a559403ad41266b772b6f2cab32c2753f4ef30bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 54/97] fix: re-evaluate metrics if the fit-results change

---
 rt1/rtfits.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index cdce199..be66137 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -417,6 +417,10 @@ class Fits(Scatter):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
 
+        # the metrics also depend on the obtained results
+        if attr in ["res_dict", "int_Q"]:
+            Fits.metric.fget.cache_clear()
+
         # drop functions to evaluate the interaction-term that have been generated
         # for a different definition of the model
         # (functions that have been provided explicitly are maintained)
-- 
2.43.0


From 441a9547820a7ecd3a90c8eb4707e4e277149777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 55/97] fix: re-evaluate fn-coefficients if scattering
 functions are re-assigned

---
 rt1/rt1.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index d4f41b4..87852ac 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -206,14 +206,16 @@ class RT1(object):
         # this is required since functions created by
         # symengine are currently not pickleable!
         log.info("dropping fn-coefficients to allow pickling...")
+        # (use a copy to make sure that the object itself remains unchanged)
+        state = self.__dict__.copy()
         for delkey in ["_RT1__fn"]:
-            if delkey in self.__dict__:
+            if delkey in state:
                 log.info(f"removing {delkey} from __dict__")
-                del self.__dict__[delkey]
+                del state[delkey]
         for Nonekey in ["_fn_input"]:
-            if Nonekey in self.__dict__:
+            if Nonekey in state:
                 log.info(f"setting {Nonekey} to None")
-                self.__dict__[Nonekey] = None
+                state[Nonekey] = None
 
         if self.lambda_backend == "symengine":
             log.info(
@@ -221,7 +223,19 @@ class RT1(object):
                 + "generated by symengine will be platform-dependent!"
             )
 
-        return self.__dict__
+        return state
+
+    def __setattr__(self, attr, value):
+        # drop fn-coefficients (and associated functions) that have been evaluated
+        # for different scattering functions (or for a different backend)
+        if attr in ["V", "SRF", "lambda_backend", "int_Q"] and attr in self.__dict__:
+            old = self.__dict__[attr]
+            if old is not value and (attr in ["V", "SRF"] or old != value):
+                for key in ["_RT1__fn", "_RT1__fnevals", "_RT1__fnevals_ex"]:
+                    self.__dict__.pop(key, None)
+                self._clear_cache()
+
+        super().__setattr__(attr, value)
 
     @property
     def _cached_props(self):
-- 
2.43.0


From 5cfe588e6b14033650a14888b670ae6a0cc00010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 56/97] fix: HDFaccessor queries return the requested IDs for
 any number of IDs and read-chunksize

get_nids_iter mixed up the chunks if the number of IDs was no multiple of the
read-chunksize, failed for lists of IDs and single strings and did not set the
IDs of the last chunk.
---
 rt1/rtresults.py | 134 +++++++++++++++++------------------------------
 1 file changed, 49 insertions(+), 85 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 91defbe..d2f4ddc 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -686,28 +686,6 @@ class HDFaccessor(object):
         for i in range(0, len(lst), n):
             yield lst[i : i + n]
 
-    def _get_vals(self, key, chunksize, start=None, **kwargs):
-        # TODO
-        idxlevels = self.store.get_storer(key).levels
-        if idxlevels == 1:
-            idxname = "index"
-        else:
-            idxname = idxlevels[0]
-
-        assert self.IDs is not None, "no IDs found in HDF-store"
-        if start:
-            assert start < len(self.IDs), (
-                f"start={start} is bigger than the number"
-                + f" of IDs ({len(self.IDs)})"
-            )
-        use_ids = self._chunks(self.IDs.index[slice(start, None)], chunksize)
-        for i, ids in enumerate(use_ids):
-            indexes = self.store.select_as_coordinates(
-                key=key, where=f"{idxname} in ids"
-            )
-            data = self.store.get_storer(key).read(where=indexes, **kwargs)
-            yield data
-
     def _get_vals_with_IDs(self, key, use_ids, chunksize=1, **kwargs):
         # TODO
         idxlevels = self.store.get_storer(key).levels
@@ -824,72 +802,64 @@ class HDFaccessor(object):
             the retrieved DataFrame.
 
         """
-        nids = min(len(self.IDs), nids)
-
         assert (
             key in self.store
         ), f"invalid key provided, use one of {self.store.keys()}"
-
-        if read_chunksize is None:
-            s = self.store.get_storer(key)
-
-            if isinstance(nids, int):
-                if s.is_multi_index:
-                    read_chunksize = min(10, nids)
-                else:
-                    read_chunksize = nids
-            elif isinstance(nids, str):
-                read_chunksize = 1
-            else:
-                read_chunksize = len(nids)
+        assert self.IDs is not None, "no IDs found in HDF-store"
 
         if isinstance(nids, int):
-            data_gen = self._get_vals(
-                key=key, chunksize=read_chunksize, start=start, **kwargs
-            )
-        elif isinstance(nids, str):
-            nids = 1
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=[nids], **kwargs
-            )
+            if start:
+                assert start < len(self.IDs), (
+                    f"start={start} is bigger than the number"
+                    + f" of IDs ({len(self.IDs)})"
+                )
+            use_ids = list(self.IDs.index[slice(start, None)])
+            nids = min(len(self.IDs), nids)
         else:
-            use_ids = nids
+            use_ids = [nids] if isinstance(nids, str) else list(nids)
+            # convert IDs to the corresponding integer identifiers
+            use_ids = [
+                self._ID_to_IDnum(i) if isinstance(i, str) else i for i in use_ids
+            ]
             nids = len(use_ids)
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=use_ids, **kwargs
-            )
-
-        ret = []
-        for i, d in enumerate(data_gen):
-            ret.append(d)
-
-            if (i + 1) % (nids // read_chunksize) == 0:
-                if nids % read_chunksize != 0:
-                    data = next(data_gen)
-                    ret.append(iloc_level(data, slice(nids % 10)))
-
-                data = pd.concat(ret)
-                if self.set_ID is True:
-                    if isinstance(data.index, pd.MultiIndex):
-                        data.index = data.index.set_levels(
-                            self.IDs.loc[data.index.levels[0]].ID, level=0
-                        )
-                    else:
-                        data["ID"] = self.IDs.loc[data.index]
-                        data = data.set_index("ID")
-                yield data
 
-                if nids % read_chunksize != 0:
-                    ret = [iloc_level(data, slice(nids % 10, None))]
-                else:
-                    ret = []
+        if nids == 0:
+            return
 
-            if print_progress:
-                print("reading", (i + 1) * read_chunksize)
+        if read_chunksize is None:
+            if self.store.get_storer(key).is_multi_index:
+                read_chunksize = min(10, nids)
+            else:
+                read_chunksize = nids
+
+        nread = 0
+        for ids in self._chunks(use_ids, nids):
+            ret = []
+            for d in self._get_vals_with_IDs(
+                key=key, chunksize=read_chunksize, use_ids=ids, **kwargs
+            ):
+                ret.append(d)
+
+                if print_progress:
+                    nread += read_chunksize
+                    print("reading", min(nread, len(use_ids)))
+
+            data = pd.concat(ret)
+            if self.set_ID is True:
+                data = self._set_data_ID(data)
+            yield data
 
-        if len(ret) > 0:
-            # make sure to return the last results (maybe less than the read-chunksize)
-            yield pd.concat(ret)
+    def _set_data_ID(self, data):
+        # replace the integer identifiers in the index with the associated IDs
+        if isinstance(data.index, pd.MultiIndex):
+            data.index = data.index.set_levels(
+                self.IDs.loc[data.index.levels[0]].ID, level=0
+            )
+        else:
+            data = data.set_axis(
+                pd.Index(self.IDs.loc[data.index].ID, name="ID"), axis=0
+            )
+        return data
 
 
 class _data_container(object):
@@ -920,13 +890,7 @@ class _subselector(object):
         ret = self._parent().store.select(self._key, **kwargs)
 
         if self._parent().set_ID is True:
-            if isinstance(ret.index, pd.MultiIndex):
-                ret.index = ret.index.set_levels(
-                    self._parent().IDs.loc[ret.index.levels[0]].ID, level=0
-                )
-            else:
-                ret["ID"] = self._parent().IDs.loc[ret.index]
-                ret = ret.set_index("ID")
+            ret = self._parent()._set_data_ID(ret)
 
         return ret
 
-- 
2.43.0


From 943ddbb21cdf605a6536f9ffd15aface7b368a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 57/97] fix: return the ID of fits loaded from the HDF-store

---
 rt1/rtresults.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index d2f4ddc..a96e573 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -364,14 +364,24 @@ class RTresults(object):
                         filepath = self._dump_path / (ID)
 
                 fit = load(filepath)
+                use_ID = filepath.stem
             else:
                 assert (
                     isinstance(ID, (str, int)) or ID is None
                 ), "please provide either a string, int or 'None' as ID"
+
+                if not self.fit_db.store.is_open:
+                    self._reset_fit_db_cache()
+
+                IDs = self.fit_db.IDs
+                if ID is None:
+                    ID = choice(IDs.ID.to_list())
+                use_ID = ID if isinstance(ID, str) else IDs.ID.loc[ID]
+
                 fit = self._load_fit_from_HDF(ID)
 
             if return_ID is True:
-                return (fit, filepath.stem)
+                return (fit, use_ID)
             else:
                 return fit
 
-- 
2.43.0


From f7d63c94b78d871409726840f8f0771b9f04e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 58/97] fix: create_index supports lists of index-levels and
 ordinary indexes

---
 rt1/_rtprocess_writer.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index bcd5109..5c0b170 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -709,30 +709,25 @@ class RT1_processor(object):
             )
             for key in use_keys:
                 s = store.get_storer(key)
-                s_levels = s.levels
 
-                if idx_levels is None:
-                    try:
-                        # if s_levels is iterable and idx_cols is None,
-                        # use the first level
-                        iter(s_levels)
-                        use_levels = [s.levels[0]]
-                    except TypeError:
-                        # else use whatever the level-identification available
-                        use_levels = [s.levels]
-
-                elif idx_levels == "all":
-                    try:
-                        # if s_levels is iterable and idx_cols is None,
-                        # use all available levels
-                        iter(s_levels)
-                        use_levels = s.levels
-                    except TypeError:
-                        # else use whatever the level-identification available
-                        use_levels = s.levels
+                # the names of the index-levels and the associated columns
+                # (pytables stores ordinary indexes as a column named "index")
+                if s.is_multi_index:
+                    s_levels = {str(i): str(i) for i in s.levels}
+                else:
+                    s_levels = {str(s.info.get("index", {}).get("index_name")): "index"}
 
+                if idx_levels is None:
+                    # use the first level
+                    use_levels = list(s_levels.values())[:1]
+                elif isinstance(idx_levels, str) and idx_levels == "all":
+                    use_levels = list(s_levels.values())
                 else:
-                    use_levels = list(set(idx_levels) & set(s_levels))
+                    use_levels = [
+                        val
+                        for key, val in s_levels.items()
+                        if key in idx_levels or val in idx_levels
+                    ]
 
                 if len(use_levels) > 0:
                     log.progress(f'creating index-levels "{use_levels}" for "{key}"')
-- 
2.43.0


From fa17f24e5480d3e36ad5a73c235929b3c41a445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 59/97] fix: RT1_processor.get_data reads constant keys

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 5c0b170..ae4d8a4 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -778,6 +778,6 @@ class RT1_processor(object):
                     + "\n    ".join(f"{key}: {val}" for key, val in cfg_keys.items())
                 )
 
-            usekey = f"{config}/{key}"
+            usekey = key if config is None else f"{config}/{key}"
             res = store.select(usekey, **kwargs)
         return res
-- 
2.43.0


From c3d989c3379f84f144eacd4a2f82f0bec9367f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 60/97] fix: processing without a logfile, errors during setup
 are not masked

---
 rt1/rtprocess.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 81da933..d4d091b 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -853,6 +853,9 @@ class RTprocess(object):
             if hasattr(self.proc_cls, "finalizer"):
                 self.proc_cls.finalizer()
 
+        # the process that writes the log-file (only if it has been started)
+        listener = None
+
         try:
             # initialize all necessary properties if setup was not yet called
             self.setup()
@@ -865,7 +868,7 @@ class RTprocess(object):
                 # a counter to name the multiprocess-workers
                 proc_counter = manager.Value(ctypes.c_ulonglong, 0)
 
-                listener = mp.Process(
+                logger_process = mp.Process(
                     target=self._listener_process,
                     args=[queue, self.dumppath, logfile_level],
                     name="RTprocess logger",
@@ -876,14 +879,14 @@ class RTprocess(object):
                 # initialization of the  folder-structure!
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
-            else:
-                queue, proc_counter = None
 
-            if logfile_level is not None:
                 # start the listener after the setup-function completed, since
                 # otherwise the folder-structure does not yet exist and the
                 # file to which the process is writing can not be generated!
-                listener.start()
+                logger_process.start()
+                listener = logger_process
+            else:
+                queue, proc_counter = None, None
 
             if preprocess_kwargs is None:
                 preprocess_kwargs = dict()
@@ -937,7 +940,8 @@ class RTprocess(object):
                 queue=queue,
                 proc_counter=proc_counter,
                 dump_fit=dump_fit,
-                init_func=self._worker_configurer,
+                # (there is no need to configure a logger if no logfile is generated)
+                init_func=self._worker_configurer if queue is not None else None,
                 init_args=(queue, logfile_level),
                 create_index=create_index,
             )
@@ -954,7 +958,7 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
+            if listener is not None:
                 # tell the queue to stop
                 queue.put_nowait(None)
 
@@ -1055,6 +1059,9 @@ class RTprocess(object):
         if postprocess is not None:
             assert callable(postprocess), "postprocess must be callable!"
 
+        # the process that writes the log-file (only if it has been started)
+        listener = None
+
         try:
             # override finalout_name
             # do this BEFORE self.setup() is called !!
@@ -1084,7 +1091,7 @@ class RTprocess(object):
                 # a counter to name the multiprocess-workers
                 proc_counter = manager.Value(ctypes.c_ulonglong, 0)
 
-                listener = mp.Process(
+                logger_process = mp.Process(
                     target=self._listener_process,
                     args=[queue, self.dumppath, logfile_level],
                     name="RTprocess logger",
@@ -1095,14 +1102,14 @@ class RTprocess(object):
                 # initialization of the  folder-structure!
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
-            else:
-                queue, proc_counter = None, None
 
-            if logfile_level is not None:
                 # start the listener after the setup-function completed, since
                 # otherwise the folder-structure does not yet exist and the
                 # file to which the process is writing can not be generated!
-                listener.start()
+                logger_process.start()
+                listener = logger_process
+            else:
+                queue, proc_counter = None, None
 
             if fitlist is None:
                 # use fits from .dump file if no fitlist is provided
@@ -1117,7 +1124,8 @@ class RTprocess(object):
                 proc_counter=proc_counter,
                 print_progress=print_progress,
                 create_index=create_index,
-                init_func=self._worker_configurer,
+                # (there is no need to configure a logger if no logfile is generated)
+                init_func=self._worker_configurer if queue is not None else None,
                 init_args=(queue, logfile_level),
                 **kwargs,
             )
@@ -1132,7 +1140,7 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
+            if listener is not None:
                 # tell the queue to stop
                 queue.put_nowait(None)
 
-- 
2.43.0


From 62a40a2a9cbd8bc0f63595d16fc14a5589c23126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 61/97] fix: keep the names of constant results (const__ is a
 prefix)

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index ae4d8a4..c0330d1 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -263,7 +263,7 @@ class RT1_processor(object):
 
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
-                            results[cfg.lstrip("const__")].append(cfg_results)
+                            results[cfg[len("const__") :]].append(cfg_results)
                         elif isinstance(cfg_results, dict):
                             for cfg_key, cfg_val in cfg_results.items():
                                 results[cfg + "/" + cfg_key].append(cfg_val)
-- 
2.43.0


From 79a3be6a350f99cf61ce62643e529c9f47809b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 62/97] fix: invalid return-values of a single site do not
 affect other results

---
 rt1/_rtprocess_writer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index c0330d1..f4c622a 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -261,13 +261,19 @@ class RT1_processor(object):
                     except QueueEmpty:
                         break
 
+                    # make sure that invalid results do not affect other results
+                    if not isinstance(val, dict):
+                        log.error(f"ignored an invalid result of type {type(val)}")
+                        self._increase_cnt(err=True)
+                        continue
+
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
                             results[cfg[len("const__") :]].append(cfg_results)
                         elif isinstance(cfg_results, dict):
                             for cfg_key, cfg_val in cfg_results.items():
                                 results[cfg + "/" + cfg_key].append(cfg_val)
-                        else:
+                        elif cfg_results is not None:
                             results[cfg].append(cfg_results)
 
                     nres += 1
-- 
2.43.0


From ef61ce7491cf3ad7ef929bb3ac9a73b6e6975aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 63/97] fix: exports of model-calculations and custom functions

The parameters evaluated via export-functions were removed from the (shared) list
of parameters after the first fit, model-calculations could not be exported
and sig_to_dB and inc_to_degree had no effect.
---
 rt1/rtprocess.py | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index d4d091b..af139fe 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1496,8 +1496,14 @@ class RTprocess(object):
             metrics = dict()
 
         # ----- separate model-keys from the provided parameters
-        model_keys = set(parameters) & set(["tot", "surf", "vol", "inter"])
-        parameters = set(parameters) ^ model_keys
+        # (parameters with an explicit export-function are evaluated via the function)
+        parameters = list(dict.fromkeys(parameters))
+        model_keys = [
+            key
+            for key in ["tot", "surf", "vol", "inter"]
+            if key in parameters and key not in (export_functions or dict())
+        ]
+        parameters = [key for key in parameters if key not in model_keys]
 
         # ----- initialize a RTresults object for easy access to the list of dump-files
         # don't use "self.dumppath" since it requires a call to setup() !
@@ -1550,6 +1556,8 @@ class RTprocess(object):
             metrics=metrics,
             export_functions=export_functions,
             model_keys=model_keys,
+            sig_to_dB=sig_to_dB,
+            inc_to_degree=inc_to_degree,
             _fnevals_input=fn_evals,
         )
 
@@ -1569,10 +1577,10 @@ class RTprocess(object):
     @staticmethod
     def _HDF_export_postprocess(
         fit,
-        parameters=[],
+        parameters=(),
         metrics=None,
         export_functions=None,
-        model_keys=[],
+        model_keys=(),
         sig_to_dB=False,
         inc_to_degree=False,
         _fnevals_input=None,
@@ -1614,25 +1622,37 @@ class RTprocess(object):
             else:
                 fit._fnevals_input = _fnevals_input
 
-        auxdata, staticlayers = dict(), dict()
-        if model_keys:
-            auxdata = fit.calc_model(return_components=True)[model_keys]
-
+        auxdata, staticlayers = [], dict()
+        if len(model_keys) > 0:
+            model = fit.calc_model(return_components=True)
+            # the results are sorted by the fit-groups -> use the order of the dataset
+            model = model.iloc[np.argsort(fit._idx_assigns[~fit.mask])]
+            model = model[[key for key in model_keys if key in model]]
+            if fit.dB is False and sig_to_dB:
+                model = 10.0 * np.log10(model)
+            auxdata.append(model)
+
+        # NOTE: don't change the provided parameters since they are used for all fits!
+        saveparams = list(parameters)
         if export_functions:
             for key, func in export_functions.items():
-                if key in parameters:
+                if key in saveparams:
+                    saveparams.remove(key)
                     val = func(fit)
                     if isinstance(val, (int, float, np.number)):
                         staticlayers[key] = val
-                        parameters.remove(key)
+                    elif isinstance(val, pd.DataFrame) and len(val.columns) > 1:
+                        auxdata.append(val)
+                    elif isinstance(val, pd.DataFrame):
+                        auxdata.append(val.set_axis([key], axis=1))
                     else:
-                        auxdata[key] = val
+                        auxdata.append(pd.Series(val, name=key))
 
         ret = RTprocess._postprocess_getparams(
             fit=fit,
-            saveparams=set(parameters) ^ set(auxdata) ^ set(model_keys),
+            saveparams=saveparams,
             xindex=("ID", fit._RT1_ID_num),
-            auxdata=pd.DataFrame(auxdata),
+            auxdata=pd.concat(auxdata, axis=1) if len(auxdata) > 0 else None,
             sig_to_dB=sig_to_dB,
             inc_to_degree=inc_to_degree,
             staticlayers=staticlayers,
-- 
2.43.0


From 55b31c5a8052681bbaf548c6891df17209784fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 64/97] fix: export of constant parameters

---
 rt1/rtprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index af139fe..60eb667 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1754,7 +1754,7 @@ class RTprocess(object):
                 elif key in defs["fitted_const"]:
                     staticlayers[key] = fit.res_dict[key][0]
                 elif key in defs["constant"]:
-                    staticlayers[key] = fit.defdict[key].val.value
+                    staticlayers[key] = fit.defdict[key].val
                 elif key in defs["auxiliary"]:
                     usedfs.append(fit.dataset[key])
             elif key in fit.dataset:
-- 
2.43.0


From 450d15d83944cdba1925d5eb5aef514d2c4cf002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 65/97] fix: run_finaloutput for a single config of a MultiFits
 object

---
 rt1/rtprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 60eb667..7076cd1 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1180,6 +1180,8 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 if use_config is None or use_config == "from_postprocess":
                     cfgs = self.parent_fit.config_names
+                elif isinstance(use_config, str):
+                    cfgs = [use_config]
                 else:
                     cfgs = use_config
 
-- 
2.43.0


From eb185c12edb026cede60b69078586a4f5574ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 66/97] fix: load fits of IDs without auxiliary data from the
 HDF-store

---
 rt1/rtresults.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index a96e573..d62256a 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -610,12 +610,17 @@ class HDFaccessor(object):
 
             try:
                 dataset = self.datasets.dataset.get_id(ID)
+                if len(dataset) == 0:
+                    dataset = None
             except Exception:
                 dataset = None
                 pass
 
             try:
                 aux_data = self.datasets.aux_data.get_id(ID)
+                # there might be IDs without auxiliary data
+                if len(aux_data) == 0:
+                    aux_data = None
             except Exception:
                 aux_data = None
                 pass
@@ -631,6 +636,8 @@ class HDFaccessor(object):
 
             try:
                 res_dict = self.datasets.res_dict.get_id(ID)
+                if len(res_dict) == 0:
+                    res_dict = None
             except Exception:
                 res_dict = None
                 pass
-- 
2.43.0


From 80edcb23ea9b0a452abfdc897661ce78e49ac111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 67/97] fix: don't attach auxiliary data of previously
 processed features

---
 rt1/rtprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 7076cd1..affb4d7 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -485,9 +485,9 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 # set the dataset
                 self.parent_fit.set_dataset(dataset)
-                # set the aux_data
-                if aux_data is not None:
-                    self.parent_fit.set_aux_data(aux_data)
+                # set the aux_data (also if there is none to make sure that the
+                # aux_data of previously processed features is removed)
+                self.parent_fit.set_aux_data(aux_data)
                 # append reader_arg to all configs
                 self.parent_fit.set_reader_arg(reader_arg)
                 # set ID for all configs
-- 
2.43.0


From 3ab579daf8a13f2ee2d56bc6c9ec2deff01a8381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 68/97] fix: keep the ID of features if reader-args contain
 lists

---
 rt1/rtfits.py    | 47 +++++++++++++++++++++++++++++++++++++----------
 rt1/rtprocess.py | 11 ++++-------
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index be66137..934c770 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2880,6 +2880,40 @@ class Fits(Scatter):
         df.index = newindex
         return df
 
+    @staticmethod
+    def _get_reader_arg_df(reader_arg, ID):
+        """
+        get a DataFrame of the reader_arg that can be stored in HDF-containers
+
+        Parameters
+        ----------
+        reader_arg : dict
+            the reader_arg
+        ID : int
+            the index-number to use for indexing within the HDF-store
+
+        Returns
+        -------
+        df : pandas.DataFrame
+            the DataFrame (only scalars are stored in case the dict contains
+            values that can not be converted to a single row)
+        """
+        try:
+            df = pd.DataFrame(reader_arg, [ID])
+        except Exception:
+            log.debug(f"could not save all values of 'reader_arg' for fit {ID}")
+            df = pd.DataFrame()
+
+        if "ID" not in df:
+            attrs = reader_arg if isinstance(reader_arg, dict) else dict()
+            attrs = {
+                key: val for key, val in attrs.items() if pd.api.types.is_scalar(val)
+            }
+            df = pd.DataFrame({"ID": ID, **attrs}, [ID])
+
+        df.index.name = "ID"
+        return df
+
     def _get_fit_to_hdf_dict(
         self,
         save_results=True,
@@ -2948,16 +2982,9 @@ class Fits(Scatter):
             log.debug(f"could not save 'init_dict' for fit {ID}")
 
         # -------------- save READER_ARG   (always saved)
-        try:
-            df = pd.DataFrame(self.reader_arg, [ID])
-            df.index.name = "ID"
-            hf["const__reader_arg"] = df
-        except Exception:
-            log.debug(f"could not save 'reader_arg' for fit {ID}")
-            df = pd.DataFrame({"ID": ID}, [ID])
-            df.index.name = "ID"
-
-            hf["const__reader_arg"] = df
+        hf["const__reader_arg"] = Fits._get_reader_arg_df(
+            getattr(self, "reader_arg", None), ID
+        )
 
         # -------------- save DATASET
         try:
diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index affb4d7..c6d069a 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -18,7 +18,7 @@ from ._rtprocess_writer import RT1_processor
 from .general_functions import groupby_unsorted, isidentifier
 from .rtparse import RT1_configparser
 from .rtresults import RTresults
-from .rtfits import MultiFits
+from .rtfits import Fits, MultiFits
 from . import log, _get_logger_formatter
 import logging
 import ctypes
@@ -1315,12 +1315,9 @@ class RTprocess(object):
 
             if "const__reader_arg" not in ret and hasattr(fit, "reader_arg"):
                 # append reader_args
-                attrs = pd.DataFrame(fit.reader_arg, [fit._RT1_ID_num])
-                attrs.index.name = "ID"
-
-                # attrs = pd.DataFrame(fit.reader_arg, index=[0])
-                # attrs.set_index(self.proc_cls.ID_key, inplace=True)
-                ret["const__reader_arg"] = attrs
+                ret["const__reader_arg"] = Fits._get_reader_arg_df(
+                    fit.reader_arg, fit._RT1_ID_num
+                )
 
             return ret
 
-- 
2.43.0


From aebe1f7f875a6cc6873b8a1645ed6354562113eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 69/97] fix: continue processing if there are no results in the
 HDF-store

---
 rt1/_rtprocess_writer.py | 12 ++++++++++--
 rt1/processing_config.py |  8 ++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index f4c622a..f51feaf 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -339,8 +339,12 @@ class RT1_processor(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                if fit_db.IDs is None:
+                    # there are no results in the HDF store
+                    found_ID_nums, found_IDs = [], []
+                else:
+                    found_ID_nums = fit_db.IDs.index
+                    found_IDs = fit_db.IDs.ID.values
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, self.arg_list)).isin(found_IDs)
@@ -705,6 +709,10 @@ class RT1_processor(object):
             can be one of ["ultralight", "light", "medium", "full"]
 
         """
+        if not Path(dst_path).exists():
+            log.warning(f'"{dst_path}" does not exist... no index is created')
+            return
+
         with pd.HDFStore(dst_path, "a") as store:
             use_keys = keys if keys else store.keys()
             use_keys = [key for key in use_keys if not key.endswith("/meta")]
diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 91ff7d8..8f82c0a 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -313,8 +313,12 @@ class rt1_processing_config(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                if fit_db.IDs is None:
+                    # there are no results in the HDF store
+                    found_ID_nums, found_IDs = [], []
+                else:
+                    found_ID_nums = fit_db.IDs.index
+                    found_IDs = fit_db.IDs.ID.values
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, arg_list)).isin(found_IDs)
-- 
2.43.0


From 12801d6d6dedb6d396dfc99b22b362b406c599c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 70/97] fix: load dump-files from relative paths as returned by
 dump_files

---
 rt1/rtresults.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index d62256a..df69930 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -361,7 +361,11 @@ class RTresults(object):
                     elif isinstance(ID, str):
                         if not ID.endswith(".dump"):
                             ID += ".dump"
-                        filepath = self._dump_path / (ID)
+                        if len(Path(ID).parts) > 1:
+                            # paths as returned by "dump_files"
+                            filepath = Path(ID)
+                        else:
+                            filepath = self._dump_path / (ID)
 
                 fit = load(filepath)
                 use_ID = filepath.stem
-- 
2.43.0


From 22a267a478b8bcb6c12667e8f86b6f53c1759244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 71/97] fix: identify already processed features by the ID
 assigned in get_names_ids

the IDs of already processed features were compared to the stored ID, so
features were processed repeatedly (or not at all) if get_names_ids assigns
a feature_id that differs from the ID of the reader-arg
---
 rt1/_rtprocess_writer.py | 61 ++++++++++++++++++++++++++++++----------
 rt1/processing_config.py | 25 ++++------------
 rt1/rtprocess.py         | 12 +++++++-
 3 files changed, 63 insertions(+), 35 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index f51feaf..f1a59a6 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -8,7 +8,6 @@ import sys
 import pandas as pd
 
 from queue import Empty as QueueEmpty
-import os
 from pathlib import Path
 
 from contextlib import contextmanager
@@ -27,6 +26,21 @@ from .general_functions import (
 )
 
 
+def _get_default_ID(arg):
+    """
+    the default way to extract the ID of an argument (or a stored reader_arg)
+    (the same ID is obtained for "name", "RT1_name" and "path/to/name.dump")
+    """
+    ID = str(arg["ID"])
+    if ID.endswith(".dump"):
+        ID = Path(ID).stem
+
+    if not isidentifier(ID) and not ID.startswith("RT1_"):
+        return f"RT1_{ID}"
+    else:
+        return ID
+
+
 class RepeatTimer(threading.Thread):
     """
     A simple timer that executes a function after a given amount of time.
@@ -297,7 +311,22 @@ class RT1_processor(object):
                 log.progress(f"joining remaining thread... {t.name}")
                 t.join()
 
-    def _check_IDs(self, key="reader_arg", get_ID=None):
+    @staticmethod
+    def _get_found_IDs(fit_db, get_ID):
+        """
+        get a list of the IDs that are already present in the HDF-store
+        (e.g. apply get_ID to the stored reader_args)
+        """
+        found_IDs = []
+        reader_args = fit_db.store.select("reader_arg").to_dict("records")
+        for arg, default_ID in zip(reader_args, fit_db.IDs.ID.values):
+            try:
+                found_IDs.append(get_ID(arg))
+            except Exception:
+                found_IDs.append(default_ID)
+        return found_IDs
+
+    def _check_IDs(self, key="reader_arg", get_ID=None, get_stored_ID=None):
         """
         return a list of IDs that are not yet present in the hdf-container
         located at "dst_path"
@@ -309,10 +338,11 @@ class RT1_processor(object):
         get_ID : callable, optional
             a custom callable that extracts the ID from the provided
             IDs list.
-            The default is None in which case the following function is used:
-
-                >>> # extract filename from given path
-                >>> lambda i: i.split(os.sep)[-1].split(".")[0]
+            The default is None in which case the "ID" key is used
+            (and converted to a valid identifier if necessary)
+        get_stored_ID : callable, optional
+            a custom callable that extracts the ID from the stored reader_args.
+            The default is None in which case "get_ID" is used.
 
         Returns
         -------
@@ -325,13 +355,7 @@ class RT1_processor(object):
         if Path(self.dst_path).exists():
             log.progress("evaluating list of IDs to process...")
             if get_ID is None:
-
-                def get_ID(i):
-                    ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
-                    if not isidentifier(str(ID)):
-                        return f"RT1_{ID}"
-                    else:
-                        return str(ID)
+                get_ID = _get_default_ID
 
             with HDFaccessor(self.dst_path) as fit_db:
                 # get all IDs that are already present in the HDF store
@@ -344,7 +368,7 @@ class RT1_processor(object):
                     found_ID_nums, found_IDs = [], []
                 else:
                     found_ID_nums = fit_db.IDs.index
-                    found_IDs = fit_db.IDs.ID.values
+                    found_IDs = self._get_found_IDs(fit_db, get_stored_ID or get_ID)
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, self.arg_list)).isin(found_IDs)
@@ -571,6 +595,7 @@ class RT1_processor(object):
         pool_kwargs=None,
         starmap_args=None,
         ID_getter=None,
+        stored_ID_getter=None,
     ):
         """
 
@@ -596,6 +621,12 @@ class RT1_processor(object):
         starmap_args : iterable, optional
             a list of additional arguments passed to the evaluation of
             "process_func". The default is None.
+        ID_getter : callable, optional
+            a function to extract the ID from the elements of "arg_list".
+            The default is None in which case the key "ID" is used.
+        stored_ID_getter : callable, optional
+            a function to extract the ID from already stored reader_args.
+            The default is None in which case the "ID_getter" is used.
 
         Returns
         -------
@@ -615,7 +646,7 @@ class RT1_processor(object):
 
         assert self.arg_list is not None, 'you must provide "arg_list"'
 
-        self._check_IDs(get_ID=ID_getter)
+        self._check_IDs(get_ID=ID_getter, get_stored_ID=stored_ID_getter)
         self.p_max.value = len(self.args_to_process)
 
         if self.p_max.value == 0:
diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 8f82c0a..a3a4d00 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -272,15 +272,8 @@ class rt1_processing_config(object):
         get_ID : callable, optional
             a custom callable that extracts the ID from the provided
             IDs list.
-            The default is None in which case the following function is used:
-
-                >>> # extract filename from given path
-                >>> def get_ID(i):
-                >>>     ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
-                >>>     if not isidentifier(str(ID)):
-                >>>         return f"RT1_{ID}"
-                >>>     else:
-                >>>         return str(ID)
+            The default is None in which case the "ID" key is used
+            (and converted to a valid identifier if necessary)
 
         Returns
         -------
@@ -289,9 +282,9 @@ class rt1_processing_config(object):
             already present in the output HDF container.
 
         """
-        import os
-        from .general_functions import isidentifier, find_missing
+        from .general_functions import find_missing
         from .rtresults import HDFaccessor
+        from ._rtprocess_writer import RT1_processor, _get_default_ID
         import pandas as pd
 
         dst_path = self.rt1_procsesing_respath / "fit_db.h5"
@@ -299,13 +292,7 @@ class rt1_processing_config(object):
         if Path(dst_path).exists():
             log.progress("Checking for already existing IDs in the `fit_db.h5`...")
             if get_ID is None:
-
-                def get_ID(i):
-                    ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
-                    if not isidentifier(str(ID)):
-                        return f"RT1_{ID}"
-                    else:
-                        return str(ID)
+                get_ID = _get_default_ID
 
             with HDFaccessor(dst_path) as fit_db:
                 # get all IDs that are already present in the HDF store
@@ -318,7 +305,7 @@ class rt1_processing_config(object):
                     found_ID_nums, found_IDs = [], []
                 else:
                     found_ID_nums = fit_db.IDs.index
-                    found_IDs = fit_db.IDs.ID.values
+                    found_IDs = RT1_processor._get_found_IDs(fit_db, get_ID)
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, arg_list)).isin(found_IDs)
diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index c6d069a..b511da2 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -13,7 +13,7 @@ import pandas as pd
 import numpy as np
 
 
-from ._rtprocess_writer import RT1_processor
+from ._rtprocess_writer import RT1_processor, _get_default_ID
 
 from .general_functions import groupby_unsorted, isidentifier
 from .rtparse import RT1_configparser
@@ -770,6 +770,12 @@ class RTprocess(object):
         else:
             return str(ID)
 
+    def _extract_filename(self, reader_arg):
+        # the ID used to identify the dump-file of a feature
+        return _get_default_ID(
+            dict(ID=self.proc_cls.get_names_ids(reader_arg)["filename"])
+        )
+
     def run_processing(
         self,
         ncpu=1,
@@ -1124,6 +1130,7 @@ class RTprocess(object):
                 proc_counter=proc_counter,
                 print_progress=print_progress,
                 create_index=create_index,
+                use_dumps=use_dumps,
                 # (there is no need to configure a logger if no logfile is generated)
                 init_func=self._worker_configurer if queue is not None else None,
                 init_args=(queue, logfile_level),
@@ -1166,6 +1173,7 @@ class RTprocess(object):
         proc_counter=None,
         print_progress=True,
         create_index=True,
+        use_dumps=False,
         **kwargs,
     ):
         pool_kwargs = dict(
@@ -1207,6 +1215,8 @@ class RTprocess(object):
                     repeat(use_config),
                     repeat(postprocess),
                 ],
+                # dump-files are identified by their filename
+                stored_ID_getter=self._extract_filename if use_dumps else None,
             )
 
         if create_index:
-- 
2.43.0


From 720e02238a5fcfca913f97b0e4022d8ce71d1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 72/97] fix: re-create all definitions, settings and labels of
 fits stored in HDF-containers

- numpy-values, infinite boundaries, symbolic expressions and set_V_SRF-functions
- storage-options of MultiFits objects
- data-types of the reader_arg and IDs that are no valid identifiers
- labels of manual variabilities if the dataset is not stored
- table-structure independent of lists in the reader_arg
---
 rt1/rtfits.py    | 90 ++++++++++++++++++++++++++++++++----------------
 rt1/rtresults.py |  7 ++--
 2 files changed, 64 insertions(+), 33 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 934c770..f0617cd 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2223,8 +2223,9 @@ class Fits(Scatter):
         for key, val in props.items():
             if key in ["V_name", "SRF_name", "SRFchoices", "Vchoices"]:
                 continue
-            if key in ["a"]:
+            if key in ["a"] or val is None:
                 # use the values directly without checking anything
+                # (the properties of the parts of a linear-combination can be None)
                 set_dict[key] = val
                 continue
             useval = checkval(key, val)
@@ -2779,8 +2780,10 @@ class Fits(Scatter):
             return self.set_V_SRF
         else:
             try:
-                # init V and SRF with string-variables
-                V, SRF = self.set_V_SRF(**dict(zip(*[self.defdict._variables] * 2)))
+                # init V and SRF with symbolic variables
+                V, SRF = self.set_V_SRF(
+                    **{str(key): sp.Symbol(str(key)) for key in self.defdict.keys()}
+                )
                 return dict(V_props=V.init_dict, SRF_props=SRF.init_dict)
             except TypeError:
                 log.error("Not all variables are specified in defdict!", exc_info=True)
@@ -2873,6 +2876,32 @@ class Fits(Scatter):
             df = pd.concat(dfs, axis=1)
             return df
 
+    @staticmethod
+    def _to_literal(val):
+        """
+        get a string-representation of a value that can be used to re-create
+        the value via `ast.literal_eval`
+        (e.g. numpy-numbers, numpy-arrays and infinite values are converted to
+        corresponding python-literals)
+        """
+        if isinstance(val, dict):
+            items = (
+                f"{Fits._to_literal(k)}: {Fits._to_literal(v)}" for k, v in val.items()
+            )
+            return "{" + ", ".join(items) + "}"
+        elif isinstance(val, list):
+            return "[" + ", ".join(map(Fits._to_literal, val)) + "]"
+        elif isinstance(val, tuple):
+            return "(" + "".join(f"{Fits._to_literal(i)}, " for i in val) + ")"
+        elif isinstance(val, (np.ndarray, np.generic)):
+            return Fits._to_literal(val.tolist())
+        elif isinstance(val, sp.Basic):
+            return repr(str(val))
+        elif isinstance(val, float) and np.isinf(val):
+            return "1e999" if val > 0 else "-1e999"
+        else:
+            return repr(val)
+
     @staticmethod
     def _prepend_ID_to_index(df, ID, idx_name="date"):
         df = df.copy()
@@ -2895,21 +2924,16 @@ class Fits(Scatter):
         Returns
         -------
         df : pandas.DataFrame
-            the DataFrame (only scalars are stored in case the dict contains
-            values that can not be converted to a single row)
+            the DataFrame (only scalar values are stored!)
         """
-        try:
-            df = pd.DataFrame(reader_arg, [ID])
-        except Exception:
+        attrs = reader_arg if isinstance(reader_arg, dict) else dict()
+        # (the stored values must not depend on e.g. the length of provided lists
+        # since this would result in a different table-structure for each ID)
+        attrs = {key: val for key, val in attrs.items() if pd.api.types.is_scalar(val)}
+        if isinstance(reader_arg, dict) and len(attrs) < len(reader_arg):
             log.debug(f"could not save all values of 'reader_arg' for fit {ID}")
-            df = pd.DataFrame()
 
-        if "ID" not in df:
-            attrs = reader_arg if isinstance(reader_arg, dict) else dict()
-            attrs = {
-                key: val for key, val in attrs.items() if pd.api.types.is_scalar(val)
-            }
-            df = pd.DataFrame({"ID": ID, **attrs}, [ID])
+        df = pd.DataFrame({"ID": ID, **attrs}, [ID])
 
         df.index.name = "ID"
         return df
@@ -2962,7 +2986,7 @@ class Fits(Scatter):
                 initdict = pd.concat(
                     map(
                         lambda arg: pd.DataFrame(
-                            [pd.Series(arg[1])],
+                            [pd.Series(arg[1]).map(Fits._to_literal)],
                             pd.MultiIndex.from_product(
                                 [[ID], [arg[0]]], names=["ID", "cfg"]
                             ),
@@ -2973,7 +2997,9 @@ class Fits(Scatter):
                 )
             else:
                 initdict = pd.DataFrame(
-                    [pd.Series(self._get_init_dict())], [ID], dtype=str
+                    [pd.Series(self._get_init_dict()).map(Fits._to_literal)],
+                    [ID],
+                    dtype=str,
                 ).astype("category")
                 initdict.index.name = "ID"
 
@@ -2995,19 +3021,17 @@ class Fits(Scatter):
             elif save_results is True:
                 # store only data that is required to re-create the results
                 if isinstance(self, MultiFits):
-                    dynkeys = set(
-                        key + "_dyn"
-                        for cfg, defdict in self.apply(lambda fit: self.defdict)
-                        for key, val in defdict.items()
-                        if val[0] and val[2] == "manual"
-                    )
+                    defdicts = [i[1] for i in self.apply(lambda fit: fit.defdict)]
                 else:
-                    dynkeys = set(
-                        key + "_dyn"
-                        for key, val in self.defdict.items()
-                        if val[0] and val[2] == "manual"
-                    )
-                df = getattr(self, "dataset", None)[dynkeys]
+                    defdicts = [self.defdict]
+
+                dynkeys = set(
+                    key + "_dyn"
+                    for defdict in defdicts
+                    for key, val in defdict.items()
+                    if val[0] and "manual" in str(val[2])
+                )
+                df = getattr(self, "dataset", None)[sorted(dynkeys)]
 
                 hf["dataset"] = Fits._prepend_ID_to_index(df, ID)
         except Exception:
@@ -3251,11 +3275,17 @@ class MultiFits:
         return args
 
     def _get_fit_to_hdf_dict(
-        self, save_results=True, save_data=True, save_auxdata=True, ID=None
+        self,
+        save_results=True,
+        save_res_df=True,
+        save_data=True,
+        save_auxdata=True,
+        ID=None,
     ):
         return Fits._get_fit_to_hdf_dict(
             self,
             save_results=save_results,
+            save_res_df=save_res_df,
             save_data=save_data,
             save_auxdata=save_auxdata,
             ID=ID,
diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index df69930..e3ac345 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -631,7 +631,8 @@ class HDFaccessor(object):
 
             try:
                 reader_arg = self.datasets.reader_arg.get_id(ID)
-                reader_arg = reader_arg.loc[ID].to_dict()
+                # (use "records" to maintain the data-types of the values)
+                reader_arg = reader_arg.loc[[ID]].to_dict("records")[0]
                 if "ID" not in reader_arg:
                     reader_arg["ID"] = self.IDs.loc[ID].values[0]
             except Exception:
@@ -675,7 +676,7 @@ class HDFaccessor(object):
                 if reader_arg is not None:
                     mf.set_reader_arg(reader_arg)
 
-                mf.set_ID(self.IDs.loc[ID].values[0])
+                mf.set_ID(reader_arg["ID"])
                 return mf
 
             else:
@@ -683,7 +684,7 @@ class HDFaccessor(object):
                     key: literal_eval(val) for key, val in init_dict.loc[ID].items()
                 }
                 fit = Fits(**attrs)
-                fit.ID = self.IDs.loc[ID].values[0]
+                fit.ID = reader_arg["ID"]
 
                 if dataset is not None:
                     fit.dataset = dataset.loc[ID]
-- 
2.43.0


From af688fada0f960e17727fca83ca7c85bbd313e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 73/97] fix: write results with differing table-structures to
 the HDF-store

results of features whose columns, data-types or string-lengths differ from the
already stored results stopped the writer-process, and the worker-processes
were waiting forever
---
 rt1/_rtprocess_writer.py | 43 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index f1a59a6..8886557 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -220,8 +220,12 @@ class RT1_processor(object):
         for key, val in results.items():
             if len(val) == 0:
                 continue
-            if isinstance(val[0], (pd.Series, pd.DataFrame)):
-                outdict[key] = pd.concat(val)
+            tables = [i for i in val if isinstance(i, (pd.Series, pd.DataFrame))]
+            if len(tables) > 0:
+                if len(tables) < len(val):
+                    # make sure that invalid results do not affect other results
+                    log.error(f"ignored {len(val) - len(tables)} invalid '{key}' results")
+                outdict[key] = pd.concat(tables)
             else:
                 outdict[key] = pd.Series(val)
 
@@ -458,7 +462,8 @@ class RT1_processor(object):
                         else:
                             expectedrows = self.p_max.value * len(val)
 
-                        store.append(
+                        self._append_to_store(
+                            store,
                             key,
                             val,
                             format="t",
@@ -485,11 +490,41 @@ class RT1_processor(object):
             except Exception:
                 log.error("problem while writing data... exiting", exc_info=True)
                 self._stop.set()
-                self.should_wait.clear()
+                # make sure that the workers do not wait forever
+                self.should_wait.set()
                 self.write_lock.release()
 
+    @staticmethod
+    def _append_to_store(store, key, val, **kwargs):
+        """
+        append data to the HDF-store
+
+        in case the structure of the data does not match the structure of the
+        existing table (e.g. additional columns, floats instead of integers,
+        longer strings...) the existing table is re-written.
+        """
+        try:
+            store.append(key, val, **kwargs)
+        except (ValueError, TypeError):
+            if key not in store:
+                raise
+
+            log.debug(f"the structure of '{key}' changed... re-writing the table")
+            # replace the existing table only if writing was successful
+            tmp_key = f"{key}__tmp"
+            try:
+                store.append(tmp_key, pd.concat([store.select(key), val]), **kwargs)
+                store.get_node(tmp_key)._f_rename(key.split("/")[-1], overwrite=True)
+            except Exception:
+                if tmp_key in store:
+                    store.remove(tmp_key)
+                raise
+
     def _worker_process(self, *args):
         self.should_wait.wait()
+        if self._stop.is_set():
+            # results can not be saved any more
+            return
 
         try:
             if self.reader_func is not None:
-- 
2.43.0


From fe68cfd46cf597f15c213716362cf408bd33385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 74/97] fix: export results from dump-files without a fit_db

---
 rt1/rtprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index b511da2..9f69874 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1540,10 +1540,10 @@ class RTprocess(object):
         # ----- get list of paths to fit-objects
         self._useres = getattr(res, dumpfolder)
         # load the first fit-object to pre-load fn-coefficients
-        if hasattr(self._useres, "fit_db"):
-            fit0_ID = self._useres.fit_db.IDs.values.flat[0]
-        else:
+        if kwargs.get("use_dumps", False):
             fit0_ID = 0
+        else:
+            fit0_ID = self._useres.fit_db.IDs.values.flat[0]
         fit0 = self._useres.load_fit(fit0_ID)
 
         fn_evals = None
-- 
2.43.0


From 0638dee740befb5976d42f3f581f09d67de7c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 75/97] fix: raise an error if the results could not be saved

---
 rt1/_rtprocess_writer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 8886557..5bcde96 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -730,6 +730,9 @@ class RT1_processor(object):
         for w in writer:
             w.join()
 
+        # check if there was a problem while writing the results
+        write_error = self._stop.is_set()
+
         # tell all processes to stop
         self._stop.set()
 
@@ -741,6 +744,12 @@ class RT1_processor(object):
         else:
             log.progress("exiting...")
 
+        if write_error:
+            raise RuntimeError(
+                f"there was a problem while writing the results to {self.dst_path}!"
+                + " (see the log for details)"
+            )
+
     @staticmethod
     def create_index(dst_path, idx_levels=None, keys=None, kind="full", optlevel=6):
         """
-- 
2.43.0


From b61366858ad394b1269ebcc9869fc418ef949602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 76/97] fix: release results and manager-processes so that the
 processing can be continued after an export

---
 rt1/rtprocess.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 9f69874..e4204c2 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -862,6 +862,9 @@ class RTprocess(object):
         # the process that writes the log-file (only if it has been started)
         listener = None
 
+        # (a HDF-store that is still open can not be written!)
+        self._close_useres()
+
         try:
             # initialize all necessary properties if setup was not yet called
             self.setup()
@@ -970,6 +973,8 @@ class RTprocess(object):
 
                 # stop the listener process
                 listener.join()
+                # stop the process of the manager
+                manager.shutdown()
 
                 # remove any remaining file-handler and queue-handlers after
                 # the processing is done
@@ -979,6 +984,7 @@ class RTprocess(object):
                     h.close()
                     # remove the file-handler from the log
                     log.handlers.remove(h)
+                    logging.getLogger("py.warnings").removeHandler(h)
 
     def run_finaloutput(
         self,
@@ -1144,6 +1150,9 @@ class RTprocess(object):
             raise err
 
         finally:
+            # always use the currently available results for the next call
+            self._close_useres()
+
             # turn off capturing warnings
             logging.captureWarnings(False)
 
@@ -1153,6 +1162,8 @@ class RTprocess(object):
 
                 # stop the listener process
                 listener.join()
+                # stop the process of the manager
+                manager.shutdown()
 
                 # remove any remaining file-and queue-handlers after processing is done
                 handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
@@ -1161,6 +1172,7 @@ class RTprocess(object):
                     h.close()
                     # remove the file-handler from the log
                     log.handlers.remove(h)
+                    logging.getLogger("py.warnings").removeHandler(h)
 
     def _run_finalout(
         self,
@@ -1338,6 +1350,14 @@ class RTprocess(object):
             else:
                 raise ex
 
+    def _close_useres(self):
+        """
+        release the results used to load the fits
+        """
+        useres = self.__dict__.pop("_useres", None)
+        if useres is not None and "fit_db" in useres._hdf_paths:
+            useres.fit_db.close()
+
     def _get_files(self, use_N_files=None, use_dumps=False):
         if not hasattr(self, "_useres"):
             self._useres = getattr(
-- 
2.43.0


From ceac387533c27a39ba1f3748739ebe6814c0d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 77/97] fix: polarplot with a provided axes and for isotropic
 functions

---
 rt1/rtplots.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 504ba92..2ed7ac8 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -122,6 +122,7 @@ def polarplot(
         polarax = fig.add_subplot(111, projection="polar")
     else:
         assert polarax.name == "polar", "you must provide a polar-axes!"
+        fig = polarax.figure
 
     if ".surface." in str(X.__class__):
         if label is None:
@@ -203,7 +204,10 @@ def polarplot(
 
                 polarax.plot(thetass, rad, color)
                 if aprox is True:
-                    polarax.plot(thetass, radapprox, color + "--")
+                    # (the approximation of isotropic functions is a constant)
+                    polarax.plot(
+                        thetass, np.broadcast_to(radapprox, thetass.shape), color + "--"
+                    )
                 polarax.arrow(
                     -ti,
                     pmax * 1.2,
-- 
2.43.0


From 0206b2a73604e480025ba3379d4b0b8cc64eea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 78/97] fix: selections and start-values in fit.plot.results

---
 rt1/rtplots.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 2ed7ac8..89c2446 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -987,14 +987,14 @@ class plot:
         masked_data = np.ma.masked_array(fit.data, fit.mask)
         # get labels
         try:
-            labels = pd.to_datetime(fit.fit_index).strftime(legend_fmt)[
-                result_selection
+            labels = pd.to_datetime(fit.meandatetimes_group).strftime(legend_fmt)[
+                list(result_selection)
             ]
         except Exception:
             labels = result_selection
 
-        for i in result_selection:
-            (l,) = ax.plot(fit.inc[i], fitplot[i], alpha=0.4, label=labels[i])
+        for i, label in zip(result_selection, labels):
+            (l,) = ax.plot(fit.inc[i], fitplot[i], alpha=0.4, label=label)
             ax.plot(fit.inc[i], masked_data[i], ".", c=l.get_color())
 
         if legend is True:
@@ -1005,8 +1005,15 @@ class plot:
 
         # ----------- plot start-values ------------
         if startvals is True:
-            startplot = fit._calc_model(res_dict=fit.start_dict)
-            for i, val in enumerate(startplot[result_selection]):
+            start_dict = {
+                key: np.broadcast_to(
+                    val, (len(pd.unique(fit.param_dyn_dict[key])),)
+                ).tolist()
+                for key, val in fit._startvaldict.items()
+                if val is not None
+            }
+            startplot = fit._calc_model(res_dict=start_dict)
+            for i, val in enumerate(startplot[list(result_selection)]):
                 if i == 0:
                     label = "fitstart"
                 else:
@@ -1045,7 +1052,7 @@ class plot:
         if len(result_selection) < len(fit.data):
             for i, resid in enumerate(result_selection):
                 ax2.text(
-                    fit.index[resid],
+                    fit.meandatetimes_group[resid],
                     ax2.get_ylim()[1] * 0.9,
                     resid,
                     bbox=dict(facecolor=f"C{i}", alpha=0.5),
-- 
2.43.0


From 082e133f81e37b5c41616922d077b0318ed6b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 79/97] fix: selection of groups via fit_indexes in
 fit.plot.single_results

---
 rt1/rtplots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 89c2446..ac45b9b 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1108,10 +1108,11 @@ class plot:
         if fit_numbers is not None and fit_indexes is not None:
             assert False, "please provide EITHER fit_numbers OR fit_indexes!"
         elif fit_indexes is not None:
-            # fit_numbers = np.where(fit.index.isin(fit_indexes))[0]
+            # use the groups whose mean datetime is closest to the provided indexes
+            groupdates = np.array(fit.meandatetimes_group, dtype=fit.index.dtype)
             fit_numbers = np.argmin(
                 np.abs(
-                    fit.fit_index
+                    groupdates
                     - np.expand_dims(
                         np.atleast_1d(np.array(fit_indexes, dtype=fit.index.dtype)),
                         -1,
-- 
2.43.0


From 9469a04c936fde11bbd858f19b2ebc4020fd501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 80/97] fix: average of dynamic parameters in
 fit.plot.intermediate_results and analyzemodel

---
 rt1/rtplots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index ac45b9b..4d6861d 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1298,9 +1298,9 @@ class plot:
         for i, valdict in enumerate(fit.intermediate_results["parameters"]):
             for key, val in valdict.items():
                 if key in interparams:
-                    interparams[key] += [[i, np.mean(val[0])]]
+                    interparams[key] += [[i, np.mean(val)]]
                 else:
-                    interparams[key] = [[i, np.mean(val[0])]]
+                    interparams[key] = [[i, np.mean(val)]]
         intererrs = {}
         for i, valdict in enumerate(fit.intermediate_results["residuals"]):
             for key, val in valdict.items():
@@ -2421,7 +2421,7 @@ class plot:
                 maxparams[key] = val[3][1][0]
                 # try to use fitted-values as start values for the parameters
                 if res_dict is not None and key in res_dict:
-                    startparams[key] = np.mean(res_dict[key][0])
+                    startparams[key] = np.mean(res_dict[key])
                 else:
                     startparams[key] = val[1]
             if val[0] is False:
-- 
2.43.0


From fd0253f3ae32bac2b8d45b1c02c5c288a28dee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 81/97] fix: dates and selections in fit.plot.fit_errors

---
 rt1/rtplots.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 4d6861d..66f273a 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -771,14 +771,13 @@ class plot:
         if fit is None:
             fit = self.fit
 
-        if result_selection == "all":
+        if isinstance(result_selection, str) and result_selection == "all":
             result_selection = range(len(fit.data))
+        result_selection = list(result_selection)
+        # the (average) datetimes of the measurement-groups
+        index = pd.to_datetime(fit.meandatetimes_group)
 
-        # Calculate the residuals (based on R, inc and res_dict)
-
-        fit.R.t_0 = fit.inc
-        fit.R.p_0 = np.zeros_like(fit.inc)
-
+        # Calculate the residuals (based on inc and res_dict)
         estimates = fit._calc_model()
         # calculate the residuals based on masked arrays
         masked_estimates = np.ma.masked_array(estimates, mask=fit.mask)
@@ -807,11 +806,11 @@ class plot:
             ax2.set_title("Residuals per incidence-angle")
 
         # the use of masked arrays might cause python 2 compatibility issues!
-        ax.plot(fit.index[result_selection], res[result_selection], ".", alpha=0.5)
+        ax.plot(index[result_selection], res[result_selection], ".", alpha=0.5)
 
         # plot mean residual for each measurement
         ax.plot(
-            fit.index[result_selection],
+            index[result_selection],
             np.ma.mean(res[result_selection], axis=1),
             "k",
             linewidth=3,
@@ -821,7 +820,7 @@ class plot:
 
         # plot total mean of mean residuals per measurement
         ax.plot(
-            fit.index[result_selection],
+            index[result_selection],
             [np.ma.mean(np.ma.mean(res[result_selection], axis=1))]
             * len(result_selection),
             "k--",
@@ -926,7 +925,7 @@ class plot:
         ax2.xaxis.set_minor_locator(plt.MultipleLocator(0.25))
 
         # set ticks
-        if isinstance(fit.index[0], datetime.datetime):
+        if isinstance(index[0], datetime.datetime):
             plt.setp(ax.get_xticklabels(), rotation=30, ha="right")
 
         fig.tight_layout()
-- 
2.43.0


From f1df473478a9cfc1871d746d3402d1beaf31ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 82/97] fix: assignment of model- and data-values in
 fit.plot.scatter and fit_timeseries

---
 rt1/rtplots.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 66f273a..1c8b8f2 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -34,6 +34,15 @@ from .general_functions import (
 pd.plotting.register_matplotlib_converters()
 
 
+def _calc_model_dataset(fit, **kwargs):
+    """
+    evaluate fit.calc_model() and return the results in the order of the dataset
+    (the results of fit.calc_model() are sorted by the fit-groups)
+    """
+    res = fit.calc_model(**kwargs)
+    return res.iloc[np.argsort(fit._idx_assigns[~fit.mask])]
+
+
 def polarplot(
     X=None,
     inc=[15.0, 35.0, 55.0, 75.0],
@@ -489,9 +498,8 @@ class plot:
         # measures = fit.dataset.sig.values
         # calculate estimates
         # estimates = fit.calc_model().tot.values
-        measures, estimates = pd.concat(
-            [fit.dataset.sig, fit.calc_model().tot], axis=1
-        ).values.T
+        measures = fit.dataset.sig.values
+        estimates = _calc_model_dataset(fit).tot.values
         if mima is None:
             mi = np.min((measures, estimates))
             ma = np.max((measures, estimates))
@@ -597,15 +605,12 @@ class plot:
             fit = self.fit
 
         # get incidence-angles
-        inc_array = np.ma.masked_array(fit.inc, fit.mask)
-        inc = inc_array.compressed()
-        # get input dataset
-        data = np.ma.masked_array(fit.data, fit.mask)
+        inc = fit.dataset.inc.values
 
         # calculate individual contributions
-        contrib = fit.calc_model(return_components=True)
-        contrib["$\\sigma_0$ dataset"] = fit.dataset.sig
-        contrib["inc"] = fit.dataset.inc
+        contrib = _calc_model_dataset(fit, return_components=True)
+        contrib["$\\sigma_0$ dataset"] = fit.dataset.sig.values
+        contrib["inc"] = inc
 
         # convert units
         complist = [i for i in contrib.keys() if i not in ["inc"]]
-- 
2.43.0


From 469c4459ddf863a34ca6ad121deda7ddbe395ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 83/97] fix: dates, auxiliary data and options of
 fit.plot.printsig0analysis

---
 rt1/rtplots.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 1c8b8f2..c22b5fe 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1572,15 +1572,16 @@ class plot:
         ax1.grid()
 
         if use_index == "dataset":
-            sig0_vals = fit.calc_model(return_components=True)
-            sig0_vals["data"] = fit.dataset.sig
-            sig0_vals["incs"] = fit.dataset.inc
-            sig0_vals = sig0_vals.groupby(level=0).agg(list).to_dict(orient="list")
+            sig0_vals = _calc_model_dataset(fit, return_components=True)
+            sig0_vals["data"] = fit.dataset.sig.values
+            sig0_vals["incs"] = fit.dataset.inc.values
+            sig0_vals = sig0_vals.groupby(level=0).agg(list)
+            indexes = pd.to_datetime(sig0_vals.index)
             sig0_vals = {
                 key: rectangularize(val, return_masked=True)
-                for key, val in sig0_vals.items()
+                for key, val in sig0_vals.to_dict(orient="list").items()
             }
-            sig0_vals["indexes"] = pd.to_datetime(fit.index)
+            sig0_vals["indexes"] = indexes
         elif use_index == "groups":
             # calculate backscatter values and ensure correct index-order
             # ( in case a unordered dyn-dict is used)
@@ -1615,13 +1616,17 @@ class plot:
                 fitdB=dB,
                 fitsig0=sig0,
             )
+        newsig0_vals, newsig0_vals_I_linear = dict(), dict()
         if printfullt_0 is True:
             inc = np.deg2rad(np.arange(1, 89, 1))
             if use_index == "dataset":
                 newsig0_vals = fit.calc(
                     param=fit.res_df,
                     inc=inc,
-                    fixed_param=fit.dataset[fit.fixed_dict.keys()],
+                    # use the average value of the fixed-parameters for each date
+                    fixed_param=fit.dataset[fit.fixed_dict.keys()]
+                    .groupby(level=0)
+                    .mean(),
                     return_components=True,
                 )
             elif use_index == "groups":
@@ -1647,7 +1652,6 @@ class plot:
 
             newsig0_vals["incs"] = np.broadcast_to(inc, newsig0_vals["tot"].shape)
 
-            newsig0_vals_I_linear = dict()
             for key in ["tot", "surf", "vol", "inter"]:
                 if key not in newsig0_vals:
                     continue
@@ -1716,7 +1720,8 @@ class plot:
 
         # ensure sort-order
         if use_index == "dataset":
-            inc_sortp = np.argsort(fit.index)
+            # (the results are already sorted by the index)
+            inc_sortp = np.arange(len(sig0_vals["indexes"]))
         elif use_index == "groups":
             inc_sortp = np.argsort(fit.meandatetimes_group)
 
-- 
2.43.0


From 62f373626f622800c2aea8068346c50fd58417f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 84/97] fix: fit.plot.analyzemodel for datasets with
 non-numeric columns

---
 rt1/rtplots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index c22b5fe..6d86399 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2621,9 +2621,9 @@ class plot:
                 fit.res_df,
                 inc,
                 return_components=False,
-                fixed_param=fit.dataset.groupby(level=0, axis=0).mean()[
-                    fit.fixed_dict.keys()
-                ],
+                fixed_param=fit.dataset[fit.fixed_dict.keys()]
+                .groupby(level=0)
+                .mean(),
             )
             res = dBsig0convert(res, inc, dB, sig0, fit.dB, fit.sig0)
 
-- 
2.43.0


From 0574368831aaf90b645d85f48f14dd4a7ee63182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 85/97] fix: order of the groups in
 fit.plot.intermediate_residuals

---
 rt1/rtplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 6d86399..ffb1a58 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -3004,7 +3004,7 @@ class plot:
                 resarr = np.abs(
                     [
                         pd.DataFrame(i[err], fit.dataset.index)
-                        .groupby(fit._groupindex)
+                        .groupby(fit._groupindex, sort=False)
                         .mean()
                         .values.flatten()
                         for i in fit.intermediate_results["residuals"][iter_slice]
-- 
2.43.0


From 6503c66288d287971972c9ed8231021c6496745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 86/97] fix: fit.plot.analyzemodel with a single parameter

---
 rt1/rtplots.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index ffb1a58..1f98d09 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2469,26 +2469,28 @@ class plot:
         f = plt.figure(figsize=(12, 9))
         f.subplots_adjust(top=0.93, right=0.98, left=0.07)
         # generate figure grid and populate with axes
+        # (the sliders are arranged in rows with 3 columns)
+        nrows = max(1, -(-len(minparams) // 3))
         gs = GridSpec(
-            1 + len(minparams) // 2,
+            1 + nrows,
             1 + 3,
-            height_ratios=[8] + [1] * (len(minparams) // 2),
+            height_ratios=[8] + [1] * nrows,
             width_ratios=[0.75, 1, 1, 1],
         )
         gs.update(wspace=0.3)
 
         gsslider = GridSpec(
-            1 + len(minparams) // 2,
+            1 + nrows,
             1 + 3,
-            height_ratios=[8] + [1] * (len(minparams) // 2),
+            height_ratios=[8] + [1] * nrows,
             width_ratios=[0.75, 1, 1, 1],
         )
         gsslider.update(wspace=0.3, bottom=0.05)
 
         gsbutton = GridSpec(
-            1 + len(minparams) // 2,
+            1 + nrows,
             1 + 3,
-            height_ratios=[8] + [1] * (len(minparams) // 2),
+            height_ratios=[8] + [1] * nrows,
             width_ratios=[0.75, 1, 1, 1],
         )
         gsbutton.update(hspace=0.75, wspace=0.1, bottom=0.05)
-- 
2.43.0


From 6fd7bd4119fae53c7b0b2c5a61566761d72d65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 87/97] fix: assignment of the residuals in
 fit.plot.intermediate_residuals

---
 rt1/rtplots.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 1f98d09..5433335 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2972,6 +2972,10 @@ class plot:
         else:
             iterstep = 1
 
+        # the residuals are stored in the order of the fit-groups
+        # (e.g. they must be re-ordered to match the order of the dataset)
+        order = np.argsort(fit._idx_assigns[~fit.mask])
+
         if isinstance(grp, tuple):
             if grp[0] in fit.res_df:
                 grps = pd.cut(
@@ -2987,7 +2991,7 @@ class plot:
             # group the residuals with respect to the defined group
             resarr = np.abs(
                 [
-                    pd.DataFrame(i[err], fit.dataset.index)
+                    pd.DataFrame(i[err][order], fit.dataset.index)
                     .groupby(grps)
                     .mean()
                     .values.flatten()
@@ -3005,7 +3009,7 @@ class plot:
                 grplabels = pd.to_datetime(fit.meandatetimes_group)
                 resarr = np.abs(
                     [
-                        pd.DataFrame(i[err], fit.dataset.index)
+                        pd.DataFrame(i[err][order], fit.dataset.index)
                         .groupby(fit._groupindex, sort=False)
                         .mean()
                         .values.flatten()
@@ -3024,10 +3028,10 @@ class plot:
                 use_label = ""
             elif grp == "dataset":
                 # group the residuals with respect to the dataset-index
-                grplabels = pd.to_datetime(fit.index)
+                grplabels = pd.to_datetime(np.unique(fit.dataset.index))
                 resarr = np.abs(
                     [
-                        pd.DataFrame(i[err], fit.dataset.index)
+                        pd.DataFrame(i[err][order], fit.dataset.index)
                         .groupby(level=0)
                         .mean()
                         .values.flatten()
@@ -3048,7 +3052,7 @@ class plot:
                 # group the residuals with respect to the defined group
                 grplabels = (
                     pd.DataFrame(
-                        fit.intermediate_results["residuals"][0][err],
+                        fit.intermediate_results["residuals"][0][err][order],
                         fit.dataset.index,
                     )
                     .groupby(pd.Grouper(freq=grp))
@@ -3058,7 +3062,7 @@ class plot:
 
                 resarr = np.abs(
                     [
-                        pd.DataFrame(i[err], fit.dataset.index)
+                        pd.DataFrame(i[err][order], fit.dataset.index)
                         .groupby(pd.Grouper(freq=grp))
                         .mean()
                         .values.flatten()
-- 
2.43.0


From 6a691356b55a63ba960244e7e5d22d37c2d861d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 88/97] fix: keep the number and the reader-args of features
 loaded from existing dumps

---
 rt1/processing_config.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index a3a4d00..9e4ae1d 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -3,7 +3,7 @@
 import sys
 import traceback
 from pathlib import Path
-from .rtfits import load
+from .rtfits import load, MultiFits
 from . import log
 
 
@@ -223,7 +223,12 @@ class rt1_processing_config(object):
 
             try:
                 fit = load(self.rt1_procsesing_dumppath / names_ids["filename"])
-                return fit._get_fit_to_hdf_dict()
+                # use the reader_arg (and the number) of the current run
+                if isinstance(fit, MultiFits):
+                    fit.set_reader_arg(reader_arg)
+                else:
+                    fit.reader_arg = reader_arg
+                return fit._get_fit_to_hdf_dict(ID=reader_arg.get("_RT1_ID_num", None))
             except Exception:
                 log.error(
                     "there has been a problem while loading the "
-- 
2.43.0


From f4f69cb56276b5fe4a031632eac9bddb7ca85ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 89/97] fix: allow None and numeric values for all
 least_squares arguments in config-files

---
 rt1/rtparse.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index 210c4e9..dc260a0 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -149,7 +149,7 @@ class RT1_configparser(object):
         self.lsq_parse_props = dict(
             section="least_squares_kwargs",
             int_keys=["verbose", "max_nfev"],
-            float_keys=["ftol", "gtol", "xtol"],
+            float_keys=["ftol", "gtol", "xtol", "f_scale", "diff_step"],
         )
 
         self.fitargs_parse_props = dict(
@@ -226,24 +226,20 @@ class RT1_configparser(object):
 
         parsed_dict = dict()
         for key in inp:
-            if key in float_keys:
+            if inp[key] is None or inp[key] == "None":
+                # parse None as "real" None
+                val = [] if key in list_keys else None
+            elif key in float_keys:
                 val = inp.getfloat(key)
             elif key in int_keys:
                 val = inp.getint(key)
             elif key in bool_keys:
                 val = inp.getboolean(key)
             elif key in list_keys:
-                if inp[key] == "None":
-                    val = []
-                else:
-                    val = inp[key].replace(" ", "").split(",")
-                    val = [i for i in val if len(i) > 0]
+                val = inp[key].replace(" ", "").split(",")
+                val = [i for i in val if len(i) > 0]
             else:
-                # parse None as "real" None
-                if inp[key] == "None":
-                    val = None
-                else:
-                    val = inp[key]
+                val = inp[key]
 
             parsed_dict[key] = val
         return parsed_dict
-- 
2.43.0


From 30acd9e4ef817f56fe12a99a238187b454a32e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:56 +0000
Subject: [PATCH 90/97] fix: accept readers that return the dataset as the only
 item of a list

---
 rt1/rtprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index e4204c2..46d66c5 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -466,7 +466,9 @@ class RTprocess(object):
             elif isinstance(read_data, (list, tuple)) and isinstance(
                 read_data[0], pd.DataFrame
             ):
-                if len(read_data) == 2:
+                if len(read_data) == 1:
+                    dataset, aux_data = read_data[0], None
+                elif len(read_data) == 2:
                     dataset, aux_data = read_data
                 elif len(read_data) > 2:
                     dataset = read_data[0]
-- 
2.43.0


From 3aa4073840adc2127f39ec7f2f49853eadd79897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 91/97] fix: accept sections with definitions as init_kwargs of
 RTprocess

---
 rt1/rtprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 46d66c5..b7e37e1 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -153,7 +153,9 @@ class RTprocess(object):
             self.init_kwargs = dict()
         else:
             assert all(
-                [isinstance(i, str) for i in init_kwargs.values()]
+                isinstance(i, str)
+                for init_defs in init_kwargs.values()
+                for i in init_defs.values()
             ), 'the values of "init_kwargs" MUST be strings !'
             self.init_kwargs = init_kwargs
 
-- 
2.43.0


From 23576878e235a1bf7e339cd4d3e7aeabfb7828ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 92/97] fix: keep all previous definitions if a config is
 updated with override=False

---
 rt1/rtprocess.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index b7e37e1..5cac92f 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -236,11 +236,14 @@ class RTprocess(object):
             }
 
         if override is False:
-            for section, init_defs in init_kwargs.items():
-                init_kwargs[section] = {
+            # (keep also the sections for which no new definitions are provided)
+            init_kwargs = {
+                section: {
                     **self.init_kwargs.get(section, {}),
-                    **init_defs,
+                    **init_kwargs.get(section, {}),
                 }
+                for section in {**self.init_kwargs, **init_kwargs}
+            }
 
         self.init_kwargs = init_kwargs
 
-- 
2.43.0


From 43bd83217c6aea9addc9a236fa90cb2ae17cbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 93/97] fix: use the name of the processing-module defined in
 the CONFIGFILES section

---
 rt1/rtprocess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 5cac92f..9882fab 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -342,7 +342,10 @@ class RTprocess(object):
             self._copy_cfg_and_modules()
 
         # get the name of the processing-module and the processing-class
-        proc_module_name = specs.get("processing_cfg_module", "processing_cfg")
+        proc_module_name = self.cfg.config["CONFIGFILES"].get(
+            "processing_cfg_module",
+            specs.get("processing_cfg_module", "processing_cfg"),
+        )
         proc_class_name = specs.get("processing_cfg_class", "processing_cfg")
 
         # load ALL modules to ensure that the importer finds them
-- 
2.43.0


From e9a30733fd3c1641cc9d1e624a1b309306b6fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 94/97] fix: use a provided finalout_name only for the current
 call of run_finaloutput

---
 rt1/rtprocess.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 9882fab..7e4f6be 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1085,13 +1085,8 @@ class RTprocess(object):
         listener = None
 
         try:
-            # override finalout_name
-            # do this BEFORE self.setup() is called !!
             if finalout_name is not None:
                 assert isinstance(finalout_name, str), "finalout_name must be a string"
-                self.override_config(
-                    PROCESS_SPECS=dict(finalout_name=finalout_name), override=False
-                )
 
             # initialize all necessary properties with autocontinue=True
             initial_autocontinue = self.autocontinue
@@ -1101,9 +1096,10 @@ class RTprocess(object):
 
             # if "save-path" is not provided explicitly, use the path from the config
             if save_path is None:
-                save_path = (
-                    self.proc_cls.rt1_procsesing_respath / self.proc_cls.finalout_name
-                )
+                # (a provided finalout_name is only used for the current call)
+                if finalout_name is None:
+                    finalout_name = self.proc_cls.finalout_name
+                save_path = self.proc_cls.rt1_procsesing_respath / finalout_name
 
             if logfile_level is not None:
                 # start a listener-process that takes care of the logs from
-- 
2.43.0


From 00806f1e4614058aefaeac9893435775ac8cab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 95/97] fix: export the results of the folder that is specified
 by the overridden config

---
 rt1/rtprocess.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 7e4f6be..e74014d 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1542,10 +1542,10 @@ class RTprocess(object):
 
         # ----- initialize a RTresults object for easy access to the list of dump-files
         # don't use "self.dumppath" since it requires a call to setup() !
-        if not hasattr(self, "cfg"):
-            specs = RT1_configparser(self.config_path).get_process_specs()
-        else:
-            specs = self.cfg.get_process_specs()
+        cfg = RT1_configparser(self.config_path)
+        for section, init_defs in self.init_kwargs.items():
+            cfg.config[section].update(init_defs)
+        specs = cfg.get_process_specs()
         res = RTresults(
             specs["save_path"] / specs["dumpfolder"],
             use_dumps=kwargs.get("use_dumps", False),
-- 
2.43.0


From 55265550cc6af9353cbcd95cf3abb57c45c8f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 96/97] fix: use the full name of the folders to address
 results

---
 rt1/rtresults.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index e3ac345..36248ff 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -138,12 +138,12 @@ class RTresults(object):
 
     def _addresult(self, path):
         if self._check_folderstructure(path):
-            self._paths[path.stem] = path
-            log.info(f"... adding result {path.stem}")
+            self._paths[path.name] = path
+            log.info(f"... adding result {path.name}")
             setattr(
                 self,
-                path.stem,
-                self._RT1_fitresult(path.stem, path, self._use_dumps),
+                path.name,
+                self._RT1_fitresult(path.name, path, self._use_dumps),
             )
 
     class _RT1_fitresult(object):
-- 
2.43.0


From 0b348a66b39a5d7a6b3685d26f1c080984976700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 97/97] fix: address only existing index-values (also from the
 end) in iloc_level

---
 rt1/rtresults.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 36248ff..2ec875d 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -955,13 +955,19 @@ def _sanitize_index(df, idx):
     except TypeError:
         idx = [idx]
 
+    # (use only values that are actually present in the index)
+    levels = [
+        vals[sorted(set(codes) - {-1})]
+        for vals, codes in zip(df.index.levels, df.index.codes)
+    ]
+
     for level, i in enumerate(idx):
         if i is None:
-            yield df.index.levels[level][slice(None)]
+            yield levels[level][slice(None)]
         elif isinstance(i, int):
-            yield df.index.levels[level][slice(i, i + 1)]
+            yield levels[level][slice(i, i + 1 if i != -1 else None)]
         else:
-            yield df.index.levels[level][i]
+            yield levels[level][i]
 
 
 def iloc_level(df, idx):
-- 
2.43.0

