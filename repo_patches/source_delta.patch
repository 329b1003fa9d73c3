From 8a2d6c5b1d086ad5570993ab34bbae2e374809bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 001/106] fix: check p_ex (not p_0) for fixed exit-azimuth
 geometries

---
 rt1/surface.py | 4 ++--
 rt1/volume.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index fda6d74..e7d2083 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -254,7 +254,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -388,7 +388,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
diff --git a/rt1/volume.py b/rt1/volume.py
index 4c6d13b..1f38d8d 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -253,7 +253,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -426,7 +426,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
-- 
2.43.0


From 7c57a196dbb17a8f682ae91bb0c3fe6e60b6bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 002/106] fix: re-evaluate cached cosine-powers if the angles
 of a RT1-object are changed

(and clear the cached volume-derivatives in _clear_cache)
---
 rt1/rt1.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 3f9ef0f..e3efdb6 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -226,7 +226,7 @@ class RT1(object):
 
         names = [
             "_d_surface_dummy_lambda",
-            "_d_surface_dummy_lambda",
+            "_d_volume_dummy_lambda",
             "_mu_0_x",
             "_mu_ex_x",
         ]
@@ -234,7 +234,11 @@ class RT1(object):
 
     def _clear_cache(self):
         self._d_surface_dummy_lambda.cache_clear()
-        self._d_surface_dummy_lambda.cache_clear()
+        self._d_volume_dummy_lambda.cache_clear()
+        self._clear_mu_cache()
+
+    @staticmethod
+    def _clear_mu_cache():
         RT1._mu_0_x.fget.cache_clear()
         RT1._mu_ex_x.fget.cache_clear()
 
@@ -393,6 +397,8 @@ class RT1(object):
         if np.isscalar(t_0):
             t_0 = np.array([t_0])
         self.__t_0 = t_0
+        # powers of the cosines must be re-evaluated for the new angles
+        self._clear_mu_cache()
 
     t_0 = property(_get_t_0, _set_t_0)
 
@@ -423,6 +429,7 @@ class RT1(object):
             if np.isscalar(t_ex):
                 t_ex = np.array([t_ex])
             self.__t_ex = t_ex
+            self._clear_mu_cache()
 
     t_ex = property(_get_t_ex, _set_t_ex)
 
-- 
2.43.0


From 6731e2718b426efeb8863caa31c6649ee025bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 003/106] fix: interaction-term for geometries with fixed
 angles

The fn-coefficients contain fixed angles as numerical constants. The second
part of the interaction-term (interchanged directions) must therefore not
re-use them. Also broadcast constant coefficients to the shape of the angles
for the sympy-backend.
---
 rt1/rt1.py | 100 +++++++++++++++++++++++++++++------------------------
 1 file changed, 54 insertions(+), 46 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index e3efdb6..98a5a87 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -1246,6 +1246,58 @@ class RT1(object):
 
         return self.SRF.NormBRDF * (1.0 - self.bsf) * Iint
 
+    @property
+    def _fnevals_swapped(self):
+        """
+        the function to evaluate the fn-coefficients for interchanged incident-
+        and exit-directions.
+
+        If all angles are variable (or if the geometry is monostatic) this is
+        the same function as _fnevals. Angles that are treated as "fixed" are
+        however already inserted in the fn-coefficients, so they must be
+        re-evaluated with the roles of the two directions interchanged.
+        """
+        if self.geometry == "mono" or "f" not in self.geometry or not self.int_Q:
+            return self._fnevals
+
+        try:
+            return self.__fnevals_swap
+        except AttributeError:
+            g = self.geometry
+            self.__fnevals_swap = RT1(
+                self.I0,
+                self.t_ex,
+                self.t_0,
+                self.p_ex,
+                self.p_0,
+                V=self.V,
+                SRF=self.SRF,
+                geometry=g[1] + g[0] + g[3] + g[2],
+                param_dict=self.param_dict,
+                lambda_backend=self.lambda_backend,
+                verbosity=self.verbosity,
+            )._fnevals
+            return self.__fnevals_swap
+
+    def _eval_fn(self, fnevals, mu1, phi1, mu2, phi2):
+        """numerical evaluation of the fn-coefficients"""
+        args = np.broadcast_arrays(
+            np.arccos(mu1),
+            phi1,
+            np.arccos(mu2),
+            phi2,
+            *self.param_dict.values(),
+        )
+
+        if self.lambda_backend == "symengine":
+            fn = fnevals(args)
+        else:
+            fn = fnevals(*args)
+
+        # to correct for 0 dimensional arrays if a fn-coefficient
+        # is constant (in a symbolic manner)
+        return np.broadcast_arrays(*fn, args[0])[:-1]
+
     def _calc_Fint_1(self):
         """
         Numerical evaluation of the F_int() function used in the definition
@@ -1260,29 +1312,7 @@ class RT1(object):
         mu1, mu2, phi1, phi2 = self._mu_0, self._mu_ex, self.p_0, self.p_ex
 
         # evaluate fn-coefficients
-        if self.lambda_backend == "symengine":
-            args = np.broadcast_arrays(
-                np.arccos(mu1),
-                phi1,
-                np.arccos(mu2),
-                phi2,
-                *self.param_dict.values(),
-            )
-
-            # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(args))
-        else:
-            args = np.broadcast_arrays(
-                np.arccos(mu1),
-                phi1,
-                np.arccos(mu2),
-                phi2,
-                *self.param_dict.values(),
-            )
-            # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+        fn = self._eval_fn(self._fnevals, mu1, phi1, mu2, phi2)
 
         multip = self._mu_0_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
@@ -1302,29 +1332,7 @@ class RT1(object):
         mu1, mu2, phi1, phi2 = self._mu_ex, self._mu_0, self.p_ex, self.p_0
 
         # evaluate fn-coefficients
-        if self.lambda_backend == "symengine":
-            args = np.broadcast_arrays(
-                np.arccos(mu1),
-                phi1,
-                np.arccos(mu2),
-                phi2,
-                *self.param_dict.values(),
-            )
-
-            # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(args))
-        else:
-            args = np.broadcast_arrays(
-                np.arccos(mu1),
-                phi1,
-                np.arccos(mu2),
-                phi2,
-                *self.param_dict.values(),
-            )
-            # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+        fn = self._eval_fn(self._fnevals_swapped, mu1, phi1, mu2, phi2)
 
         multip = self._mu_ex_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From e4f60f29762ebfe80201825aa7e8cdcba303ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 004/106] fix: set the legendre-expansion of LinCombV objects
 at initialization

(otherwise they can not be used to evaluate the interaction-term)
---
 rt1/volume.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/volume.py b/rt1/volume.py
index 1f38d8d..d070839 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -484,6 +484,7 @@ class LinCombV(Volume):
         super(LinCombV, self).__init__(**kwargs)
 
         self.Vchoices = Vchoices
+        self._set_legexpansion()
 
         name = "LinCombV"
         for c in Vchoices:
-- 
2.43.0


From 5eb0390dba9447932ce2c630e85e3f95dc6c9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 005/106] fix: interaction-term at nadir and for very large
 optical depths

Use the limits of the equation for mu=1 and avoid the overflow of expi()
that both resulted in nan-values.
---
 rt1/rt1.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 98a5a87..a93a09e 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -1355,12 +1355,26 @@ class RT1(object):
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
 
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
+        # use the limits of the equations for nadir (mu = 1) to avoid nan-values
+        nadir = mu == 1.0
+        m = np.where(nadir, 0.5, mu)
+
+        # exp(-z) * expi(z)   (asymptotic series to avoid overflows for large z)
+        z = tau * (1.0 - m) / m
+        large = z > 500.0
+        zl = np.where(large, z, 500.0)
+        expi_scaled = np.where(
+            large,
+            sum(np.prod(np.arange(1.0, k + 1)) / zl ** (k + 1) for k in range(6)),
+            np.exp(-z) * expi(np.where(large, 500.0, z)),
         )
 
+        hlp1 = np.where(
+            nadir,
+            np.exp(-tau) * (np.euler_gamma + np.log(tau)),
+            np.exp(-tau / m) * np.log(m / (1.0 - m)) + np.exp(-tau) * expi_scaled,
+        ) - expi(-tau)
+
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
         def innerfunc(k):
-- 
2.43.0


From b50e7f68af2986d37794e96696afcba93c65ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 006/106] fix: numeric evaluation of phase-functions whose
 parameters are sympy-expressions

The direct numeric versions of the functions only considered single symbols,
expressions ended up in the (object-)results or raised a TypeError.
---
 rt1/scatter.py | 15 +++++++++++++++
 rt1/surface.py |  5 +----
 rt1/volume.py  |  5 +----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/rt1/scatter.py b/rt1/scatter.py
index 0d9a1d5..130638f 100644
--- a/rt1/scatter.py
+++ b/rt1/scatter.py
@@ -63,6 +63,21 @@ class Scatter(object):
             + a[2] * np.sin(t_0) * np.sin(t_ex) * np.sin(p_0) * np.sin(p_ex)
         )
 
+    @staticmethod
+    def _get_numeric(val, param_dict):
+        """
+        the numeric value of a parameter that is possibly defined as a
+        sympy-expression of the symbols provided in param_dict
+        """
+        if not isinstance(val, sp.Basic):
+            return val
+        if isinstance(val, sp.Symbol):
+            return param_dict[str(val)]
+
+        symbols = sorted(map(str, val.free_symbols))
+        func = sp.lambdify(symbols, val, modules=["numpy"])
+        return func(*(param_dict[symb] for symb in symbols))
+
     def _get_legcoef(self, n0):
         """
         function to evaluate legendre coefficients
diff --git a/rt1/surface.py b/rt1/surface.py
index e7d2083..1fab852 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -857,10 +857,7 @@ class HG_nadirnorm(Surface):
     def _func_numeric(self, theta_0, theta_ex, phi_0, phi_ex, **kwargs):
         """direct numeric version of _func"""
 
-        if isinstance(self.t, sp.Symbol):
-            t = kwargs[str(self.t)]
-        else:
-            t = self.t
+        t = self._get_numeric(self.t, kwargs)
 
         x = self._scat_angle_numeric(theta_0, theta_ex, phi_0, phi_ex, a=self.a)
 
diff --git a/rt1/volume.py b/rt1/volume.py
index d070839..bbd7acb 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -715,10 +715,7 @@ class HenyeyGreenstein(Volume):
 
     def _func_numeric(self, theta_0, theta_ex, phi_0, phi_ex, **kwargs):
         """direct numeric version of _func"""
-        if isinstance(self.t, sp.Symbol):
-            t = kwargs[str(self.t)]
-        else:
-            t = self.t
+        t = self._get_numeric(self.t, kwargs)
         x = self._scat_angle_numeric(theta_0, theta_ex, phi_0, phi_ex, self.a)
         func = (1.0 - t**2.0) / (
             (4.0 * np.pi) * (1.0 + t**2.0 - 2.0 * t * x) ** 1.5
-- 
2.43.0


From f266d6f1b67baf6a754ee5269c7e6a8c496c9b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 007/106] fix: broadcasting of angles and parameters with
 different dimensions in the interaction-term

The axis of the fn-coefficients was possibly aligned with an axis of the inputs, which
resulted in errors or (silently) wrong results.
---
 rt1/rt1.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index a93a09e..a96a87b 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -1314,9 +1314,10 @@ class RT1(object):
         # evaluate fn-coefficients
         fn = self._eval_fn(self._fnevals, mu1, phi1, mu2, phi2)
 
-        multip = self._mu_0_x * self._S2_mu(mu1, self.V.tau)
-        S = np.sum(fn * multip, axis=0)
-        return S
+        # sum up term by term to ensure that the shapes of the angles and parameters
+        # are broadcasted properly (independent of the number of coefficients)
+        S2 = self._S2_mu(mu1, self.V.tau)
+        return sum(f * mux * s2 for f, mux, s2 in zip(fn, self._mu_0_x, S2))
 
     def _calc_Fint_2(self):
         """
@@ -1334,9 +1335,10 @@ class RT1(object):
         # evaluate fn-coefficients
         fn = self._eval_fn(self._fnevals_swapped, mu1, phi1, mu2, phi2)
 
-        multip = self._mu_ex_x * self._S2_mu(mu1, self.V.tau)
-        S = np.sum(fn * multip, axis=0)
-        return S
+        # sum up term by term to ensure that the shapes of the angles and parameters
+        # are broadcasted properly (independent of the number of coefficients)
+        S2 = self._S2_mu(mu1, self.V.tau)
+        return sum(f * mux * s2 for f, mux, s2 in zip(fn, self._mu_ex_x, S2))
 
     @property
     @lru_cache()
-- 
2.43.0


From 3b0713e7a9692414b6aebede6ad298af908a8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 008/106] fix: avoid name-conflicts between symbols of V/SRF
 and sub-expressions of the fn-coefficients

symengine names sub-expressions x0, x1, ... so that the interaction-term was silently
wrong if a parameter with such a name is used.
---
 rt1/rt1.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index a96a87b..13b7945 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -20,7 +20,7 @@ import sympy as sp
 
 try:
     # if symengine is available, use it to perform series-expansions
-    from symengine import expand, Lambdify
+    from symengine import expand, sympify, Lambdify
 
     _init_lambda_backend = "symengine"
 except ImportError:
@@ -338,9 +338,13 @@ class RT1(object):
 
                 # llvm backend is used to allow pickling of the functions
                 # see https://github.com/symengine/symengine.py/issues/294
+                # use unique names for the symbols to avoid conflicts with the names
+                # of the symbols used for the subexpressions (x0, x1, ...)
+                repl = {v: sp.Symbol(f"_RT1_{v}") for v in variables}
+
                 self.__fnevals = Lambdify(
-                    list(variables),
-                    self.fn,
+                    list(repl.values()),
+                    [f.xreplace(repl) for f in sympify(self.fn)],
                     order="F",
                     cse=True,
                     backend="llvm",
-- 
2.43.0


From b10558abf674c98a87938e2995e310b47d1cc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 009/106] fix: evaluate angular derivatives of CosineLobe BRDFs

The un-evaluated derivative of sign() resulted in a NameError.
---
 rt1/surface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rt1/surface.py b/rt1/surface.py
index 1fab852..b30a42d 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -410,6 +410,11 @@ class Surface(Scatter):
             )
 
             dfunc_dtheta_0 = sp.diff(func, theta_ex, n)
+            # the derivatives of sign() (e.g. used to define the CosineLobe) are not
+            # evaluated by sympy. They are identical to 0 (except at the jump)
+            dfunc_dtheta_0 = dfunc_dtheta_0.replace(
+                sp.Derivative, lambda *args: sp.Integer(0)
+            )
 
         if return_symbolic is True:
             return dfunc_dtheta_0
-- 
2.43.0


From 82cac484569a5b3b7cb5d2807178c4de5269ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 010/106] fix: integer parameter-dynamics for datasets with
 less dates than the group-size

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 909207a..f358f89 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -624,7 +624,8 @@ class Fits(Scatter):
                         # find the number of groups required to split the
                         # dataset into measurement-bins of length "f"
                         n_dat = self.dataset.index.nunique()
-                        ngrps = n_dat // f
+                        # (use at least 1 group if there are less than "f" values)
+                        ngrps = max(n_dat // f, 1)
                         rest = n_dat % f
                         res = [0 for i in range(ngrps)]
                         # distribute the rest as equal as possible
-- 
2.43.0


From 56a6c4f333e516200b1fca627d95242d168e9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 011/106] fix: group manual parameter-dynamics by arbitrary
 unique identifiers

---
 rt1/rtfits.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index f358f89..bfabde0 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -665,21 +665,16 @@ class Fits(Scatter):
 
             manual_dyn_df = self._manual_dyn_df
             if manual_dyn_df is not None:
-                for key, val in manual_dyn_df.astype(str).items():
-                    dd1 = np.char.zfill(
-                        np.array(param_dyn_dict[key], dtype="str"),
-                        len(
-                            max(
-                                np.array(param_dyn_dict[key], dtype="str"),
-                                key=len,
-                            )
-                        ),
+                for key, val in manual_dyn_df.items():
+                    # generate a unique integer for each combination of the
+                    # temporal dynamics and the manually provided dynamics
+                    param_dyn_dict[key] = (
+                        pd.MultiIndex.from_arrays([param_dyn_dict[key], val.values])
+                        .to_frame()
+                        .groupby(level=[0, 1], sort=False)
+                        .ngroup()
+                        .values
                     )
-                    dd2 = val.str.zfill(len(max(val, key=len)))
-                    # generate a combined (unique) integer
-                    param_dyn_dict[key] = np.array(
-                        np.char.add(dd1, dd2), dtype=float
-                    ).astype(int)
             return param_dyn_dict
 
     @property
-- 
2.43.0


From c1ec9f6c464894c6c4fd1f9e614f65ab055521bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 012/106] fix: do not inject parameter-symbols into the module
 namespace

---
 rt1/rtfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index bfabde0..c198c43 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1056,7 +1056,7 @@ class Fits(Scatter):
         for key, val in self.defdict.items():
             # if parameter is intended to be fitted, assign a sympy-symbol
             if val[0] is True:
-                setdict[key] = sp.var(key)
+                setdict[key] = sp.Symbol(key)
 
             elif val[0] is False:
                 # treat parameters that are intended to be constants
@@ -1065,7 +1065,7 @@ class Fits(Scatter):
                     setdict[key] = val[1]
                 else:
                     # if value is provided as array, add it to fixed_dict
-                    setdict[key] = sp.var(key)
+                    setdict[key] = sp.Symbol(key)
         return setdict
 
     @property
-- 
2.43.0


From 4d8573b7ae6e0335a3715ee81b45d136e2297c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 013/106] fix: evaluation of components of a fit in linear
 units

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index c198c43..827f59c 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1771,7 +1771,8 @@ class Fits(Scatter):
 
         # calculate total backscatter-values
         if return_components is True:
-            model_calc = R.calc()
+            # broadcast the contributions to allow array-processing
+            model_calc = np.array(np.broadcast_arrays(*R.calc()))
         else:
             model_calc = R.calc()[0]
 
-- 
2.43.0


From 2f6e4e0a9cd02981af335cc412b88fbb704dcc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 014/106] fix: pass parameters to the interaction-coefficients
 independent of the order of the provided values

---
 rt1/rtfits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 827f59c..13aa31c 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1704,7 +1704,12 @@ class Fits(Scatter):
         }
 
         # set the param-dict to the newly generated dict
-        R.param_dict = strparam_fn
+        # (maintain the order of the existing parameters since the values are
+        # passed as positional arguments to the _fnevals functions!)
+        R.param_dict = {
+            **{key: strparam_fn[key] for key in R.param_dict if key in strparam_fn},
+            **strparam_fn,
+        }
 
         return R
 
-- 
2.43.0


From 3f4edd95c7d38ef32f9508380b206fe84aacad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 015/106] fix: parameters of linear-combinations defined via
 dictionaries

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 13aa31c..e8a894a 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2224,7 +2224,9 @@ class Fits(Scatter):
                 for val, initdict in props[f"{prefix}choices"]:
                     useval = checkval(val, val)
 
-                    choices.append([useval, self._init_V_SRF(initdict)])
+                    choice = self._init_V_SRF(initdict, setdict=setdict)
+                    free_symbols.update(choice.free_symbols)
+                    choices.append([useval, choice])
 
                 set_dict[f"{prefix}choices"] = choices
 
-- 
2.43.0


From dd8487d79c1a115f0bad6c015ae1fb96cf355b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 016/106] fix: chain-rule for parameters used in functional
 definitions of omega, tau and NormBRDF

---
 rt1/rtfits.py | 114 ++++++++++++++++++--------------------------------
 1 file changed, 41 insertions(+), 73 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index e8a894a..6a42741 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1844,24 +1844,47 @@ class Fits(Scatter):
         )
 
         # if tau, omega or NormBRDF have been provided in terms of symbols,
-        # remove the symbols that are intended to be fitted (that are also
-        # in param_dyn_dict) and replace them by 'omega', 'tau' and 'NormBRDF'
-        # so that calling R.jacobian will calculate the "outer" derivative
-        neworder = [o for o in order]
-        if len(self._tau_symb) != 0:
-            for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "tau"
-        if len(self._omega_symb) != 0:
-            for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "omega"
-        if len(self._N_symb) != 0:
-            for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "NormBRDF"
-
-        # calculate the jacobian based on neworder
-        # (evaluating only "outer" derivatives with respect to omega,
-        # tau and NormBRDF)
-        jac = R.jacobian(sig0=self.sig0, dB=self.dB, param_list=neworder)
+        # the "outer" derivatives (e.g. with respect to 'omega', 'tau' and
+        # 'NormBRDF') are multiplied with the "inner" derivatives, i.e.:
+        #   df/dx = df/dx_direct + df/dtau * dtau/dx + df/domega * domega/dx + ...
+        inner = {
+            "tau": (self._tau_symb, self._tau_diff_func),
+            "omega": (self._omega_symb, self._omega_diff_func),
+            "NormBRDF": (self._N_symb, self._N_diff_func),
+        }
+        outer_keys = {
+            key: [o for o, (symbs, _) in inner.items() if key in symbs] for key in order
+        }
+        for key, val in outer_keys.items():
+            # the parameter itself (if it is used to define V or SRF)
+            if len(val) == 0 or key in R.param_dict:
+                val.append(key)
+
+        # calculate the jacobian (evaluating only "outer" derivatives)
+        neworder = list(dict.fromkeys(chain(*outer_keys.values())))
+        outer = dict(
+            zip(
+                neworder,
+                R.jacobian(sig0=self.sig0, dB=self.dB, param_list=neworder),
+            )
+        )
+
+        if any(len(symbs) > 0 for symbs, _ in inner.values()):
+            # the values assigned to the individual observations
+            vals = {**self._assignvals(res_dict, interp_vals), **fixed_dict}
+
+        jac = []
+        for key in order:
+            jac_key = np.zeros(self.inc.shape)
+            for o in outer_keys[key]:
+                if o in inner and key in inner[o][0]:
+                    symbs, diff_func = inner[o]
+                    d_inner = diff_func[key](**{symb: vals[symb] for symb in symbs})
+                else:
+                    d_inner = 1.0
+                jac_key = jac_key + outer[o] * d_inner
+            jac.append(jac_key)
+
         # self.jacshape = jac[0].shape
         # generate a scipy.sparse matrix that represents the jacobian for all
         # the individual parameters according to jac_dyn_dict
@@ -1891,61 +1914,6 @@ class Fits(Scatter):
                 )
                 newjacdict[key] = m
 
-        # evaluate jacobians of the functional representations of tau
-        # and add them to newjacdict
-        for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-            # generate a function that evaluates the 'inner' derivative, i.e.:
-            # df/dx = df/dtau * dtau/dx = df/dtau * d_inner
-            # evaluate the inner derivative
-            df_dx = self._tau_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._tau_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                # flatten the array (except if it is a scalar)
-                # happens for example when   f = 5*x   ->   df/dx = 5
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                # calculate "outer" * "inner" derivative for sparse matrices
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for omega
-        for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._omega_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._omega_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for NormBRDF
-        for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._N_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._N_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
         if hasattr(self, "intermediate_results"):
             self.intermediate_results["jacobian"] += [newjacdict]
 
-- 
2.43.0


From 267c406159a42ee6f409041d5ac3954aff63b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 017/106] fix: incorporate data-weights in the jacobian used to
 fit the data

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 6a42741..03a8f4d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1883,7 +1883,8 @@ class Fits(Scatter):
                 else:
                     d_inner = 1.0
                 jac_key = jac_key + outer[o] * d_inner
-            jac.append(jac_key)
+            # incorporate data-weighting (same as for the residuals)
+            jac.append(self.data_weights * jac_key)
 
         # self.jacshape = jac[0].shape
         # generate a scipy.sparse matrix that represents the jacobian for all
-- 
2.43.0


From 5b9f63336e57a4b36177be715b67eb738ee1e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 018/106] fix: mean start-values for parameter-groups with a
 different number of observations

---
 rt1/rtfits.py | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 03a8f4d..e30c41d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1115,37 +1115,14 @@ class Fits(Scatter):
                         f'you must provide a column {key + "_start"} in '
                         + 'the dataset if you want to use "auxiliary" start-vals'
                     )
-                    meanstartvals = list(
-                        groupby_unsorted(
-                            zip(self._groupindex, self.dataset[key + "_start"]),
-                            key=itemgetter(0),
-                            get=itemgetter(1),
-                        ).values()
+                    # evaluate the mean start-value for each parameter-group
+                    meanstartvals = (
+                        self.dataset[key + "_start"]
+                        .groupby(np.asarray(self.param_dyn_dict[key]), sort=False)
+                        .mean()
+                        .to_numpy()
                     )
 
-                    # evaluate the mean start-value for each group
-                    if val[2] == "index":
-                        # avoid grouping with _param_assigns since anyway
-                        # only a single value is given for each group
-                        meanstartvals = np.mean(meanstartvals, axis=1)
-                    else:
-                        # get a rectangularized list of indices for each
-                        # parameter (instead of using a loop which can be VERY
-                        # slow for a large number of parameters)
-                        st, sm = rectangularize(
-                            self._param_assigns[key].values(), return_mask=True
-                        )
-                        # average over each group in the dataset
-                        meanstartvals = np.ma.mean(
-                            rectangularize(meanstartvals, return_masked=True),
-                            axis=1,
-                        )
-                        # assign individual values to each parameter-group
-                        meanstartvals = np.ma.mean(
-                            np.ma.masked_array(np.take(meanstartvals, st), sm),
-                            axis=1,
-                        ).compressed()
-
                     startvaldict[key] = meanstartvals
                 else:
                     startvaldict[key] = val[1]
-- 
2.43.0


From 7b6f9f64de3c4a9bb980ac6728b1ac4cbe479b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 019/106] fix: jacobian of parameter-groups that re-appear in
 the dataset

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index e30c41d..e0b8c9c 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1886,8 +1886,10 @@ class Fits(Scatter):
                 data = np.fromiter(chain(*jac[i]), dtype=float, count=jac_size)
                 row_ind, col_ind = self._jac_assign_rule[key]
                 # generate a sparse matrix
+                # (sort data according to the assignments since parameter-groups
+                # might re-appear later in the dataset)
                 m = csr_matrix(
-                    (data, (row_ind, col_ind)),
+                    (data[col_ind], (row_ind, col_ind)),
                     shape=(max(row_ind) + 1, max(col_ind) + 1),
                 )
                 newjacdict[key] = m
-- 
2.43.0


From eda9c0bb6322bdfc5cf91653beb5e8d51ab71eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 020/106] fix: re-evaluate stored fn-coefficients if the
 definition of V and SRF changes

---
 rt1/rtfits.py | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index e0b8c9c..f36438c 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -412,6 +412,10 @@ class Fits(Scatter):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
 
+        # explicitly provided functions are used irrespective of the definition
+        if attr == "_fnevals_input":
+            self.__dict__.pop("_fnevals_auto_key", None)
+
         super().__setattr__(attr, value)
 
     @property
@@ -1328,17 +1332,40 @@ class Fits(Scatter):
             verbosity=self.verbose,
         )
 
-        if self.int_Q is True and self._fnevals_input is None:
-            self._fnevals_input = R._fnevals
-        elif self.int_Q is True:
-            # store _fnevals functions in case they have not been provided as
-            # input-arguments explicitly to avoid recalculation for each step
-            R._fnevals_input = self._fnevals_input
-            # set fn_input to any value except None to avoid re-calculation
-            R.fn_input = 1
+        if self.int_Q is True:
+            key = self._fnevals_definition
+            # ignore automatically stored functions if they have been evaluated
+            # for a different definition of V and SRF
+            auto_key = getattr(self, "_fnevals_auto_key", None)
+            if self._fnevals_input is None or (
+                auto_key is not None and auto_key != key
+            ):
+                self._fnevals_input = R._fnevals
+                self._fnevals_auto_key = key
+            else:
+                # store _fnevals functions in case they have not been provided as
+                # input-arguments explicitly to avoid recalculation for each step
+                R._fnevals_input = self._fnevals_input
+                # set fn_input to any value except None to avoid re-calculation
+                R.fn_input = 1
 
         return R
 
+    @property
+    def _fnevals_definition(self):
+        """the definitions that are required to evaluate the fn-coefficients"""
+        if callable(self.set_V_SRF):
+            V_SRF = self.set_V_SRF
+        else:
+            V_SRF = repr(self.set_V_SRF)
+
+        return (
+            V_SRF,
+            repr(self._setdict),
+            sorted(self._param_R_dict),
+            self.lambda_backend,
+        )
+
     def _get_V_SRF_symbs(self, V_SRF, prop):
         """the symbols used to define tau, omega and NormBRDF of V and SRF"""
         try:
-- 
2.43.0


From 89e375a64f8d45513d2e2f705efc846a38602062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 021/106] fix: do not inject the symbols of the fn-coefficients
 into the module namespace

---
 rt1/rt1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 13b7945..b45701d 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -324,7 +324,7 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
+            variables = sp.symbols(
                 ("theta_0", "phi_0", "theta_ex", "phi_ex")
                 + tuple(map(str, self.param_dict.keys()))
             )
-- 
2.43.0


From af4bbdf06506a320780dfa9eacd87afdf76cae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 022/106] fix: forward share_fnevals and share_auxdata in
 Fits.reinit_object

---
 rt1/rtfits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index f36438c..457aa14 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2805,7 +2805,12 @@ class Fits(Scatter):
             a new Fits-object.
 
         """
-        return self._reinit_object(self, **kwargs)
+        return self._reinit_object(
+            self,
+            share_fnevals=share_fnevals,
+            share_auxdata=share_auxdata,
+            **kwargs,
+        )
 
     def _get_res_dict_df(self, ID=None):
         """
-- 
2.43.0


From 09309dc957a0f173294631fad294461b50b6e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 023/106] fix: a failed mini-dump must not affect subsequent
 pickles

---
 rt1/rtfits.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 457aa14..81192c9 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2409,8 +2409,12 @@ class Fits(Scatter):
             except AttributeError:
                 pass
 
-        with open(path, "wb") as file:
-            cloudpickle.dump(self, file)
+        try:
+            with open(path, "wb") as file:
+                cloudpickle.dump(self, file)
+        finally:
+            # make sure that failed dumps do not affect subsequent pickles
+            self.__dict__.pop("_rt1_dump_mini", None)
 
     def calc(self, param, inc, return_components=True, fixed_param=None):
         """
@@ -3373,5 +3377,10 @@ class MultiFits:
                 except AttributeError:
                     pass
 
-        with open(path, "wb") as file:
-            cloudpickle.dump(self, file)
+        try:
+            with open(path, "wb") as file:
+                cloudpickle.dump(self, file)
+        finally:
+            # make sure that failed dumps do not affect subsequent pickles
+            for name, fit in self.accessor.config_fits.items():
+                fit.__dict__.pop("_rt1_dump_mini", None)
-- 
2.43.0


From 02730c7c6128b48852474cf943d56e23a8d57c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 024/106] fix: initialization of scattering-functions from
 init_dict with unspecified values

---
 rt1/rtfits.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 81192c9..e4ef1c6 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2161,17 +2161,17 @@ class Fits(Scatter):
         free_symbols = set()
 
         def checkval(key, val):
+            # check if val is a number (or not specified), if yes use it directly
+            if val is None or isinstance(val, (int, float, np.ndarray)):
+                useval = val
             # check if val is directly provided in setdict, if yes use it
             # (e.g. this means the key is simply another name for a parameter
             # and not an  equation)
-            if val in setdict:
+            elif val in setdict:
                 useval = setdict[val]
                 if key not in ignore_keys and isinstance(setdict[val], sp.Symbol):
                     free_symbols.add(setdict[val])
 
-            # check if val is a number, if yes use it directly
-            elif isinstance(val, (int, float, np.ndarray)):
-                useval = val
             # in any other case, try to sympify the provided value
             # to determine the free variables of the resulting equation and
             # then replace them by the corresponding values in setdict
-- 
2.43.0


From c923df3c160cd7ac3ab875bb3b6a611be0120f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 025/106] fix: conversion of set_V_SRF functions with
 expressions to dictionaries

---
 rt1/rtfits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index e4ef1c6..62d1ff1 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2758,8 +2758,10 @@ class Fits(Scatter):
             return self.set_V_SRF
         else:
             try:
-                # init V and SRF with string-variables
-                V, SRF = self.set_V_SRF(**dict(zip(*[self.defdict._variables] * 2)))
+                # init V and SRF with symbolic variables
+                V, SRF = self.set_V_SRF(
+                    **{key: sp.Symbol(key) for key in self.defdict._variables}
+                )
                 return dict(V_props=V.init_dict, SRF_props=SRF.init_dict)
             except TypeError:
                 log.error("Not all variables are specified in defdict!", exc_info=True)
-- 
2.43.0


From d4c730272c18bb6f827be4ac220f244cbde9c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 026/106] fix: preserve the fit-output of mini-dumps if they
 are dumped again

---
 rt1/rtfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 62d1ff1..0a4ff19 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -391,7 +391,10 @@ class Fits(Scatter):
 
             # save only a minimal subset of the fit-output
             fit_props = dict()
-            if hasattr(self, "fit_output") and self.fit_output is not None:
+            if type(getattr(self, "fit_output", None)) is dict:
+                # (the fit-output of a loaded mini-dump is already a subset)
+                fit_props.update(self.fit_output)
+            elif hasattr(self, "fit_output") and self.fit_output is not None:
                 for key in ["success", "status", "optimality"]:
                     try:
                         fit_props[f"fit_{key}"] = getattr(self.fit_output, key)
-- 
2.43.0


From c00cd9152abf6d6658823eb11de5dff8d2ebfdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 027/106] fix: do not duplicate the names of overwritten
 configs in MultiFits

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 0a4ff19..0b50891 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3358,7 +3358,8 @@ class MultiFits:
         assert name not in set(
             self.__dict__
         ), f"you can not use {name} as the name for a configuration!"
-        self.config_names.append(name)
+        if name not in self.config_names:
+            self.config_names.append(name)
 
         fit_object.dataset = self.dataset
         fit_object.aux_data = self.aux_data
-- 
2.43.0


From a84a7d0834ed40fa1a981a7128adc8b5b648da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 028/106] fix: positional arguments of functions called via
 MultiFits.accessor

---
 rt1/rtfits.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 0b50891..0934b18 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3062,7 +3062,7 @@ class _MultiAccessors:
                     self,
                     prop,
                     update_wrapper(
-                        partial(self._applyit, prop=prop), getattr(Fits(), prop)
+                        partial(self._applyit, prop), getattr(Fits(), prop)
                     ),
                 )
             elif isinstance(getattr(Fits, prop), property):
@@ -3096,16 +3096,12 @@ class _MultiAccessors:
 
         @wraps(getattr(Fits, prop))
         def cb(*args, **kwargs):
-            for i, arg in enumerate(args):
-                # update args and kwargs with new provided ones in case the function is
-                # called explicitly
-                if i < len(start_args):
-                    start_args[i] = arg
-                else:
-                    start_args.append(arg)
-            start_kwargs.update(kwargs)
+            # update args and kwargs with new provided ones in case the function is
+            # called explicitly
+            use_args = (*args, *start_args[len(args) :])
+            use_kwargs = {**start_kwargs, **kwargs}
 
-            return methodcaller(prop, *start_args, **start_kwargs)(val)
+            return methodcaller(prop, *use_args, **use_kwargs)(val)
 
         return cb
 
-- 
2.43.0


From a19fa4cec347331217af58826ea2f8d217f6c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 029/106] fix: do not print the names of properties accessed
 via MultiFits.accessor

---
 rt1/rtfits.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 0934b18..d1b056f 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3085,7 +3085,6 @@ class _MultiAccessors:
 
     def _getit(self, prop):
         def _get_all(self):
-            print(prop)
             return {name: getattr(fit, prop) for name, fit in self.config_fits.items()}
 
         return _get_all
-- 
2.43.0


From d634ec458376fd38953fb289e47869e23f6da6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 030/106] fix: clear the caches of all configs in
 MultiFits.set_dataset

---
 rt1/rtfits.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index d1b056f..6c23944 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3269,9 +3269,8 @@ class MultiFits:
     def set_dataset(self, dataset):
         self._dataset = Fits._check_monotonic_dataset_index(dataset)
         for name in self.config_names:
-            # set "_dataset" directly instead of "dataset" to avoid checking the
-            # index-sorting twice in the dataset-setter
-            getattr(self.configs, name)._dataset = self._dataset
+            # (use the dataset-setter to make sure that all caches are cleared)
+            getattr(self.configs, name).dataset = self._dataset
 
     def set_aux_data(self, aux_data):
         self._aux_data = aux_data
-- 
2.43.0


From 2ff55cc1f2364c323ea3d706e0c6a740761f6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:30 +0000
Subject: [PATCH 031/106] fix: conversion of defdicts to nested dictionaries

---
 rt1/_containers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 58d0c37..213c83d 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -386,10 +386,10 @@ class _RT1_variable:
         """
 
         return dict(
-            fitQ=self.fitQ.value,
-            val=self.val.value,
-            freq=self.freq.value,
-            minval=self.minval.value,
-            maxval=self.maxval.value,
-            interpQ=self.interpQ.value,
+            fitQ=self.fitQ,
+            val=self.val,
+            freq=self.freq,
+            minval=self.minval,
+            maxval=self.maxval,
+            interpQ=self.interpQ,
         )
-- 
2.43.0


From c0f6ee61f26fc718efc366cc2ccdb609d7e91484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:30 +0000
Subject: [PATCH 032/106] fix: assignment of (existing) variables as attributes
 of defdicts

---
 rt1/_containers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 213c83d..a356dba 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -24,15 +24,20 @@ class _RT1_defdict:
         return getattr(self.var, key)
 
     def __setattr__(self, key, val):
-        if not key.startswith("_") and key not in self._variables:
+        if not key.startswith("_"):
             # set the value of the corresponding property on item assignment
             if isinstance(val, dict):
                 self.add_variable(key, **val)
             elif isinstance(val, list):
-                self.add_variable(key, *val)
+                if len(val) > 3 and isinstance(val[3], (list, tuple)):
+                    # [fitQ, val, freq, ([minval], [maxval]), interpQ]
+                    [minval], [maxval] = val[3]
+                    self.add_variable(key, *val[:3], minval, maxval, *val[4:])
+                else:
+                    self.add_variable(key, *val)
             else:
                 raise AttributeError(
-                    "RT1 defdicts only support setting new variables"
+                    "RT1 defdicts only support setting variables"
                     + " via lists or dicts!"
                 )
         else:
-- 
2.43.0


From 9693b48220256faaf9d00765e90a9a5346e99960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 033/106] fix: parse empty lists in the PROCESS_SPECS of
 config-files

---
 rt1/rtparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index e066dc2..d281695 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -643,8 +643,10 @@ class RT1_configparser(object):
                         def conffunc(x):
                             return x
 
+                    items = val.strip()[1:-1]
                     process_specs[listkey] = [
-                        conffunc(i.strip()) for i in val.strip()[1:-1].split(",")
+                        conffunc(i.strip())
+                        for i in (items.split(",") if items.strip() else [])
                     ]
 
                 else:
-- 
2.43.0


From 4480d09771bddea855cc5c1d886bda250d30a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 034/106] fix: parse the exponent of CosineLobe functions in
 config-files as integer

---
 rt1/rtparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index d281695..f2671cb 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -254,7 +254,7 @@ class RT1_configparser(object):
         parsed_dict = dict()
         for key in inp:
             val = None
-            if key == "ncoefs" or key[1:] == "__ncoefs":
+            if key in ["ncoefs", "i"] or key[1:] in ["__ncoefs", "__i"]:
                 val = inp.getint(key)
             elif key == "a" or key[1:] == "__a":
                 val = inp[key]
-- 
2.43.0


From 28dd00356c80ec11dd9fc2ea65fc29e59ae99836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 035/106] fix: parse the least_squares keyword f_scale in
 config-files as float

---
 rt1/rtparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index f2671cb..b921989 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -149,7 +149,7 @@ class RT1_configparser(object):
         self.lsq_parse_props = dict(
             section="least_squares_kwargs",
             int_keys=["verbose", "max_nfev"],
-            float_keys=["ftol", "gtol", "xtol"],
+            float_keys=["ftol", "gtol", "xtol", "f_scale"],
         )
 
         self.fitargs_parse_props = dict(
-- 
2.43.0


From fd6aae1b1948578a2417dcc65cbed3cc20b04e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 036/106] fix: override values of linear-combinations in
 multi-config files

---
 rt1/rtparse.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index b921989..58ef55c 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -248,11 +248,14 @@ class RT1_configparser(object):
             parsed_dict[key] = val
         return parsed_dict
 
-    def _parse_V_SRF(self, section):
-        inp = self.config[section]
+    def _parse_V_SRF(self, *sections):
+        # values of subsequent sections override the values of previous sections
+        inputs = dict()
+        for section in sections:
+            inputs.update(dict.fromkeys(self.config[section], self.config[section]))
 
         parsed_dict = dict()
-        for key in inp:
+        for key, inp in inputs.items():
             val = None
             if key in ["ncoefs", "i"] or key[1:] in ["__ncoefs", "__i"]:
                 val = inp.getint(key)
@@ -390,14 +393,14 @@ class RT1_configparser(object):
 
             # update RT1_V
             if f"#config {config} RT1_V" in self.config:
-                V_props = self._parse_V_SRF("RT1_V")
-                V_props.update(self._parse_V_SRF(f"#config {config} RT1_V"))
-                set_V_SRF["V_props"] = V_props
+                set_V_SRF["V_props"] = self._parse_V_SRF(
+                    "RT1_V", f"#config {config} RT1_V"
+                )
             # update RT1_SRF
             if f"#config {config} RT1_SRF" in self.config:
-                SRF_props = self._parse_V_SRF("RT1_SRF")
-                SRF_props.update(self._parse_V_SRF(f"#config {config} RT1_SRF"))
-                set_V_SRF["SRF_props"] = SRF_props
+                set_V_SRF["SRF_props"] = self._parse_V_SRF(
+                    "RT1_SRF", f"#config {config} RT1_SRF"
+                )
 
         return dict(
             lsq_kwargs=lsq_kwargs,
-- 
2.43.0


From 0387fc4f95d09049fbf9349e012096c36b964f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 037/106] fix: return the ID of fits loaded from the HDF-store
 in RTresults.load_fit

---
 rt1/rtresults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 91defbe..f57235d 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -364,14 +364,16 @@ class RTresults(object):
                         filepath = self._dump_path / (ID)
 
                 fit = load(filepath)
+                fit_ID = filepath.stem
             else:
                 assert (
                     isinstance(ID, (str, int)) or ID is None
                 ), "please provide either a string, int or 'None' as ID"
                 fit = self._load_fit_from_HDF(ID)
+                fit_ID = fit.ID
 
             if return_ID is True:
-                return (fit, filepath.stem)
+                return (fit, fit_ID)
             else:
                 return fit
 
-- 
2.43.0


From 52b478af6c0ead69001b14851471fb7519d70215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 038/106] fix: support save_res_df in the HDF-export of
 MultiFits

---
 rt1/rtfits.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 6c23944..d27c288 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3210,11 +3210,17 @@ class MultiFits:
         return args
 
     def _get_fit_to_hdf_dict(
-        self, save_results=True, save_data=True, save_auxdata=True, ID=None
+        self,
+        save_results=True,
+        save_res_df=True,
+        save_data=True,
+        save_auxdata=True,
+        ID=None,
     ):
         return Fits._get_fit_to_hdf_dict(
             self,
             save_results=save_results,
+            save_res_df=save_res_df,
             save_data=save_data,
             save_auxdata=save_auxdata,
             ID=ID,
-- 
2.43.0


From f05154ff068513384777a176855bfc08fab60e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 039/106] fix: store manual dynamics in _get_fit_to_hdf_dict if
 save_data is False

---
 rt1/rtfits.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index d27c288..8295a43 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2955,18 +2955,18 @@ class Fits(Scatter):
             elif save_results is True:
                 # store only data that is required to re-create the results
                 if isinstance(self, MultiFits):
-                    dynkeys = set(
-                        key + "_dyn"
-                        for cfg, defdict in self.apply(lambda fit: self.defdict)
-                        for key, val in defdict.items()
-                        if val[0] and val[2] == "manual"
-                    )
+                    fits = list(self.accessor.config_fits.values())
                 else:
-                    dynkeys = set(
+                    fits = [self]
+                dynkeys = list(
+                    dict.fromkeys(
                         key + "_dyn"
-                        for key, val in self.defdict.items()
-                        if val[0] and val[2] == "manual"
+                        for fit in fits
+                        for key, val in fit.defdict.items()
+                        if val[0]
+                        and "manual" in map(str.strip, str(val[2]).split("+"))
                     )
+                )
                 df = getattr(self, "dataset", None)[dynkeys]
 
                 hf["dataset"] = Fits._prepend_ID_to_index(df, ID)
-- 
2.43.0


From 9dd65257032cf927cfadec6084b7a48ca082666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 040/106] fix: access of constant keys in
 RT1_processor.get_data

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index bcd5109..a43769c 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -783,6 +783,6 @@ class RT1_processor(object):
                     + "\n    ".join(f"{key}: {val}" for key, val in cfg_keys.items())
                 )
 
-            usekey = f"{config}/{key}"
+            usekey = key if config is None else f"{config}/{key}"
             res = store.select(usekey, **kwargs)
         return res
-- 
2.43.0


From ecd73f0baae13ccc6c866612cb5d24dd02a7b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 041/106] fix: ignore unused index-levels in iloc_level

---
 rt1/rtresults.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index f57235d..e4b75b3 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -966,6 +966,11 @@ class _subselector(object):
 def _sanitize_index(df, idx):
     # convert inputs to desired indexers
     # (so that we can use integers and None directly)
+    # (ignore values that are not present in the index, e.g. unused levels)
+    levels = [
+        lev[sorted(set(codes[codes >= 0]))]
+        for lev, codes in zip(df.index.levels, df.index.codes)
+    ]
     try:
         idx = list(idx)
     except TypeError:
@@ -973,11 +978,11 @@ def _sanitize_index(df, idx):
 
     for level, i in enumerate(idx):
         if i is None:
-            yield df.index.levels[level][slice(None)]
+            yield levels[level][slice(None)]
         elif isinstance(i, int):
-            yield df.index.levels[level][slice(i, i + 1)]
+            yield levels[level][slice(i, i + 1)]
         else:
-            yield df.index.levels[level][i]
+            yield levels[level][i]
 
 
 def iloc_level(df, idx):
-- 
2.43.0


From 87969c0fc6a2c70f17c590e0f71f8b3786e84ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 042/106] fix: selection of IDs in HDFaccessor._get_nids_iter

---
 rt1/rtresults.py | 92 +++++++++++++++++++-----------------------------
 1 file changed, 36 insertions(+), 56 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index e4b75b3..59b7f32 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -826,72 +826,52 @@ class HDFaccessor(object):
             the retrieved DataFrame.
 
         """
-        nids = min(len(self.IDs), nids)
-
         assert (
             key in self.store
         ), f"invalid key provided, use one of {self.store.keys()}"
 
-        if read_chunksize is None:
-            s = self.store.get_storer(key)
-
-            if isinstance(nids, int):
-                if s.is_multi_index:
-                    read_chunksize = min(10, nids)
-                else:
-                    read_chunksize = nids
-            elif isinstance(nids, str):
-                read_chunksize = 1
-            else:
-                read_chunksize = len(nids)
+        if isinstance(nids, str):
+            nids = [nids]
 
         if isinstance(nids, int):
-            data_gen = self._get_vals(
-                key=key, chunksize=read_chunksize, start=start, **kwargs
-            )
-        elif isinstance(nids, str):
-            nids = 1
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=[nids], **kwargs
-            )
+            nids = min(len(self.IDs), nids)
+            if start:
+                assert start < len(self.IDs), (
+                    f"start={start} is bigger than the number"
+                    + f" of IDs ({len(self.IDs)})"
+                )
+            use_ids = self.IDs.index[slice(start, None)]
         else:
-            use_ids = nids
+            use_ids = [self._ID_to_IDnum(i) if isinstance(i, str) else i for i in nids]
             nids = len(use_ids)
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=use_ids, **kwargs
-            )
 
-        ret = []
-        for i, d in enumerate(data_gen):
-            ret.append(d)
-
-            if (i + 1) % (nids // read_chunksize) == 0:
-                if nids % read_chunksize != 0:
-                    data = next(data_gen)
-                    ret.append(iloc_level(data, slice(nids % 10)))
-
-                data = pd.concat(ret)
-                if self.set_ID is True:
-                    if isinstance(data.index, pd.MultiIndex):
-                        data.index = data.index.set_levels(
-                            self.IDs.loc[data.index.levels[0]].ID, level=0
-                        )
-                    else:
-                        data["ID"] = self.IDs.loc[data.index]
-                        data = data.set_index("ID")
-                yield data
-
-                if nids % read_chunksize != 0:
-                    ret = [iloc_level(data, slice(nids % 10, None))]
+        if read_chunksize is None:
+            if self.store.get_storer(key).is_multi_index:
+                read_chunksize = min(10, nids)
+            else:
+                read_chunksize = nids
+
+        nread = 0
+        for ids in self._chunks(use_ids, nids):
+            ret = []
+            for data in self._get_vals_with_IDs(
+                key=key, chunksize=read_chunksize, use_ids=ids, **kwargs
+            ):
+                ret.append(data)
+                if print_progress:
+                    nread += read_chunksize
+                    print("reading", nread)
+
+            data = pd.concat(ret)
+            if self.set_ID is True:
+                if isinstance(data.index, pd.MultiIndex):
+                    data.index = data.index.set_levels(
+                        self.IDs.loc[data.index.levels[0]].ID, level=0
+                    )
                 else:
-                    ret = []
-
-            if print_progress:
-                print("reading", (i + 1) * read_chunksize)
-
-        if len(ret) > 0:
-            # make sure to return the last results (maybe less than the read-chunksize)
-            yield pd.concat(ret)
+                    data["ID"] = self.IDs.loc[data.index]
+                    data = data.set_index("ID")
+            yield data
 
 
 class _data_container(object):
-- 
2.43.0


From 0716c022e5ad5a81246935e62f617a1e493473b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 043/106] fix: index-creation for selected levels if
 single-index datasets are present

---
 rt1/_rtprocess_writer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index a43769c..0908302 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -729,10 +729,14 @@ class RT1_processor(object):
                         use_levels = s.levels
                     except TypeError:
                         # else use whatever the level-identification available
-                        use_levels = s.levels
+                        use_levels = [s.levels]
 
                 else:
-                    use_levels = list(set(idx_levels) & set(s_levels))
+                    try:
+                        use_levels = list(set(idx_levels) & set(s_levels))
+                    except TypeError:
+                        # single-index datasets have no named levels
+                        use_levels = []
 
                 if len(use_levels) > 0:
                     log.progress(f'creating index-levels "{use_levels}" for "{key}"')
-- 
2.43.0


From b3b2fc4b3f4884a20b32a752e59c58df2d5464f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 044/106] fix: names of constant keys in the HDF-store

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 0908302..620f716 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -263,7 +263,7 @@ class RT1_processor(object):
 
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
-                            results[cfg.lstrip("const__")].append(cfg_results)
+                            results[cfg[len("const__") :]].append(cfg_results)
                         elif isinstance(cfg_results, dict):
                             for cfg_key, cfg_val in cfg_results.items():
                                 results[cfg + "/" + cfg_key].append(cfg_val)
-- 
2.43.0


From 06282045ea079ef0973959bd4f3046f568e07798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 045/106] fix: rectangularize pandas-Series with
 integer-indexes

---
 rt1/general_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index d8fd94a..8f79f0c 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -79,7 +79,7 @@ def rectangularize(array, return_mask=False, dim=None, return_masked=False, dtyp
         for i, s in enumerate(array):
             le = len(s)
             newarray[i, :le] = s
-            newarray[i, le:] = s[-1]
+            newarray[i, le:] = newarray[i, le - 1]
             mask[i, le:] = True
 
         if return_masked is True:
@@ -91,7 +91,7 @@ def rectangularize(array, return_mask=False, dim=None, return_masked=False, dtyp
         for i, s in enumerate(array):
             le = len(s)
             newarray[i, :le] = s
-            newarray[i, le:] = s[-1]
+            newarray[i, le:] = newarray[i, le - 1]
         return newarray
 
 
-- 
2.43.0


From 66e64fdb83035bea768589f78aaf768de92f6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 046/106] fix: average of lists of datetime-objects in
 meandatetime

---
 rt1/general_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index 8f79f0c..cb8e3c7 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -113,8 +113,8 @@ def meandatetime(datetimes):
         return datetimes[0]
 
     x = datetimes
-    deltas = (x[0] - x[1:]) / len(x)
-    meandelta = sum(deltas)
+    deltas = [(x[0] - i) / len(x) for i in x[1:]]
+    meandelta = sum(deltas[1:], deltas[0])
     meandate = x[0] - meandelta
     return meandate
 
-- 
2.43.0


From e95f9c903a47b104087a88f41417e160b0617e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 047/106] fix: interpolation of lists and arrays in
 interpolate_to_index

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index cb8e3c7..0155d9d 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -346,7 +346,7 @@ def interpolate_to_index(data, index, data_index=None, **interp1d_kwargs):
             'you must provide "data_index"' + "if data is provided as list or array"
         )
 
-        f = interp1d(data_index.to_julian_date(), data.values, **kwargs)
+        f = interp1d(data_index.to_julian_date(), np.asarray(data), **kwargs)
         x = f(index.to_julian_date())
         return Series(x, index)
 
-- 
2.43.0


From 9fae4c832d1034dedfcfac03bc5d0982c0e3a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 048/106] fix: start at 0 in find_missing if the provided list
 is empty

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index 0155d9d..b673b3c 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -384,7 +384,7 @@ def find_missing(lst=[], N=None):
     """
     start = 0
     # get the max. ID defined in "lst"
-    maxID = max(lst) if len(lst) > 0 else 0
+    maxID = max(lst) if len(lst) > 0 else -1
 
     if len(lst) > 0:
         # check for IDs that can be used to "fill-up" the provided list
-- 
2.43.0


From e8d3676af8224dd4b036de157ce0d79059638b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 049/106] fix: evaluate metrics on the matching observations

---
 rt1/rtmetrics.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index d95fed0..f90ecd6 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -10,7 +10,6 @@ from .general_functions import groupby_unsorted
 from . import log
 
 import numpy as np
-import pandas as pd
 import matplotlib.pyplot as plt
 
 
@@ -180,25 +179,24 @@ class _RTmetrics1(object):
     @property
     @lru_cache()
     def _unify_idx_data(self):
-        if len(self.d1) != len(self.d2):
+        d1, d2 = self.d1, self.d2
+
+        if not d1.index.equals(d2.index):
             log.warning(
                 f'index of "{self._d1}" and "{self._d2}" is not '
-                + "the same! -> a concatenation is performed!"
+                + "the same! -> only matching values are used!"
             )
 
-            # try to unify the index
-            df = pd.concat([self.d1, self.d2], axis=1, copy=False)
-            d1 = df[self._d1].dropna()
-            d2 = df[self._d2].dropna()
+            # assign the values of the dataset with the unique index
+            # (the index of a dataset can contain the same date more than once)
+            if d1.index.is_unique:
+                d1 = d1.reindex(d2.index)
+            else:
+                d2 = d2.reindex(d1.index)
 
-            assert len(d1) == len(d2), (
-                "the length of the 2 datasets is "
-                + "not the same!"
-                + f"({len(self.d1)} != {len(d2)})"
-            )
-            return d1, d2
-        else:
-            return self.d1, self.d2
+        # use only values that are available in both datasets
+        valid = d1.notna().to_numpy() & d2.notna().to_numpy()
+        return d1[valid], d2[valid]
 
     @property
     def pearson(self):
-- 
2.43.0


From ec146c78694a9fc89c2f059b6a12948649e5baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 050/106] fix: assignment of grouped model-results to the
 observations in metrics

---
 rt1/rtmetrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index f90ecd6..94a2e10 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -157,10 +157,11 @@ class _RTmetrics1(object):
             return self.auxdat[key]
         elif source == "dataset":
             return self.fit.dataset[key]
-        elif source == "calc_model" and key == "tot":
-            return self.fit.calc_model(return_components=False)[key]
         elif source == "calc_model":
-            return self.fit.calc_model(return_components=True)[key]
+            res = self.fit.calc_model(return_components=(key != "tot"))[key]
+            # the results are sorted with respect to the fit-groups
+            # -> use the same order as in the dataset
+            return res.iloc[np.argsort(self.fit._idx_assigns[~self.fit.mask])]
         elif source == "res_df":
             return self.fit.res_df[key]
 
-- 
2.43.0


From 25a8129d54b115bb7eed36ff3370c275182a5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 051/106] fix: use lists to select exported model-contributions
 and parameters

---
 rt1/rtprocess.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 81da933..e21b60e 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1488,8 +1488,12 @@ class RTprocess(object):
             metrics = dict()
 
         # ----- separate model-keys from the provided parameters
-        model_keys = set(parameters) & set(["tot", "surf", "vol", "inter"])
-        parameters = set(parameters) ^ model_keys
+        model_keys = [
+            key
+            for key in ["tot", "surf", "vol", "inter"]
+            if key in parameters and key not in (export_functions or {})
+        ]
+        parameters = [key for key in parameters if key not in model_keys]
 
         # ----- initialize a RTresults object for easy access to the list of dump-files
         # don't use "self.dumppath" since it requires a call to setup() !
@@ -1616,13 +1620,17 @@ class RTprocess(object):
                     val = func(fit)
                     if isinstance(val, (int, float, np.number)):
                         staticlayers[key] = val
-                        parameters.remove(key)
                     else:
                         auxdata[key] = val
 
         ret = RTprocess._postprocess_getparams(
             fit=fit,
-            saveparams=set(parameters) ^ set(auxdata) ^ set(model_keys),
+            # (don't change "parameters" since it is used for all fits!)
+            saveparams=[
+                key
+                for key in parameters
+                if key not in auxdata and key not in staticlayers
+            ],
             xindex=("ID", fit._RT1_ID_num),
             auxdata=pd.DataFrame(auxdata),
             sig_to_dB=sig_to_dB,
-- 
2.43.0


From 28a567ad8a49a5bb1054763a36e5e2f08c98ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 052/106] fix: skip exported model-contributions that are not
 available

---
 rt1/rtprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index e21b60e..e13216c 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1612,7 +1612,9 @@ class RTprocess(object):
 
         auxdata, staticlayers = dict(), dict()
         if model_keys:
-            auxdata = fit.calc_model(return_components=True)[model_keys]
+            auxdata = fit.calc_model(return_components=True)
+            # (interactions are only available if int_Q is True)
+            auxdata = auxdata[[key for key in model_keys if key in auxdata]]
 
         if export_functions:
             for key, func in export_functions.items():
-- 
2.43.0


From d3eaca019765a1f358754d57ae5e75558fc5faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 053/106] fix: unit-conversions of exported datasets

---
 rt1/rtprocess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index e13216c..514f4c0 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1546,6 +1546,8 @@ class RTprocess(object):
             metrics=metrics,
             export_functions=export_functions,
             model_keys=model_keys,
+            sig_to_dB=sig_to_dB,
+            inc_to_degree=inc_to_degree,
             _fnevals_input=fn_evals,
         )
 
@@ -1615,6 +1617,8 @@ class RTprocess(object):
             auxdata = fit.calc_model(return_components=True)
             # (interactions are only available if int_Q is True)
             auxdata = auxdata[[key for key in model_keys if key in auxdata]]
+            if sig_to_dB and fit.dB is False:
+                auxdata = 10.0 * np.log10(auxdata)
 
         if export_functions:
             for key, func in export_functions.items():
-- 
2.43.0


From 76a44075e9063a5e7a74026f78de2223db6f2edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 054/106] fix: export of constant parameters

---
 rt1/rtprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 514f4c0..874b9ea 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1740,7 +1740,7 @@ class RTprocess(object):
                 elif key in defs["fitted_const"]:
                     staticlayers[key] = fit.res_dict[key][0]
                 elif key in defs["constant"]:
-                    staticlayers[key] = fit.defdict[key].val.value
+                    staticlayers[key] = fit.defdict[key][1]
                 elif key in defs["auxiliary"]:
                     usedfs.append(fit.dataset[key])
             elif key in fit.dataset:
-- 
2.43.0


From 5b496f1864b9e5e4f2ab8c271414797a498f8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 055/106] fix: export of datasets with repeated dates and
 DataFrames

---
 rt1/rtprocess.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 874b9ea..f09c884 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1617,8 +1617,12 @@ class RTprocess(object):
             auxdata = fit.calc_model(return_components=True)
             # (interactions are only available if int_Q is True)
             auxdata = auxdata[[key for key in model_keys if key in auxdata]]
+            # the results are sorted with respect to the fit-groups
+            # -> use the same order as in the dataset
+            auxdata = auxdata.iloc[np.argsort(fit._idx_assigns[~fit.mask])]
             if sig_to_dB and fit.dB is False:
                 auxdata = 10.0 * np.log10(auxdata)
+            auxdata = dict(auxdata.items())
 
         if export_functions:
             for key, func in export_functions.items():
@@ -1627,6 +1631,8 @@ class RTprocess(object):
                     if isinstance(val, (int, float, np.number)):
                         staticlayers[key] = val
                     else:
+                        if isinstance(val, pd.DataFrame) and len(val.columns) == 1:
+                            val = val.iloc[:, 0]
                         auxdata[key] = val
 
         ret = RTprocess._postprocess_getparams(
@@ -1638,7 +1644,10 @@ class RTprocess(object):
                 if key not in auxdata and key not in staticlayers
             ],
             xindex=("ID", fit._RT1_ID_num),
-            auxdata=pd.DataFrame(auxdata),
+            auxdata=[
+                val if isinstance(val, pd.DataFrame) else pd.Series(val, name=key)
+                for key, val in auxdata.items()
+            ],
             sig_to_dB=sig_to_dB,
             inc_to_degree=inc_to_degree,
             staticlayers=staticlayers,
@@ -1701,9 +1710,9 @@ class RTprocess(object):
         staticlayers : dict, optional
             a dict with parameter-names and values that will be added das
             static layers. The default is None.
-        auxdata : pandas.DataFrame, optional
-            a pandas DataFrame that will be concatenated to the DataFrame obtained
-            from combining all 'saveparams'.
+        auxdata : pandas.DataFrame or list, optional
+            a pandas DataFrame (or a list of Series and DataFrames) that will be
+            concatenated to the DataFrame obtained from combining all 'saveparams'.
             NOTICE: if the index does not align well with the fit-index, the
             generated output can increase a lot in size due to missing values!
             The default is None.
@@ -1761,9 +1770,19 @@ class RTprocess(object):
                 )
 
         if auxdata is not None and len(auxdata) > 0:
-            usedfs.append(auxdata)
+            usedfs.extend(auxdata if isinstance(auxdata, list) else [auxdata])
 
         if len(usedfs) > 0:
+            # if dates occur multiple times, assign values that are only available
+            # for unique dates to all corresponding observations
+            for index in [df.index for df in usedfs if not df.index.is_unique][:1]:
+                usedfs = [
+                    df.reindex(index)
+                    if df.index.is_unique and df.index.isin(index).all()
+                    else df
+                    for df in usedfs
+                ]
+
             # combine all timeseries and set the proper index
             df = pd.concat(usedfs, axis=1)
             df.columns.names = ["param"]
-- 
2.43.0


From a9500c5eb259bfbea3f1a0705f7ccaac2485b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 056/106] fix: finaloutput with a single config provided as
 string

---
 rt1/rtprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index f09c884..19006c1 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1165,6 +1165,9 @@ class RTprocess(object):
             initargs=[None, queue, proc_counter],
         )
 
+        if isinstance(use_config, str) and use_config != "from_postprocess":
+            use_config = [use_config]
+
         # pre-evaluate the fn-coefficients if interaction terms are used
         # since finalout might involve calling "calc_model()" or similar
         # functions that require a re-evaluation of the fn_coefficients
-- 
2.43.0


From 3fc24e7680f7b37ee9c7404e4c0740c442d03aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 057/106] fix: export from dump-files if no HDF-container is
 available

---
 rt1/rtprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 19006c1..53e1202 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1524,7 +1524,7 @@ class RTprocess(object):
         # ----- get list of paths to fit-objects
         self._useres = getattr(res, dumpfolder)
         # load the first fit-object to pre-load fn-coefficients
-        if hasattr(self._useres, "fit_db"):
+        if not kwargs.get("use_dumps", False):
             fit0_ID = self._useres.fit_db.IDs.values.flat[0]
         else:
             fit0_ID = 0
-- 
2.43.0


From 927ecef57520ca6dd1fb74533132f20006c9d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 058/106] fix: processing without a log-file

---
 rt1/rtprocess.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 53e1202..6b1f40a 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -877,7 +877,7 @@ class RTprocess(object):
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
             else:
-                queue, proc_counter = None
+                queue, proc_counter = None, None
 
             if logfile_level is not None:
                 # start the listener after the setup-function completed, since
@@ -937,7 +937,8 @@ class RTprocess(object):
                 queue=queue,
                 proc_counter=proc_counter,
                 dump_fit=dump_fit,
-                init_func=self._worker_configurer,
+                # (no initialization is required if no log-file is generated)
+                init_func=None if queue is None else self._worker_configurer,
                 init_args=(queue, logfile_level),
                 create_index=create_index,
             )
@@ -1117,7 +1118,8 @@ class RTprocess(object):
                 proc_counter=proc_counter,
                 print_progress=print_progress,
                 create_index=create_index,
-                init_func=self._worker_configurer,
+                # (no initialization is required if no log-file is generated)
+                init_func=None if queue is None else self._worker_configurer,
                 init_args=(queue, logfile_level),
                 **kwargs,
             )
-- 
2.43.0


From 28edadcab139a110132bfef7b7cf50823abe37b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 059/106] fix: evaluate interaction-coefficients of auxiliary
 parameters without a dataset

---
 rt1/rtfits.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 8295a43..343592a 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1257,7 +1257,23 @@ class Fits(Scatter):
         the fn-coefficients (as needed for evaluation of the interaction-term)
         """
 
-        param_R = dict(**self._startvaldict, **self.fixed_dict)
+        if self.dataset is None:
+            # the values of auxiliary parameters are not available without a dataset
+            # (the fn-coefficients depend only on the names of the parameters)
+            startvals = {
+                key: 1.0 if val[1] == "auxiliary" else val[1]
+                for key, val in self.defdict.items()
+                if val[0] is True
+            }
+            fixedvals = {
+                key: 1.0
+                for key, val in self._fixed_dict.items()
+                if isinstance(val, str) and val == "auxiliary"
+            }
+        else:
+            startvals, fixedvals = self._startvaldict, self.fixed_dict
+
+        param_R = dict(**startvals, **fixedvals)
         param_R.pop("omega", None)
         param_R.pop("tau", None)
         param_R.pop("NormBRDF", None)
@@ -1271,9 +1287,7 @@ class Fits(Scatter):
         vsymb = self._Vsymb - angset
         srfsymb = self._SRFsymb - angset
 
-        paramset = set(map(str, self._startvaldict.keys())) ^ set(
-            map(str, self.fixed_dict.keys())
-        )
+        paramset = set(map(str, startvals)) ^ set(map(str, fixedvals))
 
         assert paramset >= (vsymb | srfsymb), (
             "the parameters "
-- 
2.43.0


From cea9fcf8594a9657fdcc7c74c1d09801226b524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 060/106] fix: do not change the provided pool_kwargs

---
 rt1/rtprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 6b1f40a..5debe20 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -709,8 +709,8 @@ class RTprocess(object):
             if "pool_kwargs" in setupdict:
                 pool_kwargs = setupdict["pool_kwargs"]
 
-            if pool_kwargs is None:
-                pool_kwargs = dict()
+            # (copy the dict to make sure that it can be re-used)
+            pool_kwargs = dict() if pool_kwargs is None else dict(pool_kwargs)
 
             # add provided initializer and queue (used for subprocess-logging)
             # to the initargs and use "self._initializer" as initializer-function
-- 
2.43.0


From 82a66402840fb2dd1ff160ff83cd6645136a17cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 061/106] fix: reset aux_data of MultiFits objects during
 processing

---
 rt1/rtprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 5debe20..00b2e23 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -486,8 +486,8 @@ class RTprocess(object):
                 # set the dataset
                 self.parent_fit.set_dataset(dataset)
                 # set the aux_data
-                if aux_data is not None:
-                    self.parent_fit.set_aux_data(aux_data)
+                # (also if it is None to remove aux_data of previous fits!)
+                self.parent_fit.set_aux_data(aux_data)
                 # append reader_arg to all configs
                 self.parent_fit.set_reader_arg(reader_arg)
                 # set ID for all configs
-- 
2.43.0


From 4745b595a4069556c6615b5d0c2e30d841dac1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 062/106] fix: allow dicts as init_kwargs

---
 rt1/rtprocess.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 00b2e23..f93be18 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -123,9 +123,9 @@ class RTprocess(object):
             a parent fit-object. (if None it will be set-up
             using the specifications of the .ini file) The default is None.
         init_kwargs : dict, optional
-            Additional keyword-arguments passed to the initialization of the
-            'proc_cls' class. (used to append-to or partially overwrite
-            definitions passed via the config-file). The default is None.
+            A dict of the form {section: {key: value}} that is used to append-to or
+            partially overwrite definitions passed via the config-file.
+            The default is None.
         hdf_export_kwargs: dict, optional
             a dict passed to fit._get_fit_to_hdf_dict()
             (use it to set which variables to store in the hdf-container)
@@ -153,7 +153,11 @@ class RTprocess(object):
             self.init_kwargs = dict()
         else:
             assert all(
-                [isinstance(i, str) for i in init_kwargs.values()]
+                [
+                    isinstance(i, str)
+                    for section in init_kwargs.values()
+                    for i in section.values()
+                ]
             ), 'the values of "init_kwargs" MUST be strings !'
             self.init_kwargs = init_kwargs
 
-- 
2.43.0


From 5d6d6295077e9dac0fb5ac69899302c471056808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 063/106] fix: keep all sections if init_kwargs are updated

---
 rt1/rtprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index f93be18..1361567 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -243,6 +243,7 @@ class RTprocess(object):
                     **self.init_kwargs.get(section, {}),
                     **init_defs,
                 }
+            init_kwargs = {**self.init_kwargs, **init_kwargs}
 
         self.init_kwargs = init_kwargs
 
-- 
2.43.0


From 8287e06568b7a15ef5946970547b2a7055bea671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 064/106] fix: stop processing if results can not be written

---
 rt1/_rtprocess_writer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 620f716..d55b18e 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -451,12 +451,17 @@ class RT1_processor(object):
             except Exception:
                 log.error("problem while writing data... exiting", exc_info=True)
                 self._stop.set()
-                self.should_wait.clear()
+                # make sure that waiting workers can exit
+                self.should_wait.set()
                 self.write_lock.release()
 
     def _worker_process(self, *args):
         self.should_wait.wait()
 
+        if self._stop.is_set():
+            # results can not be written to disc anymore
+            return
+
         try:
             if self.reader_func is not None:
                 # use provided reader-func...
-- 
2.43.0


From 7f1d6708edbffad74f07690d7c69fcfa56885abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 065/106] fix: keep the assigned ID-number if existing
 dump-files are used

---
 rt1/processing_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 91ff7d8..d928790 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -223,7 +223,7 @@ class rt1_processing_config(object):
 
             try:
                 fit = load(self.rt1_procsesing_dumppath / names_ids["filename"])
-                return fit._get_fit_to_hdf_dict()
+                return fit._get_fit_to_hdf_dict(ID=reader_arg.get("_RT1_ID_num", None))
             except Exception:
                 log.error(
                     "there has been a problem while loading the "
-- 
2.43.0


From f5559f1c3c89ea88fa7a48f030a3350be5bc204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 066/106] fix: identify stored results by custom feature-IDs

---
 rt1/rtprocess.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 1361567..a7981f6 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -17,7 +17,7 @@ from ._rtprocess_writer import RT1_processor
 
 from .general_functions import groupby_unsorted, isidentifier
 from .rtparse import RT1_configparser
-from .rtresults import RTresults
+from .rtresults import RTresults, HDFaccessor
 from .rtfits import MultiFits
 from . import log, _get_logger_formatter
 import logging
@@ -513,7 +513,7 @@ class RTprocess(object):
                         mini=True,
                     )
 
-                return self.parent_fit._get_fit_to_hdf_dict(
+                ret = self.parent_fit._get_fit_to_hdf_dict(
                     ID=reader_arg.get("_RT1_ID_num", None), **self.hdf_export_kwargs
                 )
 
@@ -545,18 +545,31 @@ class RTprocess(object):
                         mini=True,
                     )
 
-                return fit._get_fit_to_hdf_dict(
+                ret = fit._get_fit_to_hdf_dict(
                     ID=reader_arg.get("_RT1_ID_num", None), **self.hdf_export_kwargs
                 )
 
         except Exception as ex:
             if callable(self.proc_cls.exceptfunc):
-                ex_ret = self.proc_cls.exceptfunc(ex, reader_arg)
-
-                return ex_ret
+                ret = self.proc_cls.exceptfunc(ex, reader_arg)
             else:
                 raise ex
 
+        return self._set_feature_ID(ret, reader_arg)
+
+    def _set_feature_ID(self, ret, reader_arg):
+        """
+        make sure that custom feature-IDs (see `get_names_ids()`) are used to
+        identify the stored results (e.g. to find already existing results)
+        """
+        attrs = ret.get("const__reader_arg", None) if isinstance(ret, dict) else None
+        if attrs is not None:
+            feature_ID = self._extract_ID(reader_arg)
+            if [HDFaccessor._get_ID(i) for i in attrs.get("ID", [])] != [feature_ID]:
+                attrs["ID"] = feature_ID
+
+        return ret
+
     def _initializer(self, initializer, queue, proc_counter=None, *args):
         """
         decorate a provided initializer with the "_worker_configurer()" to
-- 
2.43.0


From b9103feab477e609c4177a66bf32310ee1891e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 067/106] fix: load fits if auxiliary data is only available
 for other fits

---
 rt1/rtresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 59b7f32..8da7534 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -651,7 +651,7 @@ class HDFaccessor(object):
                 # attach shared properties
                 if dataset is not None:
                     mf.set_dataset(dataset.loc[ID])
-                if aux_data is not None:
+                if aux_data is not None and len(aux_data) > 0:
                     mf.set_aux_data(aux_data.loc[ID])
                 if reader_arg is not None:
                     mf.set_reader_arg(reader_arg)
@@ -669,7 +669,7 @@ class HDFaccessor(object):
                 if dataset is not None:
                     fit.dataset = dataset.loc[ID]
 
-                if aux_data is not None:
+                if aux_data is not None and len(aux_data) > 0:
                     fit.aux_data = aux_data.loc[ID]
 
                 if reader_arg is not None:
-- 
2.43.0


From 88bee2c38f991c3765e10d75a65308b1dd827bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 068/106] fix: resume processing if no results have been stored
 yet

---
 rt1/_rtprocess_writer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index d55b18e..805fb55 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -333,8 +333,12 @@ class RT1_processor(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                # (no IDs are available if the HDF-container is empty)
+                if fit_db.IDs is None:
+                    found_ID_nums, found_IDs = [], []
+                else:
+                    found_ID_nums = fit_db.IDs.index
+                    found_IDs = fit_db.IDs.ID.values
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, self.arg_list)).isin(found_IDs)
@@ -704,6 +708,11 @@ class RT1_processor(object):
             can be one of ["ultralight", "light", "medium", "full"]
 
         """
+        if not Path(dst_path).exists():
+            # avoid creating an empty HDF-container
+            log.warning(f"no HDF-container found at '{dst_path}'... no index created")
+            return
+
         with pd.HDFStore(dst_path, "a") as store:
             use_keys = keys if keys else store.keys()
             use_keys = [key for key in use_keys if not key.endswith("/meta")]
-- 
2.43.0


From c6df748e3f88867da2f2f6b34add1a4fd39ff655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 069/106] fix: mask existing IDs of an empty HDF-container

---
 rt1/processing_config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index d928790..ac14f42 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -313,8 +313,12 @@ class rt1_processing_config(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                # (no IDs are available if the HDF-container is empty)
+                if fit_db.IDs is None:
+                    found_ID_nums, found_IDs = [], []
+                else:
+                    found_ID_nums = fit_db.IDs.index
+                    found_IDs = fit_db.IDs.ID.values
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, arg_list)).isin(found_IDs)
-- 
2.43.0


From 3285761b406c4ec879a5ad35f962f8cdf5cef5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 070/106] fix: interpolate parameters whose groups re-appear in
 time (the order was checked for fit-groups instead of observations)

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 343592a..5ebf1a4 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -710,7 +710,8 @@ class Fits(Scatter):
     def _param_dyn_monotonic(self):
         """a dict indicating if the param_dyn assignments are monotonic"""
         return {
-            key: val.is_monotonic_increasing for key, val in self.param_dyn_df.items()
+            key: bool(np.all(np.diff(val) >= 0))
+            for key, val in self.param_dyn_dict.items()
         }
 
     @property
-- 
2.43.0


From f241de9ec34560e69672e1205192c5f3ceb63182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 071/106] fix: result-folders whose names contain dots were
 mixed up

---
 rt1/rtresults.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 8da7534..b6dc890 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -138,12 +138,12 @@ class RTresults(object):
 
     def _addresult(self, path):
         if self._check_folderstructure(path):
-            self._paths[path.stem] = path
-            log.info(f"... adding result {path.stem}")
+            self._paths[path.name] = path
+            log.info(f"... adding result {path.name}")
             setattr(
                 self,
-                path.stem,
-                self._RT1_fitresult(path.stem, path, self._use_dumps),
+                path.name,
+                self._RT1_fitresult(path.name, path, self._use_dumps),
             )
 
     class _RT1_fitresult(object):
-- 
2.43.0


From 1205d80079ea3e9b0233f4cf7e7ae55ba5b6bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 072/106] fix: IDs that are no valid identifiers even with the
 prefix 'RT1_' got the prefix repeatedly

---
 rt1/_rtprocess_writer.py | 2 +-
 rt1/processing_config.py | 2 +-
 rt1/rtfits.py            | 2 +-
 rt1/rtprocess.py         | 2 +-
 rt1/rtresults.py         | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 805fb55..d240d27 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -322,7 +322,7 @@ class RT1_processor(object):
 
                 def get_ID(i):
                     ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
-                    if not isidentifier(str(ID)):
+                    if not isidentifier(str(ID)) and not str(ID).startswith("RT1_"):
                         return f"RT1_{ID}"
                     else:
                         return str(ID)
diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index ac14f42..bedeeba 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -302,7 +302,7 @@ class rt1_processing_config(object):
 
                 def get_ID(i):
                     ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
-                    if not isidentifier(str(ID)):
+                    if not isidentifier(str(ID)) and not str(ID).startswith("RT1_"):
                         return f"RT1_{ID}"
                     else:
                         return str(ID)
diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 5ebf1a4..a73f099 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -427,7 +427,7 @@ class Fits(Scatter):
 
     @ID.setter
     def ID(self, ID):
-        if not isidentifier(str(ID)):
+        if not isidentifier(str(ID)) and not str(ID).startswith("RT1_"):
             self._ID = f"RT1_{ID}"
             log.debug(f"'{ID}' is not a valid identifier - using '{self._ID}'")
         else:
diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index a7981f6..67cba00 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -783,7 +783,7 @@ class RTprocess(object):
     def _extract_ID(self, reader_arg):
         ID = self.proc_cls.get_names_ids(reader_arg)["feature_id"]
 
-        if not isidentifier(str(ID)):
+        if not isidentifier(str(ID)) and not str(ID).startswith("RT1_"):
             return f"RT1_{ID}"
         else:
             return str(ID)
diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index b6dc890..2b5a312 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -581,7 +581,7 @@ class HDFaccessor(object):
 
     @staticmethod
     def _get_ID(ID):
-        if not isidentifier(str(ID)):
+        if not isidentifier(str(ID)) and not str(ID).startswith("RT1_"):
             return f"RT1_{ID}"
         else:
             return str(ID)
-- 
2.43.0


From 1406b6b93a00610516846522343bca172cfbde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 073/106] fix: errors (and aborting) during the setup of
 RTprocess were masked by an UnboundLocalError

---
 rt1/rtprocess.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 67cba00..b977a5d 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -867,6 +867,9 @@ class RTprocess(object):
               (e.g. the defaults are:  idx_levels=None and keys=None)
 
         """
+        # (not yet available if there is a problem during setup)
+        queue, listener = None, None
+
         if hasattr(self, "proc_cls"):
             if hasattr(self.proc_cls, "finalizer"):
                 self.proc_cls.finalizer()
@@ -973,7 +976,7 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
+            if listener is not None:
                 # tell the queue to stop
                 queue.put_nowait(None)
 
@@ -1074,6 +1077,9 @@ class RTprocess(object):
         if postprocess is not None:
             assert callable(postprocess), "postprocess must be callable!"
 
+        # (not yet available if there is a problem during setup)
+        queue, listener = None, None
+
         try:
             # override finalout_name
             # do this BEFORE self.setup() is called !!
@@ -1152,7 +1158,7 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
+            if listener is not None:
                 # tell the queue to stop
                 queue.put_nowait(None)
 
-- 
2.43.0


From 0c073f7efe6adf6927055f23face445ea894de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 074/106] fix: use the processing-module specified by
 'processing_cfg_module' in CONFIGFILES (only PROCESS_SPECS was checked)

---
 rt1/rtprocess.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index b977a5d..bc02523 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -342,7 +342,13 @@ class RTprocess(object):
             self._copy_cfg_and_modules()
 
         # get the name of the processing-module and the processing-class
-        proc_module_name = specs.get("processing_cfg_module", "processing_cfg")
+        # (the name of the module is specified in the "CONFIGFILES" section)
+        proc_module_name = specs.get(
+            "processing_cfg_module",
+            self.cfg.config["CONFIGFILES"].get(
+                "processing_cfg_module", "processing_cfg"
+            ),
+        )
         proc_class_name = specs.get("processing_cfg_class", "processing_cfg")
 
         # load ALL modules to ensure that the importer finds them
-- 
2.43.0


From b340f113bbae1d44668284bd161d3b7a1551ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 075/106] fix: readers that return a list that contains only a
 dataset

---
 rt1/rtprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index bc02523..15a0fcf 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -477,7 +477,9 @@ class RTprocess(object):
             elif isinstance(read_data, (list, tuple)) and isinstance(
                 read_data[0], pd.DataFrame
             ):
-                if len(read_data) == 2:
+                if len(read_data) == 1:
+                    dataset, aux_data = read_data[0], None
+                elif len(read_data) == 2:
                     dataset, aux_data = read_data
                 elif len(read_data) > 2:
                     dataset = read_data[0]
-- 
2.43.0


From f148bda6bb1522ecccd8a4c69e2d46fe1294e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 076/106] fix: use_config='from_postprocess' was ignored for
 MultiFits if the postprocess-function of the processing-config is used

---
 rt1/rtprocess.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 15a0fcf..2c22070 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1307,12 +1307,15 @@ class RTprocess(object):
                         "no explicit 'postprocess' function provided"
                         + "and no 'postprocess' function found in processing_config class"
                     )
-                    ret = dict(
-                        fit.apply(
-                            self.proc_cls.postprocess,
-                            use_config=use_config,
+                    if use_func_directly:
+                        ret = self.proc_cls.postprocess(fit)
+                    else:
+                        ret = dict(
+                            fit.apply(
+                                self.proc_cls.postprocess,
+                                use_config=use_config,
+                            )
                         )
-                    )
                 elif use_func_directly:
                     ret = postprocess(fit)
                 else:
-- 
2.43.0


From c312e4fba36894be1f9889de6bc4e5a436656b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 077/106] fix: polarplot legend for current numpy versions
 (np.round_ has been removed)

---
 rt1/rtplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index eb37667..c9876d3 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -244,7 +244,7 @@ def polarplot(
                     [],
                     color=color,
                     label=r"$\theta_0$ = "
-                    + str(np.round_(np.rad2deg(ti), decimals=1))
+                    + str(np.round(np.rad2deg(ti), decimals=1))
                     + r"${}^\circ$",
                 )
             ]
-- 
2.43.0


From 52ba84a3ffe9cc230975674a69677587887c2675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 078/106] fix: polarplot for user-provided axes

---
 rt1/rtplots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index c9876d3..0e9f1b8 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -122,6 +122,7 @@ def polarplot(
         polarax = fig.add_subplot(111, projection="polar")
     else:
         assert polarax.name == "polar", "you must provide a polar-axes!"
+        fig = polarax.figure
 
     if ".surface." in str(X.__class__):
         if label is None:
-- 
2.43.0


From 1a52df1827b7f5c73bee5e5679d612b05e232dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 079/106] fix: polarplot for constant legendre-expansions

---
 rt1/rtplots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 0e9f1b8..5b46eaa 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -194,8 +194,10 @@ def polarplot(
                 if aprox is True:
                     # the use of np.pi-ti stems from the definition
                     # of legexpansion() in volume.py
-                    radapprox = phasefunktapprox(
-                        angsub(ti), thetass, 0.0, 0.0, **params
+                    # (the expansion can be constant, e.g. for ncoefs=1)
+                    radapprox = np.broadcast_to(
+                        phasefunktapprox(angsub(ti), thetass, 0.0, 0.0, **params),
+                        thetass.shape,
                     )
                 # set theta direction to clockwise
                 polarax.set_theta_direction(-1)
-- 
2.43.0


From c6c6fa2bf327331dda374b670b1538b48900b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 080/106] fix: hemreflect for symbolic and array-like NormBRDF

---
 rt1/rtplots.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 5b46eaa..e10c6c8 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -330,23 +330,18 @@ def hemreflect(
     if R is not None:
         BRDF = R.SRF.brdf
 
-        try:
-            Nsymb = R.SRF.NormBRDF.free_symbols
-            Nfunc = sp.lambdify(Nsymb, R.SRF.NormBRDF, modules=["numpy"])
-            NormBRDF = Nfunc(*[param_dict[str(i)] for i in Nsymb])
-        except Exception:
-            NormBRDF = R.SRF.NormBRDF
+        NormBRDF = R.SRF.NormBRDF
     elif SRF is not None:
         BRDF = SRF.brdf
-        try:
-            Nsymb = SRF.NormBRDF[0].free_symbols
-            Nfunc = sp.lambdify(Nsymb, SRF.NormBRDF, modules=["numpy"])
-            NormBRDF = Nfunc(*[param_dict[str(i)] for i in Nsymb])
-        except Exception:
-            NormBRDF = SRF.NormBRDF
+        NormBRDF = SRF.NormBRDF
     else:
         assert False, "Error: You must provide either R or SRF"
 
+    if isinstance(NormBRDF, sp.Basic):
+        Nsymb = list(NormBRDF.free_symbols)
+        Nfunc = sp.lambdify(Nsymb, NormBRDF, modules=["numpy"])
+        NormBRDF = Nfunc(*[param_dict[str(i)] for i in Nsymb])
+
     # set incident (zenith-angle) directions for which the integral
     # should be evaluated!
     incnum = np.arange(t_0_min, t_0_max, t_0_step)
@@ -379,7 +374,9 @@ def hemreflect(
         z = integfunkt(x[:, None], y)
         sol = sol + [simps(simps(z, y), x)]
 
-    sol = np.array(sol) * NormBRDF
+    # (one line for each of the provided NormBRDF values)
+    NormBRDF = np.squeeze(NormBRDF)
+    sol = np.multiply.outer(NormBRDF, np.array(sol))
 
     # print warning if the hemispherical reflectance exceeds 1
     if np.any(sol > 1.0):
@@ -393,10 +390,10 @@ def hemreflect(
         axnum = fig.add_subplot(1, 1, 1)
 
         if len(sol.shape) > 1:
-            for i, sol in enumerate(sol):
-                axnum.plot(incnum, sol, label="NormBRDF = " + str(NormBRDF[i]))
+            for i, sol_i in enumerate(sol):
+                axnum.plot(incnum, sol_i, label="NormBRDF = " + str(NormBRDF[i]))
                 if showpoints is True:
-                    axnum.plot(incnum, sol, "r.")
+                    axnum.plot(incnum, sol_i, "r.")
         else:
             axnum.plot(incnum, sol, "k", label="NormBRDF = " + str(NormBRDF))
             if showpoints is True:
-- 
2.43.0


From 4da9ad570c75d28ae0ff596c6fa9f9073228a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 081/106] fix: assignment of grouped model-results to the
 observations in scatter- and timeseries-plots

---
 rt1/rtplots.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index e10c6c8..1d28278 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -485,9 +485,11 @@ class plot:
         # measures = fit.dataset.sig.values
         # calculate estimates
         # estimates = fit.calc_model().tot.values
-        measures, estimates = pd.concat(
-            [fit.dataset.sig, fit.calc_model().tot], axis=1
-        ).values.T
+        # (use the same order as in the dataset)
+        measures = fit.dataset.sig.values
+        estimates = fit.calc_model().tot.values[
+            np.argsort(fit._idx_assigns[~fit.mask])
+        ]
         if mima is None:
             mi = np.min((measures, estimates))
             ma = np.max((measures, estimates))
@@ -593,15 +595,14 @@ class plot:
             fit = self.fit
 
         # get incidence-angles
-        inc_array = np.ma.masked_array(fit.inc, fit.mask)
-        inc = inc_array.compressed()
-        # get input dataset
-        data = np.ma.masked_array(fit.data, fit.mask)
-
-        # calculate individual contributions
-        contrib = fit.calc_model(return_components=True)
-        contrib["$\\sigma_0$ dataset"] = fit.dataset.sig
-        contrib["inc"] = fit.dataset.inc
+        inc = fit.dataset.inc.values
+
+        # calculate individual contributions (in the order of the dataset)
+        contrib = fit.calc_model(return_components=True).iloc[
+            np.argsort(fit._idx_assigns[~fit.mask])
+        ]
+        contrib["$\\sigma_0$ dataset"] = fit.dataset.sig.values
+        contrib["inc"] = inc
 
         # convert units
         complist = [i for i in contrib.keys() if i not in ["inc"]]
-- 
2.43.0


From b7b7145a472de1e0a1b6bbd1251b3ac80ab19a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 082/106] fix: use the dates of the fit-groups in fit_errors
 and results plots

---
 rt1/rtplots.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 1d28278..0be0fee 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -803,12 +803,15 @@ class plot:
         else:
             ax2.set_title("Residuals per incidence-angle")
 
+        # the (mean) dates of the selected measurements
+        index = np.array(fit.meandatetimes_group)[result_selection]
+
         # the use of masked arrays might cause python 2 compatibility issues!
-        ax.plot(fit.index[result_selection], res[result_selection], ".", alpha=0.5)
+        ax.plot(index, res[result_selection], ".", alpha=0.5)
 
         # plot mean residual for each measurement
         ax.plot(
-            fit.index[result_selection],
+            index,
             np.ma.mean(res[result_selection], axis=1),
             "k",
             linewidth=3,
@@ -818,7 +821,7 @@ class plot:
 
         # plot total mean of mean residuals per measurement
         ax.plot(
-            fit.index[result_selection],
+            index,
             [np.ma.mean(np.ma.mean(res[result_selection], axis=1))]
             * len(result_selection),
             "k--",
@@ -923,7 +926,7 @@ class plot:
         ax2.xaxis.set_minor_locator(plt.MultipleLocator(0.25))
 
         # set ticks
-        if isinstance(fit.index[0], datetime.datetime):
+        if np.issubdtype(index.dtype, np.datetime64):
             plt.setp(ax.get_xticklabels(), rotation=30, ha="right")
 
         fig.tight_layout()
@@ -1042,7 +1045,7 @@ class plot:
         if len(result_selection) < len(fit.data):
             for i, resid in enumerate(result_selection):
                 ax2.text(
-                    fit.index[resid],
+                    fit.meandatetimes_group[resid],
                     ax2.get_ylim()[1] * 0.9,
                     resid,
                     bbox=dict(facecolor=f"C{i}", alpha=0.5),
-- 
2.43.0


From 7204aed0aaec9b0315bd62d49e1771e5399cdfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 083/106] fix: labels and start-values in results plots

---
 rt1/rtplots.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 0be0fee..bcade3d 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -987,11 +987,9 @@ class plot:
         masked_data = np.ma.masked_array(fit.data, fit.mask)
         # get labels
         try:
-            labels = pd.to_datetime(fit.fit_index).strftime(legend_fmt)[
-                result_selection
-            ]
+            labels = pd.to_datetime(fit.meandatetimes_group).strftime(legend_fmt)
         except Exception:
-            labels = result_selection
+            labels = range(len(fit.data))
 
         for i in result_selection:
             (l,) = ax.plot(fit.inc[i], fitplot[i], alpha=0.4, label=labels[i])
@@ -1005,7 +1003,7 @@ class plot:
 
         # ----------- plot start-values ------------
         if startvals is True:
-            startplot = fit._calc_model(res_dict=fit.start_dict)
+            startplot = fit._calc_model(res_dict=fit._startvaldict)
             for i, val in enumerate(startplot[result_selection]):
                 if i == 0:
                     label = "fitstart"
-- 
2.43.0


From b49e60f65ddd8bd5548eb43a0030335ffee405a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 084/106] fix: selection of single results based on
 index-values

---
 rt1/rtplots.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index bcade3d..7556c96 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1100,16 +1100,11 @@ class plot:
             assert False, "please provide EITHER fit_numbers OR fit_indexes!"
         elif fit_indexes is not None:
             # fit_numbers = np.where(fit.index.isin(fit_indexes))[0]
-            fit_numbers = np.argmin(
-                np.abs(
-                    fit.fit_index
-                    - np.expand_dims(
-                        np.atleast_1d(np.array(fit_indexes, dtype=fit.index.dtype)),
-                        -1,
-                    )
-                ),
-                axis=1,
-            )
+            # select the groups that contain the (closest) index-values
+            fit_numbers = [
+                np.argmin([np.min(np.abs(ix - val)) for ix in fit._orig_index])
+                for val in np.atleast_1d(np.array(fit_indexes, dtype=fit.index.dtype))
+            ]
 
         elif fit_numbers is None and fit_indexes is None:
             fit_numbers = [1]
-- 
2.43.0


From 7d4e120018b84a9dce485c1e365c9d1005cfe010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 085/106] fix: assignment of values to the dates in
 printsig0analysis

---
 rt1/rtplots.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 7556c96..a225613 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1553,15 +1553,19 @@ class plot:
         ax1.grid()
 
         if use_index == "dataset":
-            sig0_vals = fit.calc_model(return_components=True)
-            sig0_vals["data"] = fit.dataset.sig
-            sig0_vals["incs"] = fit.dataset.inc
+            # (use the same order as in the dataset)
+            sig0_vals = fit.calc_model(return_components=True).iloc[
+                np.argsort(fit._idx_assigns[~fit.mask])
+            ]
+            sig0_vals["data"] = fit.dataset.sig.values
+            sig0_vals["incs"] = fit.dataset.inc.values
             sig0_vals = sig0_vals.groupby(level=0).agg(list).to_dict(orient="list")
             sig0_vals = {
                 key: rectangularize(val, return_masked=True)
                 for key, val in sig0_vals.items()
             }
-            sig0_vals["indexes"] = pd.to_datetime(fit.index)
+            # (the groups are sorted with respect to the unique index-values)
+            sig0_vals["indexes"] = pd.to_datetime(np.unique(fit.index))
         elif use_index == "groups":
             # calculate backscatter values and ensure correct index-order
             # ( in case a unordered dyn-dict is used)
@@ -1602,7 +1606,9 @@ class plot:
                 newsig0_vals = fit.calc(
                     param=fit.res_df,
                     inc=inc,
-                    fixed_param=fit.dataset[fit.fixed_dict.keys()],
+                    fixed_param=fit.dataset[list(fit.fixed_dict)]
+                    .groupby(level=0)
+                    .mean(),
                     return_components=True,
                 )
             elif use_index == "groups":
@@ -1610,15 +1616,15 @@ class plot:
                     # get the average value of the fixed-parameters
                     # for each group
                     usefixedparams = (
-                        fit.dataset[fit.fixed_dict.keys()]
+                        fit.dataset[list(fit.fixed_dict)]
                         .groupby(fit._groupindex, sort=False)
                         .mean()
-                        .set_index(pd.to_datetime(fit.meandatetimes_group))
                     )
                 else:
                     usefixedparams = dict()
+                # (the mean-dates of the groups are not necessarily unique)
                 newsig0_vals = fit.calc(
-                    param=fit.res_df_group,
+                    param=fit.res_df_group.to_dict(orient="list"),
                     inc=inc,
                     fixed_param=usefixedparams,
                     return_components=True,
@@ -1697,7 +1703,7 @@ class plot:
 
         # ensure sort-order
         if use_index == "dataset":
-            inc_sortp = np.argsort(fit.index)
+            inc_sortp = np.arange(len(sig0_vals["indexes"]))
         elif use_index == "groups":
             inc_sortp = np.argsort(fit.meandatetimes_group)
 
-- 
2.43.0


From 273783640abf853b04f875d00cf28cca22e95336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 086/106] fix: printsig0analysis with printfullt_0=False

---
 rt1/rtplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index a225613..3d42710 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1581,6 +1581,7 @@ class plot:
             sig0_vals["indexes"] = pd.to_datetime(fit.meandatetimes_group)
         # convert to sig0 and dB if necessary
         sig0_vals_I_linear = dict()
+        newsig0_vals, newsig0_vals_I_linear = dict(), dict()
         for key in ["tot", "surf", "vol", "inter", "data"]:
             if key not in sig0_vals:
                 continue
@@ -1634,7 +1635,6 @@ class plot:
 
             newsig0_vals["incs"] = np.broadcast_to(inc, newsig0_vals["tot"].shape)
 
-            newsig0_vals_I_linear = dict()
             for key in ["tot", "surf", "vol", "inter"]:
                 if key not in newsig0_vals:
                     continue
-- 
2.43.0


From 6401c1badf59abf8c7a4baba582e3f9a809a5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 087/106] fix: printsig0analysis at the end of the timeseries

---
 rt1/rtplots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 3d42710..6d62418 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1798,6 +1798,7 @@ class plot:
             styledict_fullt0_dict,
         ):
             incs = np.rad2deg(sig0_vals["incs"])
+            dayrange = min(dayrange, len(incs))
 
             lines = []
             for day in np.arange(0, dayrange, 1):
@@ -2102,9 +2103,9 @@ class plot:
                 label.set_text(sig0_vals["indexes"][day0].strftime("%d. %b %Y %H:%M"))
             elif dayrange > 1:
                 lday_0 = sig0_vals["indexes"][day0].strftime("%d. %b %Y %H:%M")
-                lday_1 = sig0_vals["indexes"][day0 + dayrange - 1].strftime(
-                    "%d. %b %Y %H:%M"
-                )
+                lday_1 = sig0_vals["indexes"][
+                    min(day0 + dayrange, len(sig0_vals["indexes"])) - 1
+                ].strftime("%d. %b %Y %H:%M")
                 label.set_text(f"{lday_0} - {lday_1}")
 
             maxdays = len(sig0_vals["incs"])
-- 
2.43.0


From c6fec9711e740d1dde768adcb096c87b9f791d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 088/106] fix: analyzemodel for a single parameter

---
 rt1/rtplots.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 6d62418..1c6eaf8 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2452,26 +2452,27 @@ class plot:
         f = plt.figure(figsize=(12, 9))
         f.subplots_adjust(top=0.93, right=0.98, left=0.07)
         # generate figure grid and populate with axes
+        nrows = max(1, len(minparams) // 2)
         gs = GridSpec(
-            1 + len(minparams) // 2,
+            1 + nrows,
             1 + 3,
-            height_ratios=[8] + [1] * (len(minparams) // 2),
+            height_ratios=[8] + [1] * nrows,
             width_ratios=[0.75, 1, 1, 1],
         )
         gs.update(wspace=0.3)
 
         gsslider = GridSpec(
-            1 + len(minparams) // 2,
+            1 + nrows,
             1 + 3,
-            height_ratios=[8] + [1] * (len(minparams) // 2),
+            height_ratios=[8] + [1] * nrows,
             width_ratios=[0.75, 1, 1, 1],
         )
         gsslider.update(wspace=0.3, bottom=0.05)
 
         gsbutton = GridSpec(
-            1 + len(minparams) // 2,
+            1 + nrows,
             1 + 3,
-            height_ratios=[8] + [1] * (len(minparams) // 2),
+            height_ratios=[8] + [1] * nrows,
             width_ratios=[0.75, 1, 1, 1],
         )
         gsbutton.update(hspace=0.75, wspace=0.1, bottom=0.05)
-- 
2.43.0


From ab30497ae4987ed3292ebd39f8f0811ee4bb7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 089/106] fix: remove all outdated areas in analyzemodel

---
 rt1/rtplots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 1c6eaf8..c1862df 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2644,7 +2644,7 @@ class plot:
             hatches = [r"//", r"\\\\", "+", "oo", "--", ".."]
             colors = ["C" + str(i) for i in range(10)]
 
-            for a in ax.collections:
+            for a in list(ax.collections):
                 a.remove()
 
             legendhandles = []
@@ -2786,7 +2786,7 @@ class plot:
 
             # ax.collections.clear()
             if printvariationQ[label] is True:
-                for a in ax.collections:
+                for a in list(ax.collections):
                     a.remove()
                 # ax.collections.clear()
                 printvariationQ[label] = False
-- 
2.43.0


From bd0d1a0818011c69b4e9201bf345ee9fd4297565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 090/106] fix: assignment of intermediate residuals to the
 groups

---
 rt1/rtplots.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index c1862df..bbb7366 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2954,6 +2954,10 @@ class plot:
         else:
             iterstep = 1
 
+        # the index of the residuals (e.g. in the order of the fit-groups)
+        order = fit._idx_assigns[~fit.mask]
+        errindex = fit.dataset.index[order]
+
         if isinstance(grp, tuple):
             if grp[0] in fit.res_df:
                 grps = pd.cut(
@@ -2963,13 +2967,14 @@ class plot:
                 )
             elif grp[0] in fit.dataset:
                 grps = pd.cut(fit.dataset[grp[0]], grp[1], include_lowest=True)
+            grps = grps.iloc[order]
             grpvals = grps.cat.categories.mid.values
             ymin, ymax = grps.min().left, grps.max().right
 
             # group the residuals with respect to the defined group
             resarr = np.abs(
                 [
-                    pd.DataFrame(i[err], fit.dataset.index)
+                    pd.DataFrame(i[err], errindex)
                     .groupby(grps)
                     .mean()
                     .values.flatten()
@@ -2987,8 +2992,8 @@ class plot:
                 grplabels = pd.to_datetime(fit.meandatetimes_group)
                 resarr = np.abs(
                     [
-                        pd.DataFrame(i[err], fit.dataset.index)
-                        .groupby(fit._groupindex)
+                        pd.DataFrame(i[err], errindex)
+                        .groupby(fit._groupindex[order], sort=False)
                         .mean()
                         .values.flatten()
                         for i in fit.intermediate_results["residuals"][iter_slice]
@@ -3006,10 +3011,10 @@ class plot:
                 use_label = ""
             elif grp == "dataset":
                 # group the residuals with respect to the dataset-index
-                grplabels = pd.to_datetime(fit.index)
+                grplabels = pd.to_datetime(np.unique(fit.index))
                 resarr = np.abs(
                     [
-                        pd.DataFrame(i[err], fit.dataset.index)
+                        pd.DataFrame(i[err], errindex)
                         .groupby(level=0)
                         .mean()
                         .values.flatten()
@@ -3031,7 +3036,7 @@ class plot:
                 grplabels = (
                     pd.DataFrame(
                         fit.intermediate_results["residuals"][0][err],
-                        fit.dataset.index,
+                        errindex,
                     )
                     .groupby(pd.Grouper(freq=grp))
                     .mean()
@@ -3040,7 +3045,7 @@ class plot:
 
                 resarr = np.abs(
                     [
-                        pd.DataFrame(i[err], fit.dataset.index)
+                        pd.DataFrame(i[err], errindex)
                         .groupby(pd.Grouper(freq=grp))
                         .mean()
                         .values.flatten()
-- 
2.43.0


From 7f2534a3daddcdee286804260f6f4ce5101b4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 091/106] fix: default selection of single_results for fits
 with only one group

---
 rt1/rtplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index bbb7366..d0d1b15 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1107,7 +1107,7 @@ class plot:
             ]
 
         elif fit_numbers is None and fit_indexes is None:
-            fit_numbers = [1]
+            fit_numbers = [min(1, len(fit.data) - 1)]
 
         # function to generate colormap that fades between colors
         def CustomCmap(from_rgb, to_rgb):
-- 
2.43.0


From b7a7df1a2b1d4311db30ea5106848de6dbccba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 092/106] fix: mean of the intermediate parameter-estimates

---
 rt1/rtplots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index d0d1b15..8757bfb 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -1283,9 +1283,9 @@ class plot:
         for i, valdict in enumerate(fit.intermediate_results["parameters"]):
             for key, val in valdict.items():
                 if key in interparams:
-                    interparams[key] += [[i, np.mean(val[0])]]
+                    interparams[key] += [[i, np.mean(val)]]
                 else:
-                    interparams[key] = [[i, np.mean(val[0])]]
+                    interparams[key] = [[i, np.mean(val)]]
         intererrs = {}
         for i, valdict in enumerate(fit.intermediate_results["residuals"]):
             for key, val in valdict.items():
-- 
2.43.0


From 73156e50de3c1a35ec2a1a93ebe45ac5be570dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 093/106] fix: intermediate results of a previous fit were kept
 (and mixed with the jacobians of the next fit)

---
 rt1/rtfits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index a73f099..a79a332 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2293,6 +2293,9 @@ class Fits(Scatter):
                 "residuals": [],
                 "jacobian": [],
             }
+        else:
+            # remove the intermediate results of a previous fit
+            self.__dict__.pop("intermediate_results", None)
 
         # will be used to assign the values to the individual parameters
         # (the returned parameters are given as a concatenated array
-- 
2.43.0


From 7eef9e0523b10100de7c247dcadbaffafc3fda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 094/106] fix: hemispherical reflectance of BRDFs that are
 independent of the azimuth

---
 rt1/rtplots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 8757bfb..6c387ec 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -371,7 +371,8 @@ def hemreflect(
             )
 
         # evaluate the integral using Simpson's Rule twice
-        z = integfunkt(x[:, None], y)
+        # (the BRDF might be independent of phi_s)
+        z = np.broadcast_to(integfunkt(x[:, None], y), (len(x), len(y)))
         sol = sol + [simps(simps(z, y), x)]
 
     # (one line for each of the provided NormBRDF values)
-- 
2.43.0


From 5ca5520b5097dbb32c8be5bda19aca009631c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:46 +0000
Subject: [PATCH 095/106] fix: hide outdated lines at the end of the timeseries
 in printsig0analysis

---
 rt1/rtplots.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index 6c387ec..df5bf0e 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2110,6 +2110,12 @@ class plot:
                 label.set_text(f"{lday_0} - {lday_1}")
 
             maxdays = len(sig0_vals["incs"])
+
+            def hide_outdated(lines, n):
+                # hide lines that are not available at the end of the timeseries
+                for j, line in enumerate(lines):
+                    line.set_visible(j < n)
+
             i = 0
             for day in np.arange(day0, day0 + dayrange, 1):
                 if day >= maxdays:
@@ -2136,6 +2142,7 @@ class plot:
                 # update day-indicator line
                 lines[i].set_xdata([sig0_vals["indexes"][day]] * 2)
                 i += 1
+            hide_outdated(lines, i)
 
             i = 0
             for day in np.arange(day0, day0 + dayrange, 1):
@@ -2157,6 +2164,7 @@ class plot:
                     lines_frac[i].set_xdata(np.rad2deg(sig0_vals["incs"][day]))
                     lines_frac[i].set_ydata(lininter / lintot)
                 i += 1
+            hide_outdated(lines_frac, i)
 
             if printfullt_0 is True:
                 i = 0
@@ -2180,6 +2188,7 @@ class plot:
                             linesfull[i].set_xdata(day_inc_new[sortp])
                             linesfull[i].set_ydata(newsig0_vals["inter"][day][sortp])
                         i += 1
+                hide_outdated(linesfull, i)
                 i = 0
                 for day in np.arange(day0, day0 + dayrange, 1):
                     if day >= maxdays:
@@ -2203,6 +2212,7 @@ class plot:
                         lines_frac_full[i].set_xdata(day_inc_new[sortp])
                         lines_frac_full[i].set_ydata((lininter / lintot)[sortp])
                     i += 1
+                hide_outdated(lines_frac_full, i)
 
             return lines
 
-- 
2.43.0


From b7efebf130435de339ae3b2f97b13e42dfa1d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:46 +0000
Subject: [PATCH 096/106] fix: slider-boundaries of zoomed printsig0analysis
 plots

---
 rt1/rtplots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index df5bf0e..a4efa2c 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2231,8 +2231,10 @@ class plot:
             )
 
             zoomindex = np.where(np.logical_and(indexes > xstart, indexes < xend))[0]
-            slider.valmin = zoomindex[0] - 1
-            slider.valmax = zoomindex[-1] + 1
+            if len(zoomindex) == 0:
+                return
+            slider.valmin = max(zoomindex[0] - 1, 0)
+            slider.valmax = min(zoomindex[-1] + 1, len(indexes) - 1)
 
             slider.ax.set_xlim(slider.valmin, slider.valmax)
 
-- 
2.43.0


From 66b2e18a3591188b6b4729baa72119ab97d2aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 097/106] fix: metrics were not updated after changing int_Q

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index a79a332..6044bbc 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -410,7 +410,7 @@ class Fits(Scatter):
         # TODO write proper setters that do the job
         # clear the cache in case it is not empty and a
         # defining variable is set
-        if attr in ["sig0", "dB", "dataset", "defdict", "set_V_SRF"]:
+        if attr in ["sig0", "dB", "dataset", "defdict", "set_V_SRF", "int_Q"]:
             if not all(i == 0 for i in self._cached_arg_number):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
-- 
2.43.0


From 54c9b6b23ee89ad6590b15579992f233d5a55d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 098/106] fix: re-evaluate interaction-coefficients if the
 order of the parameters changed

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 6044bbc..ba28201 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1380,7 +1380,7 @@ class Fits(Scatter):
         return (
             V_SRF,
             repr(self._setdict),
-            sorted(self._param_R_dict),
+            list(self._param_R_dict),
             self.lambda_backend,
         )
 
-- 
2.43.0


From 1769c8a785c83b4a223f2fdffa785689f3c25ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:25 +0000
Subject: [PATCH 099/106] fix: changing the order of the parameters of
 RT1-objects mixed up the parameters of the interaction-coefficients

---
 rt1/rt1.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index b45701d..7d4e718 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -253,6 +253,22 @@ class RT1(object):
 
         log.info("\n".join(text))
 
+    @property
+    def param_dict(self):
+        """the values of the parameters used in the definitions of V and SRF"""
+        return self.__dict__["param_dict"]
+
+    @param_dict.setter
+    def param_dict(self, param_dict):
+        # maintain the order of the existing parameters since the values are
+        # passed as positional arguments to the _fnevals functions!
+        keys = [key for key in self.__dict__.get("param_dict", {}) if key in param_dict]
+        keys += [key for key in param_dict if key not in keys]
+        if keys != list(param_dict):
+            param_dict = {key: param_dict[key] for key in keys}
+
+        self.__dict__["param_dict"] = param_dict
+
     def prv(self, v, msg):
         """
         function to set print output based on verbosity level v.
-- 
2.43.0


From 4b19bd5bd0cac6159fc7e15667f04897862ca7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 100/106] fix: restore the configuration of the log after a
 processing run

---
 rt1/rtprocess.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 2c22070..2ceaa79 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -877,6 +877,8 @@ class RTprocess(object):
         """
         # (not yet available if there is a problem during setup)
         queue, listener = None, None
+        # the level of the logger is changed during processing
+        init_loglevel = log.level
 
         if hasattr(self, "proc_cls"):
             if hasattr(self.proc_cls, "finalizer"):
@@ -991,6 +993,9 @@ class RTprocess(object):
                 # stop the listener process
                 listener.join()
 
+                # restore the initial level of the logger
+                log.setLevel(init_loglevel)
+
                 # remove any remaining file-handler and queue-handlers after
                 # the processing is done
                 handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
@@ -999,6 +1004,7 @@ class RTprocess(object):
                     h.close()
                     # remove the file-handler from the log
                     log.handlers.remove(h)
+                    logging.getLogger("py.warnings").removeHandler(h)
 
     def run_finaloutput(
         self,
@@ -1087,6 +1093,8 @@ class RTprocess(object):
 
         # (not yet available if there is a problem during setup)
         queue, listener = None, None
+        # the level of the logger is changed during processing
+        init_loglevel = log.level
 
         try:
             # override finalout_name
@@ -1173,6 +1181,9 @@ class RTprocess(object):
                 # stop the listener process
                 listener.join()
 
+                # restore the initial level of the logger
+                log.setLevel(init_loglevel)
+
                 # remove any remaining file-and queue-handlers after processing is done
                 handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
                 for h in handlers.get("rtprocessing_queuehandler", []):
@@ -1180,6 +1191,7 @@ class RTprocess(object):
                     h.close()
                     # remove the file-handler from the log
                     log.handlers.remove(h)
+                    logging.getLogger("py.warnings").removeHandler(h)
 
     def _run_finalout(
         self,
-- 
2.43.0


From 2b8f77de6ca13ce674c18472a3456425b339543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:32 +0000
Subject: [PATCH 101/106] fix: combined group-index of many parameters exceeded
 the range of 64-bit integers

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index ba28201..6aa7797 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -735,7 +735,9 @@ class Fits(Scatter):
                 conclist = list(map(partial(doit, N=maxdict[key]), val))
             else:
                 conclist = map(add, conclist, map(partial(doit, N=maxdict[key]), val))
-        return np.array(list(map(int, conclist)))
+        # (use python-integers if the digits do not fit into 64-bit integers)
+        dtype = object if sum(maxdict.values()) > 18 else None
+        return np.array(list(map(int, conclist)), dtype=dtype)
 
     @property
     @lru_cache()
-- 
2.43.0


From 63028137f2e847e302749f55f7543d23c42b9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 102/106] fix: numpy-scalars as values of constant parameters

---
 rt1/rtfits.py  | 8 +++++---
 rt1/rtplots.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 6aa7797..a140e00 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1071,7 +1071,9 @@ class Fits(Scatter):
             elif val[0] is False:
                 # treat parameters that are intended to be constants
                 # if value is provided as a scalar, insert it in the definition
-                if isinstance(val[1], (int, float)) and not isinstance(val[1], bool):
+                if isinstance(val[1], np.number):
+                    setdict[key] = val[1].item()
+                elif isinstance(val[1], (int, float)) and not isinstance(val[1], bool):
                     setdict[key] = val[1]
                 else:
                     # if value is provided as array, add it to fixed_dict
@@ -2182,7 +2184,7 @@ class Fits(Scatter):
 
         def checkval(key, val):
             # check if val is a number (or not specified), if yes use it directly
-            if val is None or isinstance(val, (int, float, np.ndarray)):
+            if val is None or isinstance(val, (int, float, np.number, np.ndarray)):
                 useval = val
             # check if val is directly provided in setdict, if yes use it
             # (e.g. this means the key is simply another name for a parameter
@@ -2595,7 +2597,7 @@ class Fits(Scatter):
             if val[0] is False:
                 if val[1] == "auxiliary":
                     auxiliary += [f"| {key}"]
-                elif isinstance(val[1], (int, float)):
+                elif isinstance(val[1], (int, float, np.number)):
                     fixed += [f" {key:<13}= {val[1]}"]
 
         # print V and SRF definitions
diff --git a/rt1/rtplots.py b/rt1/rtplots.py
index a4efa2c..4ae425d 100644
--- a/rt1/rtplots.py
+++ b/rt1/rtplots.py
@@ -2430,7 +2430,7 @@ class plot:
                 else:
                     startparams[key] = val[1]
             if val[0] is False:
-                if isinstance(val[1], (int, float)):
+                if isinstance(val[1], (int, float, np.number)):
                     # don't add constants to startparams (they are
                     # directly inserted into the functions)
                     # startparams[key] = val[1]
-- 
2.43.0


From c382b32d06a937ff9122973b34c72ceb64129888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:46 +0000
Subject: [PATCH 103/106] fix: store numpy-values of definitions such that they
 can be restored from result-files

---
 rt1/general_functions.py | 27 +++++++++++++++++++++++++++
 rt1/rtfits.py            |  4 +++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index b673b3c..beee08d 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -422,3 +422,30 @@ def chunkit(arr, chunk_size=10000):
         num_chunks += 1
     for i in range(num_chunks):
         yield arr[i * chunk_size : (i + 1) * chunk_size]
+
+
+def to_builtins(val):
+    """
+    recursively replace numpy-scalars and -arrays by the corresponding
+    built-in python objects
+
+    Parameters
+    ----------
+    val : any
+        the value (or a dict, list or tuple of values) to convert.
+
+    Returns
+    -------
+    any
+        the converted value.
+
+    """
+    if isinstance(val, np.ndarray):
+        return val.tolist()
+    elif isinstance(val, np.generic):
+        return val.item()
+    elif isinstance(val, dict):
+        return {to_builtins(key): to_builtins(i) for key, i in val.items()}
+    elif type(val) in (list, tuple):
+        return type(val)(map(to_builtins, val))
+    return val
diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index a140e00..ee64d7d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -16,6 +16,7 @@ from .rt1 import RT1, _init_lambda_backend
 from .general_functions import (
     meandatetime,
     rectangularize,
+    to_builtins,
     split_into,
     update_progress,
     groupby_unsorted,
@@ -2800,7 +2801,8 @@ class Fits(Scatter):
             "lsq_kwargs": self.lsq_kwargs,
             "int_Q": self.int_Q,
         }
-        return args
+        # numpy-types can not be restored from their string-representation
+        return to_builtins(args)
 
     def reinit_object(self, share_fnevals=False, share_auxdata=True, **kwargs):
         """
-- 
2.43.0


From 1bf9f294505b6dbe03ebcacbd200c68ac600d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 104/106] fix: model-definition summaries of integer-valued
 definitions and odd numbers of least-squares settings

---
 rt1/rtfits.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index ee64d7d..7b2302d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2579,7 +2579,8 @@ class Fits(Scatter):
         for key, val in self.defdict.items():
             if val[0] is True:
                 name = f"{key:<13}"
-                star = f"{val[1]:.10}".ljust(13)
+                start = val[1] if isinstance(val[1], str) else float(val[1])
+                star = f"{start:.10}".ljust(13)
 
                 if val[2] is not None:
                     freqs = map(str.strip, str(val[2]).split("+"))
@@ -2587,7 +2588,7 @@ class Fits(Scatter):
                 else:
                     vari = "      -       "
 
-                boun = (f"{val[3][0][0]:.5}" + "-" + f"{val[3][1][0]:.5}").ljust(13)
+                boun = "-".join(f"{float(i[0]):.5}" for i in val[3]).ljust(13)
                 try:
                     inte = f"{str(val[4]):<14}"
                 except IndexError:
@@ -2700,14 +2701,12 @@ class Fits(Scatter):
         keys = [*lsqkw.keys()]
         if len(lsqkw) > 0:
             outstr += "\n\n# LSQ PARAMETERS " + "\n"
-            for key1, key2 in zip(
-                keys[: (len(keys) + 1) // 2], keys[(len(keys) + 1) // 2 :]
-            ):
-                outstr += (
-                    f" {key1:<15}= {lsqkw[key1]}".ljust(37)
-                    + f"  {key2:<15}= {lsqkw[key2]}"
-                    + "\n"
-                )
+            ncol = (len(keys) + 1) // 2
+            for i, key1 in enumerate(keys[:ncol]):
+                outstr += f" {key1:<15}= {lsqkw[key1]}".ljust(37)
+                for key2 in keys[ncol + i : ncol + i + 1]:
+                    outstr += f"  {key2:<15}= {lsqkw[key2]}"
+                outstr += "\n"
             outstr += "-" * 77
         if self.dataset is not None:
             try:
-- 
2.43.0


From 2772564bbd7e19746cd1cf6f387daaef21bb2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 105/106] fix: restore the signal-handlers after a processing
 run

---
 rt1/_rtprocess_writer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index d240d27..b6e8b47 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -542,6 +542,8 @@ class RT1_processor(object):
     @classmethod
     @contextmanager
     def writer_pool(cls, init_func=None, init_args=None, *args, **kwargs):
+        # the handlers are replaced during processing (e.g. in the init-function)
+        handlers = {i: signal.getsignal(i) for i in (signal.SIGINT, signal.SIGTERM)}
         try:
             w = cls(*args, **kwargs)
             manager = w._setup_manager()
@@ -552,7 +554,13 @@ class RT1_processor(object):
 
             yield w
         finally:
-            w.stop(writer, combiner, manager)
+            try:
+                w.stop(writer, combiner, manager)
+            finally:
+                for signum, handler in handlers.items():
+                    # (None indicates a handler that was not set by python)
+                    if handler is not None:
+                        signal.signal(signum, handler)
 
     def start_print_thread(self):
         # start the timer for estimating the processing-time
-- 
2.43.0


From 5de63095635dd5ee0266c94fca06e6b74b3c770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:58 +0000
Subject: [PATCH 106/106] fix: repeated final-outputs of fits whose identifier
 contains a dot

The identifiers have been cut at the first dot to find already
exported fits, e.g. fits have been exported repeatedly (or not at all).
---
 rt1/rtprocess.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 2ceaa79..7762cd0 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1,6 +1,7 @@
 import multiprocessing as mp
 from datetime import datetime
 from itertools import repeat, islice
+import os
 import sys
 import traceback
 from textwrap import dedent
@@ -1246,6 +1247,7 @@ class RTprocess(object):
                     repeat(use_config),
                     repeat(postprocess),
                 ],
+                ID_getter=self._get_finalout_ID,
             )
 
         if create_index:
@@ -1256,6 +1258,18 @@ class RTprocess(object):
 
         return res
 
+    @staticmethod
+    def _get_finalout_ID(reader_arg):
+        # the ID of a stored fit (or the path to the dump-file of a fit)
+        ID = str(reader_arg["ID"])
+        if ID.endswith(".dump"):
+            ID = ID.split(os.sep)[-1][: -len(".dump")]
+
+        if not isidentifier(ID) and not ID.startswith("RT1_"):
+            return f"RT1_{ID}"
+        else:
+            return ID
+
     def _finalout_reader(self, reader_arg, use_config=None):
         ID = reader_arg["ID"]
         # load fitobjects based on IDs
-- 
2.43.0

