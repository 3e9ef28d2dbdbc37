From 7495860255a8bd5678d38ff593bbbf85367c3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 01/18] fix: return the European value when no critical price
 exists in RGW

The value was computed and then discarded by a ValueError, which also made
volatility() fail for most inputs.
---
 src/finoptions/basic_american_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 50b60bc..1765425 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -134,7 +134,7 @@ class RollGeskeWhaleyOption(_Option):
             result = _GBSOption(
                 Sx, self._K, self._t, self._r, b=self._r, sigma=self._sigma
             ).call()
-            raise ValueError("HighS > big setting")
+            return result
 
         LowS = 0
         I = HighS * 0.5
-- 
2.43.0


From e9555924f44412a220477210da60f54a5af97b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 02/18] fix: relative performance payoff is (Q1*S1)/(Q2*S2) as
 documented

---
 src/finoptions/spread_options/bitree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index bbaafd2..428bb13 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -219,7 +219,7 @@ class BionomialSpreadAllTypes(_Option):
         elif option == 7: # Exchange option
             return _np.maximum(0, z*(Q2*S2 - Q1*S1))
         elif option == 8: # Outperformance option
-            return _np.maximum(0, z*((Q1*S1 / Q2*S2) - K))
+            return _np.maximum(0, z*(((Q1*S1) / (Q2*S2)) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
         
-- 
2.43.0


From 05d941900d8aa8fa41de914ed402e4dc27f61ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 03/18] fix: rho and greeks accept an array cost of carry

The b == 0 test raised 'truth value of an array is ambiguous' for array b.
---
 src/finoptions/vanillaoptions.py | 34 +++++++++++++-------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 0479872..96ba8ca 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -300,31 +300,25 @@ class GBSOption(Option):
         if method == "analytic":
             if call == True:
                 price = self.call()
-                if self._b != 0:
-                    result = (
-                        self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(self._d2)
+                )
             else:
                 price = self.put()
-                if self._b != 0:
-                    result = (
-                        -self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(-self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    -self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(-self._d2)
+                )
 
-            return result
+            return _np.where(self._b != 0, result, -self._t * price)[()]
         elif method == "fdm":
             # This only works if the cost to carry b is zero....
-            if self._b == 0:
+            if _np.all(self._b == 0):
                 return self._greeks.rho(call=call)
             else:
                 raise ValueError(
-- 
2.43.0


From e0f6b6fb0566b85fe20823a6ad7a61b377f6a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 04/18] fix: Monte Carlo trace prints the running mean, not
 total / (i + 1)

---
 src/finoptions/monte_carlo_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index acd98fb..a1bad93 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -293,7 +293,7 @@ class MonteCarloOption:  # _Option
                 i,
                 "\t:",
                 iteration[i],
-                _np.sum(iteration) / (i + 1),
+                _np.sum(iteration[: i + 1]) / (i + 1),
                 end="",
             )
         print("\n")
-- 
2.43.0


From d5719de8886f6fdacc344fe2857ae39a24ddf07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 05/18] fix: redraw Sobol innovations that contain -inf as well
 as +inf

---
 src/finoptions/monte_carlo_options/mc_innovations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/mc_innovations.py b/src/finoptions/monte_carlo_options/mc_innovations.py
index a1e356e..d2d6793 100644
--- a/src/finoptions/monte_carlo_options/mc_innovations.py
+++ b/src/finoptions/monte_carlo_options/mc_innovations.py
@@ -35,7 +35,7 @@ class NormalSobolInnovations(Innovations):
         sobol = self._get_sobol(scramble)
 
         # avoid inf
-        while _np.abs(_np.max(sobol)) == _np.inf:
+        while not _np.all(_np.isfinite(sobol)):
             sobol = self._get_sobol(scramble)
 
         if self._eps is None:
-- 
2.43.0


From 4b060ede84def854b0ae765cf2af9795908565a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 06/18] fix: symmetric=True drops gamma from the HN-GARCH
 likelihood

~True is truthy, so the symmetric filter kept using gamma while hngarch_fit
reported gamma = 0 together with h, z and a likelihood for gamma != 0.
---
 src/finoptions/heston_nandi_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index dcd5431..2709d6c 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -259,7 +259,7 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     beta = 1 / (1 + _np.exp(-beta))
 
     # Add gamma if selected:
-    if ~symmetric:
+    if not symmetric:
         gam = gamma
     else:
         gam = 0
-- 
2.43.0


From 6a39f73792b41f7233f240b6d350c89bfba460dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 07/18] fix: spread and TIAN tree options report their own
 class name and title

---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 src/finoptions/spread_options/bitree3d.py        | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index b2010f1..fbec3b5 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -504,6 +504,9 @@ class TIANBinomialTreeOption(CRRBinomialTreeOption):
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
 
+    __name__ = "TIANBinomialTreeOption"
+    __title__ = "TIAN Binomial Tree Model"
+
     def _calc_price(self, z, n, type, tree=False):
         dt = self._t / n
         M = _np.exp(self._b * dt)
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index 428bb13..fe44412 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -110,7 +110,7 @@ class BionomialSpreadAllTypes(_Option):
     ----------
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
-    __name__ = "BionomialSpreadOption"
+    __name__ = "BionomialSpreadAllTypes"
     __title__ = "Rubinstein Binomial Tree Spread Option Model"
 
     def __init__(
@@ -745,7 +745,7 @@ class BionomialSpreadOption(BionomialSpreadAllTypes):
     >>> opt.put()
     >>> opt.greeks(call=True)
     """
-    __name__ = "BionomialMinOption"
+    __name__ = "BionomialSpreadOption"
     __title__ = "Binomial Tree Spread Option Model"
 
     def __init__(
-- 
2.43.0


From 44b24e7f0b25f0a00c1f5c738a1345a3c58b568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 08/18] fix: let the BAW critical-price iteration end for b
 slightly below r

The approximate Newton slope cycles for ever there; after 50 steps use the
exact slope. Results of calls that already converged are unchanged.
---
 src/finoptions/basic_american_options/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 1765425..6eda185 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -437,7 +437,11 @@ class BAWAmericanApproxOption(_Option):
         E = 0.000001
 
         # Newton Raphson algorithm for finding critical price Si
+        iters = 0
         while abs(LHS - RHS) / self._K > E:
+            # The approximate slope below can cycle; the exact one has the density.
+            iters += 1
+            slope = self._CND if iters <= 50 else self._NDF
             Si = (self._K + RHS - bi * Si) / (1 - bi)
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
@@ -452,7 +456,7 @@ class BAWAmericanApproxOption(_Option):
                 + (
                     1
                     - _np.exp((self._b - self._r) * self._t)
-                    * self._CND(d1)
+                    * slope(d1)
                     / (self._sigma * _np.sqrt(self._t))
                 )
                 / Q2
-- 
2.43.0


From d72e15f1cfd721fd26739f706a7251e18fdb68e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 09/18] fix: bivariate normal of NaN is NaN, not None

Finite differences step S below zero for low-priced stocks; the None made
RollGeskeWhaley delta, gamma and lamb raise TypeError.
---
 src/finoptions/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 713d069..c621ad4 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -127,6 +127,8 @@ class _Base(ABC):
             result = self._CBND(a, 0, rho1) + self._CBND(b, 0, rho2) - delta
             return result
 
+        return _np.nan  # an argument is NaN
+
 
 class Derivative(_Base):
     pass
-- 
2.43.0


From 8d1ea6121a130033e0f2606ee0b6fbd1e1ad6a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 10/18] fix: Black76 delta, gamma and lamb work with
 method='fdm'

GreeksFDM bumps "S", which Black76Option.set_param passed on to __init__.
---
 src/finoptions/vanillaoptions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 96ba8ca..95b2f5e 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -581,6 +581,9 @@ class Black76Option(GBSOption):
         None
         """
 
+        if x == "S":  # the finite difference greeks bump "S"
+            x = "FT"
+
         tmp = self.get_params()
         tmp[x] = value
 
-- 
2.43.0


From 38beb67437995456193686e1d05b12bf9dec9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 11/18] fix: hngarch_sim does not truncate the series for
 integer innovations

---
 src/finoptions/heston_nandi_options/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 2709d6c..5aeedee 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -419,6 +419,7 @@ def hngarch_sim(lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma = 0,
         x = _np.concatenate((inno_start, inno))
     else:
         x = inno.copy()
+    x = _np.asarray(x, dtype=float)  # integer innovations would truncate the series
     h = x.copy()
     Z = x.copy()
     
-- 
2.43.0


From bf7ab18059867c5cb46ac9722b7e76b1470531ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 12/18] fix: Monte Carlo tracing does not fail when a loop
 returned Inf

---
 src/finoptions/monte_carlo_options/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index a1bad93..1712c26 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -284,6 +284,8 @@ class MonteCarloOption:  # _Option
         return iteration
 
     def _print_trace(self, iteration):
+        if isinstance(iteration, tuple):
+            return  # a loop returned Inf: there are no loop means to print
         print("\nMonte Carlo Simulation Path:\n\n")
         print("\nLoop:\t", "No\t")
 
-- 
2.43.0


From d59a4ee5b723da2a4ec32a9558fb6946577ef808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 13/18] fix: keep the BAW critical price iteration inside its
 bracket

---
 .../basic_american_options/__init__.py        | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 6eda185..d4cfce3 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -413,7 +413,7 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (Su - self._K)
         )
-        Si = self._K + (Su - self._K) * (1 - _np.exp(h2))
+        Si = self._K + (Su - self._K) * (1 - _np.exp(min(h2, 0)))
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
@@ -438,11 +438,19 @@ class BAWAmericanApproxOption(_Option):
 
         # Newton Raphson algorithm for finding critical price Si
         iters = 0
-        while abs(LHS - RHS) / self._K > E:
+        low, high = self._K, _np.inf
+        while abs(LHS - RHS) / self._K > E and high - low > 1e-12 * low:
             # The approximate slope below can cycle; the exact one has the density.
             iters += 1
             slope = self._CND if iters <= 50 else self._NDF
+            if LHS < RHS:
+                low = Si
+            else:
+                high = Si
             Si = (self._K + RHS - bi * Si) / (1 - bi)
+            # a step out of the bracket (even below zero) would not come back
+            if not low < Si < high:
+                Si = 2 * low if high == _np.inf else (low + high) / 2
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
             ) / (self._sigma * _np.sqrt(self._t))
@@ -478,7 +486,7 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (self._K - Su)
         )
-        Si = Su + (self._K - Su) * _np.exp(h1)
+        Si = Su + (self._K - Su) * _np.exp(min(h1, 0))
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
@@ -502,8 +510,16 @@ class BAWAmericanApproxOption(_Option):
         E = 0.000001
 
         # Newton Raphson algorithm for finding critical price Si
-        while abs(LHS - RHS) / self._K > E:
+        low, high = 0, self._K
+        while abs(LHS - RHS) / self._K > E and high - low > 1e-12 * self._K:
+            if LHS < RHS:
+                high = Si
+            else:
+                low = Si
             Si = (self._K - RHS + bi * Si) / (1 + bi)
+            # a step out of the bracket (even below zero) would not come back
+            if not low < Si < high:
+                Si = (low + high) / 2
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
             ) / (self._sigma * _np.sqrt(self._t))
-- 
2.43.0


From 1d64a57edb45bb02ccc004128ebc0bacb9513fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 14/18] fix: RGW critical price search ends for a stock price
 of zero

---
 src/finoptions/basic_american_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index d4cfce3..e8518a0 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -119,7 +119,7 @@ class RollGeskeWhaleyOption(_Option):
 
         HighS = self._S
 
-        while (ci - HighS - self._D + self._K > 0) & (HighS < self._big):
+        while (ci - HighS - self._D + self._K > 0) & (0 < HighS < self._big):
             HighS = HighS * 2
             ci = _GBSOption(
                 HighS,
-- 
2.43.0


From fe9b68babd1ba2b33ddfb5c4062ab6212f51455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:53 +0000
Subject: [PATCH 15/18] fix: report a fit's likelihood at its estimate, not at
 the optimiser's last step

---
 src/finoptions/heston_nandi_options/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 5aeedee..741688e 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -328,14 +328,14 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     # Estimate Parameters:
     res = _minimize(_llhHNGarch, par_start, args=(trace, symmetric, rfr, x), method='L-BFGS-B', **kw_nlm)
 
-    # Log-Likelihood:
-    opt['minimum'] = -res.fun + len(x)*_np.sqrt(2*_np.pi)
     # opt['params'] = params
     # opt['symmetric'] = symmetric
     opt['estimate'] = res.x
 
     # LLH, h, and z for Final Estimates:
     final = _llhHNGarch(opt['estimate'], trace = False, symmetric=symmetric, rfr=rfr, x=x, ret_obj=True)
+    # (res.fun can be NaN, of a last step out of the stationary region)
+    opt['minimum'] = -final.llhHNGarch + len(x)*_np.sqrt(2*_np.pi)
     opt['h'] = final.h
     opt['z'] = final.z
 
-- 
2.43.0


From 1e1b213f1a2eddf5ce95caca967bc7eb4e0ac95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:53 +0000
Subject: [PATCH 16/18] fix: accuracy of the Roll-Geske-Whaley search relative
 to the strike

---
 src/finoptions/basic_american_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index e8518a0..537836e 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -84,7 +84,7 @@ class RollGeskeWhaleyOption(_Option):
 
         # Settings:
         self._big = 100000000
-        self._eps = 1.0e-5
+        self._eps = 1.0e-7 * self._K
 
         self._greeks = GreeksFDM(self)
 
-- 
2.43.0


From 0021336f61631f3fdde2495461b729624ccdf2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 17/18] fix: hngarch_fit raised IndexError for
 symmetric=numpy.True_

---
 src/finoptions/heston_nandi_options/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 741688e..fb06416 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -312,9 +312,8 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     par_omega = -_np.log((1-omega)/omega)  # for 2
     par_alpha = -_np.log((1-alpha)/alpha)  # for 3
     par_beta = -_np.log((1-beta)/beta)     # for 4
-    par_start = [lamb, par_omega, par_alpha, par_beta]
-    if ~symmetric:
-        par_start.append(gam)
+    # (gam is not used, and reported as 0, if symmetric)
+    par_start = [lamb, par_omega, par_alpha, par_beta, gam]
 
     # Initial Log Likelihood:
     opt = dict()
-- 
2.43.0


From 421bd4b4d3be293ee39f790c17e50ee031f9be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 18/18] fix: hngarch_fit could return a non-stationary model
 with a NaN likelihood

---
 src/finoptions/heston_nandi_options/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index fb06416..f834fc8 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -324,8 +324,13 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
         print(lamb, omega, alpha, beta, gam)
         print(opt['value'])
     
+    def _step(x0, *args):
+        value = _llhHNGarch(x0, *args)
+        # without a stationary variance: not a step to take
+        return 1e10 if _np.isnan(value) else value
+
     # Estimate Parameters:
-    res = _minimize(_llhHNGarch, par_start, args=(trace, symmetric, rfr, x), method='L-BFGS-B', **kw_nlm)
+    res = _minimize(_step, par_start, args=(trace, symmetric, rfr, x), method='L-BFGS-B', **kw_nlm)
 
     # opt['params'] = params
     # opt['symmetric'] = symmetric
-- 
2.43.0

