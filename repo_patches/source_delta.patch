From 7f4bcd2a913bd8a652d896d6f61fecbce599399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 01/97] fix: first guess of the C Kepler solver used the sign
 of a truncated sine

sign() took an int, so sin(M) was truncated to zero and the documented first
guess M + sign(sin M) k e was never used; for a NaN mean anomaly the
conversion was undefined behaviour.
---
 src/kepler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kepler.c b/src/kepler.c
index 6fdf4e2..5226f34 100644
--- a/src/kepler.c
+++ b/src/kepler.c
@@ -2,7 +2,7 @@
 #include <math.h>
 #include <stdlib.h>
 
-int sign(int x) {
+int sign(double x) {
   return (x > 0) - (x < 0);
 }
 
-- 
2.43.0


From 52f65da9692f38dd8286e898114912d11ac38058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 02/97] fix: C Kepler solver ended the whole process when it
 did not converge

A sampler or fit must not be killed by one set of elements: return NaN
instead of calling exit(). The tolerance is never tighter than the rounding
error of M, so that large mean anomalies converge.
---
 src/kepler.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kepler.c b/src/kepler.c
index 5226f34..e9dbe0f 100644
--- a/src/kepler.c
+++ b/src/kepler.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <float.h>
 #include <math.h>
 #include <stdlib.h>
 
@@ -19,7 +20,8 @@ double kepler(double M, double e);
 double kepler(double M, double e)
 {
   int MAX_ITER = 30;
-  double CONV_TOL = 1.0e-12; // convergence criterion
+  // convergence criterion: no tighter than the rounding error of M
+  double CONV_TOL = fmax(1.0e-12, 4 * DBL_EPSILON * fabs(M));
 
   double k, E, fi, d1, fip, fipp, fippp;
   int count;
@@ -48,11 +50,11 @@ double kepler(double M, double e)
       fi  = (E - e * sin(E) - M);
       // printf("E =  %f, count = %i\n", E , count); //debugging
 
-      if(count==MAX_ITER){
-	printf("Error: kepler step not converging after %d steps.\n", MAX_ITER);
-	printf("E=%f,  M=%f,  e=%f\n", E, M, e);
-	exit(-1);
-      }
+    }
+  if ( fabs(fi) > CONV_TOL )
+    {
+      // not converging (e.g. no elliptical orbit): no solution to offer
+      return NAN;
     }
   return E;
 }
-- 
2.43.0


From 350515654901bb53ff576738ce4e45c25fb02c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 03/97] fix: Python Kepler solver looped for ever on large mean
 anomalies

The fixed tolerance of 1e-12 lies below the rounding error once |M| exceeds a
few thousand, so the iteration never ended. Bound the tolerance from below by
the rounding error and cap the iterations as the C solver does.
---
 radvel/kepler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/radvel/kepler.py b/radvel/kepler.py
index b7367f5..a46c94e 100644
--- a/radvel/kepler.py
+++ b/radvel/kepler.py
@@ -72,7 +72,9 @@ def kepler(Marr, eccarr):
         array: eccentric anomaly
     """
 
-    conv = 1.0e-12  # convergence criterion
+    # convergence criterion: no tighter than the rounding error of Marr
+    conv = np.maximum(1.0e-12, 4 * np.finfo(float).eps * np.abs(Marr))
+    max_iter = 30
     k = 0.85
 
     Earr = Marr + np.sign(np.sin(Marr)) * k * eccarr  # first guess at E
@@ -82,7 +84,7 @@ def kepler(Marr, eccarr):
     nd = len(convd)  # number of unconverged elements
     count = 0
 
-    while nd > 0:  # while unconverged elements exist
+    while nd > 0 and count < max_iter:  # while unconverged elements exist
         count += 1
 
         M = Marr[convd]  # just the unconverged elements ...
@@ -104,6 +106,10 @@ def kepler(Marr, eccarr):
         convd = np.abs(fiarr) > conv  # test for convergence
         nd = np.sum(convd)
 
+    if nd > 0:
+        # not converging (e.g. no elliptical orbit): no solution to offer
+        Earr[convd] = np.nan
+
     if Earr.size > 1:
         return Earr
     else:
-- 
2.43.0


From ec4c3c3c21c28017429bfd12288eb8458ccdbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 04/97] fix: Python Kepler solver returned a scalar for one
 time and failed for none

The documented array is now returned for every length, as the C solver does.
---
 radvel/kepler.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/radvel/kepler.py b/radvel/kepler.py
index a46c94e..45f4823 100644
--- a/radvel/kepler.py
+++ b/radvel/kepler.py
@@ -110,10 +110,7 @@ def kepler(Marr, eccarr):
         # not converging (e.g. no elliptical orbit): no solution to offer
         Earr[convd] = np.nan
 
-    if Earr.size > 1:
-        return Earr
-    else:
-        return Earr[0]
+    return Earr
 
 
 def profile():
-- 
2.43.0


From c74877c49dc4ff7878228dc8076d542addf681ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 05/97] fix: rv_drive rejected integer and single-precision
 times with the C solver

---
 radvel/kepler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/kepler.py b/radvel/kepler.py
index 45f4823..90e8069 100644
--- a/radvel/kepler.py
+++ b/radvel/kepler.py
@@ -33,6 +33,7 @@ def rv_drive(t, orbel, use_c_kepler_solver=cext):
 
     # unpack array of parameters
     per, tp, e, om, k = orbel
+    t = np.asarray(t, dtype=float)
 
     # Performance boost for circular orbits
     if e == 0.0:
-- 
2.43.0


From 29d2f87cb1f0a41fa6a177166d4e182efd82d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 06/97] fix: secondary eclipse time failed for arrays and could
 fall one period late

Scalars always got 2 pi added, also when the eccentric anomaly was positive
already; arrays raised a shape mismatch.
---
 radvel/orbit.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/radvel/orbit.py b/radvel/orbit.py
index 281ea81..4cf4881 100644
--- a/radvel/orbit.py
+++ b/radvel/orbit.py
@@ -56,10 +56,7 @@ def timeperi_to_timetrans(tp, per, ecc, omega, secondary=False):
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
 
         # ensure that ee is between 0 and 2*pi (always the eclipse AFTER tp)
-        if isinstance(ee, np.float64):
-            ee = ee + 2 * np.pi
-        else:
-            ee[ee < 0.0] = ee + 2 * np.pi
+        ee = np.mod(ee, 2 * np.pi)
     else:
         f = np.pi/2 - omega                                         # true anomaly during transit
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
-- 
2.43.0


From c6f19473ab471d5add40ca96fc5d0af2f1c6cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 07/97] fix: PositiveKPrior excluded K < 1 in bases that use
 logk

The index dictionary knows k and logk of every planet under the same index,
so the KeyError never came and log(K) was taken for K.
---
 radvel/prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 5bd5754..25809b8 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -174,9 +174,9 @@ class PositiveKPrior(Prior):
             return vector.vector[vector.indices['{}{}'.format(key, num_planet)]][0]
 
         for num_planet in range(1, self.num_planets+1):
-            try:
+            if 'k' in params.basis.name.split():
                 k = _getpar('k', num_planet)
-            except KeyError:
+            else:
                 k = np.exp(_getpar('logk', num_planet))
 
             if k < 0.0:
-- 
2.43.0


From f1d60eca18bdb4bd8b430a600cabc69dd993b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 08/97] fix: SecondaryEclipsePrior could not be used in nested
 sampling

It is an extra constraint, which Posterior.extra_likelihood calls with
finite=True; the argument was missing. Its value is always finite.
---
 radvel/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 25809b8..407f320 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -280,7 +280,7 @@ class SecondaryEclipsePrior(Prior):
         self.ts = ts
         self.ts_err = ts_err
 
-    def __call__(self, params, vector):
+    def __call__(self, params, vector, finite=False):
         def _getpar(key):
             return synth_params[vector.indices['{}{}'.format(key, self.planet_num)]][0]
 
-- 
2.43.0


From 752691f067aaa5b61ff549d83c1212a87f772c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 09/97] fix: SecondaryEclipsePrior took eclipses next to the
 phase origin for a period apart

---
 radvel/prior.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 407f320..f52d04e 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -297,7 +297,11 @@ class SecondaryEclipsePrior(Prior):
         pts = utils.t_to_phase_vector(vector, self.ts, self.planet_num)
         epts = self.ts_err / per
 
-        penalty = -0.5 * ((ts_phase - pts) / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
+        # the phase is periodic: take the difference to the nearest eclipse
+        dphase = ts_phase - pts
+        dphase -= np.round(dphase)
+
+        penalty = -0.5 * (dphase / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
 
         return penalty
 
-- 
2.43.0


From b7527e38106f66d1aff0a259b03052d0c788a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 10/97] fix: EccentricityPrior failed for integer or numpy
 scalar arguments

---
 radvel/prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index f52d04e..d0d0dc6 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -98,14 +98,14 @@ class EccentricityPrior(Prior):
 
     def __init__(self, num_planets, upperlims=0.99):
 
-        if type(num_planets) == int:
+        if np.ndim(num_planets) == 0:
             self.planet_list = range(1, num_planets+1)
             npl = num_planets
         else:
             self.planet_list = num_planets
             npl = len(self.planet_list)
 
-        if type(upperlims) == float:
+        if np.ndim(upperlims) == 0:
             self.upperlims = [upperlims] * npl
         else:
             assert len(upperlims) == len(self.planet_list), "Number of eccentricity \
-- 
2.43.0


From 47f97d456efb65153463a079674f287be4e73c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 11/97] fix: GP likelihood raised AttributeError for kernels
 that are not positive definite

np.linalg.linalg no longer exists in numpy 2, so the handler that should
return -inf failed itself.
---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6f41f9a..49e959c 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -508,7 +508,7 @@ class GPLikelihood(RVLikelihood):
 
             return like
 
-        except (np.linalg.linalg.LinAlgError, ValueError):
+        except (np.linalg.LinAlgError, ValueError):
             warnings.warn("Non-positive definite kernel detected.", RuntimeWarning)
             return -np.inf
 
-- 
2.43.0


From eca8eaa1a4e9835d065fd18c3c58b0a808400dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 12/97] fix: nested-sampling likelihood was -inf or nan where
 the likelihood is

Only the extra constraints were checked, e.g. a GP kernel that is not positive
definite still returned -inf, which Ultranest refuses.
---
 radvel/posterior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 654e2b7..aa3a56c 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -171,7 +171,9 @@ class Posterior(Likelihood):
         self.likelihood.set_vary_params(param_values_array, fast=True)
         extra_likelihood = self.extra_likelihood()
         if np.isfinite(extra_likelihood):
-            return extra_likelihood + self.likelihood.logprob()
+            loglike = extra_likelihood + self.likelihood.logprob()
+            if np.isfinite(loglike):
+                return loglike
         # Ultranest requires finite values, so return very large negative instead of -inf
         return -1e100
 
-- 
2.43.0


From 0b92af4e29cfff6df0909db6ed7ae58c01dc6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 13/97] fix: nested sampling silently ignored numerical and
 user-defined priors

They keep their parameter in param_list, so get_prior_dict() skipped them: a
model was sampled without them, or refused although the prior has a transform.
Priors on several parameters at once, which have no transform, are refused.
---
 radvel/posterior.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index aa3a56c..c6d48b2 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -59,7 +59,11 @@ class Posterior(Likelihood):
             try:
                 param = prior.param
             except AttributeError:
-                continue
+                # NumericalPrior and UserDefinedPrior carry a list of parameters
+                param_list = getattr(prior, 'param_list', [])
+                if len(param_list) != 1:
+                    continue
+                param = param_list[0]
             if param not in prior_dict:
                 prior_dict[param] = [prior]
             else:
@@ -73,6 +77,12 @@ class Posterior(Likelihood):
         """
         vary_params = self.name_vary_params()
         prior_dict = self.get_prior_dict()
+        for prior in self.priors:
+            if not prior.extra_constraint and not any(prior in plist for plist in prior_dict.values()):
+                raise ValueError(
+                    "Prior is not defined on a single parameter and has no prior transform: {}. "
+                    "Not supported for nested sampling.".format(prior.__repr__())
+                )
         for pname in vary_params:
             prior_list = prior_dict.get(pname, [])
             num_priors = len(prior_list)
-- 
2.43.0


From af762b3810d86a87ef210708c8e36322859833a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 14/97] fix: Basis.from_synth renamed the conversion object
 itself

For most target bases self.name and self.params were overwritten, so the basis
of the *input* parameters claimed to be the new one and any further conversion
or model evaluation with them was wrong.
---
 radvel/basis.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 0d3a786..11c0848 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -602,9 +602,6 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                # basis_name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -626,9 +623,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -652,9 +646,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -679,9 +670,6 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc ecosw esinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -703,9 +691,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tp e w logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -726,9 +711,6 @@ class Basis(object):
                     _delpar('per')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
-- 
2.43.0


From b5603b7be477eeb4c6d76927e50ab7598444e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 15/97] fix: tables of samples could not be converted into most
 bases

DataFrames have no planet_parameters, and removing the old columns
(keep=False) looked for a row of that name and dropped its result.
---
 radvel/basis.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 11c0848..446598d 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -538,11 +538,17 @@ class Basis(object):
                                                                   vary=local_vary,
                                                                   mcmcscale=local_mcmcscale)
 
+            def _haspar(key):
+                if isinstance(params_in, pd.core.frame.DataFrame):
+                    return '{}{}'.format(key, num_planet) in params_in
+                else:
+                    return key in params_in.planet_parameters
+
             def _delpar(key):
                 if isinstance(params_in, OrderedDict):
                     del params_out['{}{}'.format(key, num_planet)]
                 elif isinstance(params_in, pd.core.frame.DataFrame):
-                    params_out.drop('{}{}'.format(key, num_planet))
+                    params_out.drop(columns='{}{}'.format(key, num_planet), inplace=True)
 
             if newbasis == 'per tc e w k':
                 per = _getpar('per')
@@ -584,7 +590,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -607,7 +613,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -628,7 +634,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -651,7 +657,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -675,7 +681,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -696,7 +702,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
-- 
2.43.0


From ba3fa63415df4e460b39b6651bc99de4268b6340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 16/97] fix: conversion to 'logper tp e w logk' left a time of
 transit behind

The surplus tc shares its place in the parameter vector with tp, so a model
built from the converted parameters took it for the time of periastron.
---
 radvel/basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/basis.py b/radvel/basis.py
index 446598d..3ff0cc3 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -715,6 +715,7 @@ class Basis(object):
 
                 if not kwargs.get('keep', True):
                     _delpar('per')
+                    _delpar('tc')
                     _delpar('k')
 
         with warnings.catch_warnings():
-- 
2.43.0


From f503c9038e0dd2954c4d9f1794fca769495adab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 17/97] fix: to_any_basis kept the parameters of the old basis

They share their places in the parameter vector with the new ones, so after
converting there and back a model was evaluated with stale values.
---
 radvel/basis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/radvel/basis.py b/radvel/basis.py
index 3ff0cc3..611d0a8 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -115,6 +115,14 @@ class Basis(object):
         """
         synth_params = self.to_synth(params_in)
         arbbasis_params = self.from_synth(synth_params, newbasis, keep=False)
+
+        # drop what is left of the old basis
+        for num_planet in range(1, 1+self.num_planets):
+            for key in set(self.params + self.synth_params).difference(newbasis.split()):
+                key_name = '{}{}'.format(key, num_planet)
+                if key_name in arbbasis_params:
+                    del arbbasis_params[key_name]
+
         return arbbasis_params
 
     def v_to_any_basis(self, params_in, newbasis):
-- 
2.43.0


From 4eeb3b5c3c984d74a64137d0eda5894f17f2a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 18/97] fix: parameters converted by to_any_basis could not be
 used in a model

The intermediate conversion marked e, w, k or tp with the display-only vary
flag '', which the parameter vector cannot hold.
---
 radvel/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 611d0a8..925a4e3 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -113,7 +113,7 @@ class Basis(object):
             radvel.Parameters object expressed in the new basis
 
         """
-        synth_params = self.to_synth(params_in)
+        synth_params = self.to_synth(params_in, noVary=False)
         arbbasis_params = self.from_synth(synth_params, newbasis, keep=False)
 
         # drop what is left of the old basis
-- 
2.43.0


From be36d1cfde60780b85e25fa89db0eebd8278b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 19/97] fix: additional parameters never entered the parameter
 vector

Keys outside the naming scheme (e.g. 'my_param' of the GeneralRVModel example,
or a decorrelation coefficient that is given a start value) had no index: they
could not vary, shifted the names of all parameters added later, or raised an
IndexError in the likelihood.
---
 radvel/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/radvel/model.py b/radvel/model.py
index 255089a..3975d1f 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -206,6 +206,10 @@ class Vector(object):
                          'w'+str(num_planet):-2+(5*num_planet),'k'+str(num_planet):-1+(5*num_planet),
                          'logk'+str(num_planet):-1+(5*num_planet)})
         indices.update({'dvdt':(5*self.params.num_planets),'curv':1+(5*self.params.num_planets)})
+        for k in self.params.keys():
+            if k not in indices:
+                indices.update({k:2 + n + (5*self.params.num_planets)})
+                n += 1
         self.indices = indices
 
     def dict_to_vector(self):
-- 
2.43.0


From 97e77d101b8a79844f39a73dd7ecfe4d960628ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 20/97] fix: parameter names shifted against the vector after
 an unused position

Positions without a parameter were removed from Vector.names, although
name_vary_params() looks names up by vector position.
---
 radvel/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 3975d1f..54d250d 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -233,7 +233,7 @@ class Vector(object):
         self.vector = vector
 
     def vector_names(self):
-        names = [0] * (len(self.params.keys()) + 2)
+        names = [''] * (max([len(self.params.keys()) + 2] + [i + 1 for i in self.indices.values()]))
         for key in self.params.keys():
             try:
                 names[self.indices[key]] = key
@@ -242,9 +242,12 @@ class Vector(object):
         for extra_param in ['dvdt', 'curv']:
             if extra_param not in self.params.keys():
                 extra_ind = self.indices[extra_param]
-                assert names[extra_ind] == 0, f"No index available for {extra_param} parameter. Please report this."
+                assert names[extra_ind] == '', f"No index available for {extra_param} parameter. Please report this."
                 names[extra_ind] = extra_param
-        self.names = [i for i in names if type(i) == str]
+        # position in self.names is position in the vector: keep unused ones in between
+        while len(names) > 0 and names[-1] == '':
+            names.pop()
+        self.names = names
 
     def vector_to_dict(self):
         for key in self.params.keys():
-- 
2.43.0


From 7f1e894ec12d61b204b926d8503b1aaf16ad05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 21/97] fix: posterior set the wrong parameters after vary
 flags were exchanged

A likelihood that was used before remembered its free parameters; a posterior
built on it later listed the new ones but logprob_array() still set the old
ones as long as their number was the same.
---
 radvel/posterior.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index c6d48b2..4789859 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -26,6 +26,7 @@ class Posterior(Likelihood):
         self.priors = []
 
         self.vparams_order = self.list_vary_params()
+        self.likelihood.list_vary_params()
 
     def __repr__(self):
         s = super(Posterior, self).__repr__()
-- 
2.43.0


From 79bef4d55e569f9c3dabd8070d5d58222704b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 22/97] fix: CompositeLikelihood.y had an outdated offset
 removed from all but one instrument

The offset at construction was subtracted from the data of every instrument
except the first, so x, y and residuals of a composite disagreed and the
RV table printed shifted velocities.
---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 49e959c..1e0f421 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -258,7 +258,7 @@ class CompositeLikelihood(Likelihood):
             like = like_list[i]
 
             self.x = np.append(self.x, like.x)
-            self.y = np.append(self.y, like.y - like.vector.vector[like.vector.indices[like.gamma_param]][0])
+            self.y = np.append(self.y, like.y)
             self.yerr = np.append(self.yerr, like.yerr)
             self.telvec = np.append(self.telvec, like.telvec)
             self.extra_params = np.append(self.extra_params, like.extra_params)
-- 
2.43.0


From 6e75169d0411e778077e687266d14abc5f05d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 23/97] fix: CompositeLikelihood dropped hyperparameter names
 and split the suffix of its first member

---
 radvel/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 1e0f421..b5093d2 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -250,9 +250,9 @@ class CompositeLikelihood(Likelihood):
         self.yerr = like0.yerr
         self.telvec = like0.telvec
         self.extra_params = like0.extra_params
-        self.suffixes = like0.suffix
+        self.suffixes = [like0.suffix]
         self.uparams = like0.uparams
-        self.hnames = []
+        self.hnames = list(getattr(like0, 'hnames', []))
 
         for i in range(1, self.nlike):
             like = like_list[i]
-- 
2.43.0


From b038b47903744455d74848bcea8ab429e4139382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 24/97] fix: Posterior.aic raised its value instead of
 returning it

---
 radvel/posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 4789859..1ee54f5 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -228,7 +228,7 @@ class Posterior(Likelihood):
     def aic(self):
         """Moved to Likelihood.aic"""
 
-        raise self.likelihood.aic()
+        return self.likelihood.aic()
 
 
 def load(filename):
-- 
2.43.0


From 7f5bd276b4f64128e41f763254357d224b7f3a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 25/97] fix: decorrelation mixed up variables and was ignored
 by the marginalised offset

Variables were looked up by substring ('air' also matched 'airmass') and by
the text before the next underscore, and the analytic offset was computed
without the decorrelation terms.
---
 radvel/likelihood.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index b5093d2..d6112c4 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -340,6 +340,7 @@ class RVLikelihood(Likelihood):
         self.telvec = np.array([self.suffix]*len(t))
 
         self.decorr_params = []
+        self.decorr_vars = list(decorr_vars)
         self.decorr_vectors = decorr_vectors
         if len(decorr_vars) > 0:
             self.decorr_params += ['c1_'+d+suffix for d in decorr_vars]
@@ -356,30 +357,21 @@ class RVLikelihood(Likelihood):
         """Residuals
         Data minus model
         """
-        mod = self.model(self.x)
+        res = self.y - self.model(self.x)
+
+        for var, parname in zip(self.decorr_vars, self.decorr_params):
+            coeff = self.vector.vector[self.vector.indices[parname]][0]
+            if np.isfinite(self.decorr_vectors[var]).all():
+                res -= coeff * (self.decorr_vectors[var] - np.mean(self.decorr_vectors[var]))
 
         if self.vector.vector[self.gamma_index][3] and not self.vector.vector[self.gamma_index][1]:
-            ztil = np.sum((self.y - mod)/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
+            ztil = np.sum(res/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
                    np.sum(1/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2))
             if np.isnan(ztil):
                  ztil = 0.0
             self.vector.vector[self.gamma_index][0] = ztil
 
-        res = self.y - self.vector.vector[self.gamma_index][0] - mod
-
-        if len(self.decorr_params) > 0:
-            for parname in self.decorr_params:
-                var = parname.split('_')[1]
-                pars = []
-                for par in self.decorr_params:
-                    if var in par:
-                        pars.append(self.vector.vector[self.vector.indices[par]][0])
-                pars.append(0.0)
-                if np.isfinite(self.decorr_vectors[var]).all():
-                    vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
-                    p = np.poly1d(pars)
-                    res -= p(vec)
-        return res
+        return res - self.vector.vector[self.gamma_index][0]
 
     def errorbars(self):
         """
-- 
2.43.0


From 02e7af1540959632a7cec046f89c97487f3723a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 26/97] fix: quasi-periodic kernel kept an old covariance at
 zero hyperparameters

With a hyperparameter at zero the stored covmatrix was not updated (the
likelihood used the previous one, or None) and predictions failed because a
square matrix was returned for non-square distances.
---
 radvel/gp.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index 40bca99..777315a 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -327,28 +327,22 @@ class QuasiPerKernel(Kernel):
         # If any GP parameter is 0, this is likely a "no GP" model comparison
         # In this case, return a zero covariance matrix
         if amp == 0 or per == 0 or explength == 0 or perlength == 0:
-            n = len(self.dist_se)
-            K = np.zeros((n, n))
-            if isinstance(errors, (int, float)) and errors == 0:
-                return K
-            else:
-                K[np.diag_indices_from(K)] += errors**2
-                return K
-
-        # Compute covariance matrix step by step
-        exp_term1 = -self.dist_se/(explength**2)
-        exp_term2 = (-np.sin(np.pi*self.dist_p/per)**2.) / (2.*perlength**2)
-        
-        # Clamp extreme values to prevent overflow
-        exp_term1 = np.clip(exp_term1, -100, 100)
-        exp_term2 = np.clip(exp_term2, -100, 100)
-        
-        # Compute exponential terms
-        exp1 = np.exp(exp_term1)
-        exp2 = np.exp(exp_term2)
-        
-        # Compute final covariance matrix
-        K = np.array(amp**2 * exp1 * exp2)
+            K = np.zeros(self.dist_se.shape)
+        else:
+            # Compute covariance matrix step by step
+            exp_term1 = -self.dist_se/(explength**2)
+            exp_term2 = (-np.sin(np.pi*self.dist_p/per)**2.) / (2.*perlength**2)
+
+            # Clamp extreme values to prevent overflow
+            exp_term1 = np.clip(exp_term1, -100, 100)
+            exp_term2 = np.clip(exp_term2, -100, 100)
+
+            # Compute exponential terms
+            exp1 = np.exp(exp_term1)
+            exp2 = np.exp(exp_term2)
+
+            # Compute final covariance matrix
+            K = np.array(amp**2 * exp1 * exp2)
 
         self.covmatrix = K
 
-- 
2.43.0


From ca1eafd3c995588a401ec002c2250d723abf7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 27/97] fix: celerite likelihood used unsorted times for data
 not given in time order

---
 radvel/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index d6112c4..3109c25 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -579,6 +579,7 @@ class CeleriteLikelihood(GPLikelihood):
         self.y = self.y[order]
         self.yerr = self.yerr[order]
         self.N = len(self.x)
+        self.kernel.compute_distances(self.x, self.x)
 
     def logprob(self):
 
-- 
2.43.0


From 0f9be66e8442ee3481e56600debea05ceb1f519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 28/97] fix: documented formula of the periodic kernel squared
 the period

---
 radvel/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index 777315a..297b698 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -150,7 +150,7 @@ class PerKernel(Kernel):
 
     .. math::
 
-        C_{ij} = \\eta_1^2 * exp( \\frac{ -\\sin^2(\\frac{ \\pi|t_i-t_j| }{ \\eta_3^2 } ) }{ 2\\eta_2^2 } )
+        C_{ij} = \\eta_1^2 * exp( \\frac{ -\\sin^2(\\frac{ \\pi|t_i-t_j| }{ \\eta_3 } ) }{ 2\\eta_2^2 } )
 
     Args:
         hparams (dict of radvel.Parameter): dictionary containing
-- 
2.43.0


From 001c93d211f4ae36ab014c27dfd0b0acf705806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 29/97] fix: celerite predictions were wrong for times that are
 not in order

---
 radvel/likelihood.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 3109c25..468cfca 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -637,7 +637,10 @@ class CeleriteLikelihood(GPLikelihood):
 
         gp = celerite.GP(kernel)
         gp.compute(self.x, self.yerr)
-        mu, var = gp.predict(self._resids(), xpred, return_var=True)
+        # celerite also requires the predicted times in order
+        order = np.argsort(xpred)
+        mu, var = np.empty(len(order)), np.empty(len(order))
+        mu[order], var[order] = gp.predict(self._resids(), np.asarray(xpred)[order], return_var=True)
 
         stdev = np.sqrt(var)
 
-- 
2.43.0


From e896fdf0aeb67b15366b437247c0dc41dc3324ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 30/97] fix: prior transform of NumericalPrior was shifted by
 half a bin

The cumulative histogram was paired with the middle of the bins instead of
their edges, which moved every sample and clipped the lowest bin.
---
 radvel/prior.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index d0d0dc6..927d8d4 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -458,8 +458,9 @@ class NumericalPrior(Prior):
         self.pdf_estimate = gaussian_kde(values, bw_method=bw_method)
         # Ref (and source code) for the histogram: https://johannesbuchner.github.io/UltraNest/priors.html#Non-analytic-priors
         hist, bin_edges = np.histogram(values, bins=bins)
-        self.hist_cumulative = np.cumsum(hist / hist.sum())
-        self.bin_middle = (bin_edges[:-1] + bin_edges[1:]) / 2
+        # cumulative distribution at the edges of the bins
+        self.hist_cumulative = np.concatenate(([0.], np.cumsum(hist / hist.sum())))
+        self.bin_edges = bin_edges
 
     def __call__(self, params, vector):
         x = []
@@ -469,7 +470,7 @@ class NumericalPrior(Prior):
         return val[0]
 
     def transform(self, u):
-        return np.interp(u, self.hist_cumulative, self.bin_middle)
+        return np.interp(u, self.hist_cumulative, self.bin_edges)
 
     def __repr__(self):
         s = "Numerical prior on {}".format(
-- 
2.43.0


From 97b04840ac4df794ce1b8cee32c0116e02cbf025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 31/97] fix: only some prior classes could be used as extra
 constraints in nested sampling

check_proper_priors recommends extra_constraint=True for further priors on a
parameter, but the extra likelihood called them with an argument that most
prior classes do not take.
---
 radvel/posterior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 1ee54f5..bff0bba 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -153,7 +153,9 @@ class Posterior(Likelihood):
         _logprob = 0
         for prior in self.priors:
             if prior.extra_constraint:
-                _logprob += prior(self.params, self.vector, finite=True)
+                value = prior(self.params, self.vector)
+                # nested samplers require finite values
+                _logprob += value if value > -np.inf else -1e100
         return _logprob
 
     def extra_likelihood_array(self, param_values_array):
-- 
2.43.0


From 4c1330ba7e6e1f83c4385279401706012fcfbbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 32/97] fix: copied or loaded Parameters had another order and
 removed parameters again

---
 radvel/model.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 54d250d..f79811c 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -69,6 +69,13 @@ class Parameter(object):
         return self.value
 
 
+def _restore_parameters(cls, num_planets, basis, planet_letters, items):
+    params = cls(num_planets, basis, planet_letters)
+    params.clear()
+    params.update(items)
+    return params
+
+
 class Parameters(OrderedDict):
 
     """Object to store the model parameters.
@@ -122,10 +129,12 @@ should have only integers as keys."""
 
     def __reduce__(self):
 
-        red = (self.__class__, (self.num_planets,
-                                self.basis.name,
-                                self.planet_letters),
-                                None,None,iter(self.items()))
+        # a new object already holds all parameters of its basis, so that
+        # the order and the removal of parameters have to be restored too
+        red = (_restore_parameters, (self.__class__, self.num_planets,
+                                     self.basis.name,
+                                     self.planet_letters,
+                                     list(self.items())))
         return red
 
     def tex_labels(self, param_list=None):
-- 
2.43.0


From f332b6b12f16c418eca42c2e0f2714263b4ea80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 33/97] fix: maxlike_fitting could end worse than it started or
 with undefined parameters

---
 radvel/fitting.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index b4d011e..e314ff0 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -31,11 +31,31 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     if verbose:
         print("Initial loglikelihood = %f" % post.logprob())
         print("Performing maximum a posteriori fit...")
-    with warnings.catch_warnings():
-        warnings.filterwarnings("ignore", category=RuntimeWarning, message="invalid value encountered")
-        _ = scipy.optimize.minimize(
-            post.neglogprob_array, post.get_vary_params(), method=method,
-            options=dict(maxiter=200, maxfev=100000, xtol=1e-8))
+
+    # the last point the optimizer tried is not always the best one it found,
+    # and some points have no defined probability
+    start = np.array(post.get_vary_params())
+    best = {'neglogprob': post.neglogprob_array(start), 'values': start}
+
+    def objective(values):
+        neglogprob = post.neglogprob_array(values)
+        if np.isnan(neglogprob):
+            neglogprob = np.inf
+        if neglogprob < best['neglogprob'] or np.isnan(best['neglogprob']):
+            best['neglogprob'] = neglogprob
+            best['values'] = np.array(values)
+        return neglogprob
+
+    if len(start) > 0:
+        with warnings.catch_warnings():
+            warnings.filterwarnings("ignore", category=RuntimeWarning, message="invalid value encountered")
+            scipy.optimize.minimize(
+                objective, start, method=method,
+                options=dict(maxiter=200, maxfev=100000, xtol=1e-8))
+
+    # also sets what depends on the free parameters, such as an
+    # analytically marginalized gamma
+    post.neglogprob_array(best['values'])
     post.vector.vector_to_dict()
 
     if verbose:
-- 
2.43.0


From 70715efbd2ee9a82f7dd22f9d8756e5a7878e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 34/97] fix: model_comp returned the models of all earlier
 calls again

---
 radvel/fitting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index e314ff0..01445dc 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -66,7 +66,7 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     return post
 
 
-def model_comp(post, params=[], mc_list=[], verbose=False):
+def model_comp(post, params=[], mc_list=None, verbose=False):
     """Model Comparison
 
     Vary the presence of additional parameters and check how the improve the model fit
@@ -88,6 +88,10 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
             element and a description of that statistic in the second element.
     """
 
+    # a list of its own for every call
+    if mc_list is None:
+        mc_list = []
+
     assert isinstance(post, radvel.likelihood.Likelihood), \
         "model_comp requires a radvel likelihood object as the first argument"
     assert isinstance(mc_list, list), \
-- 
2.43.0


From 1faaa4a351272612ef743ac4586ccb6e9967a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 35/97] fix: model_comp changed the posterior it was given

---
 radvel/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 01445dc..01ad2ce 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -109,7 +109,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
     #   to get BIC and AIC values among other diagnostics.
     if not params:
 
-        fitpost = maxlike_fitting(post, verbose=verbose)
+        fitpost = maxlike_fitting(copy.deepcopy(post), verbose=verbose)
 
         ndata = len(fitpost.likelihood.y)
         nfree = len(fitpost.get_vary_params())
-- 
2.43.0


From 636f1f4bdcfa93f2cc4671a1d6431a3ab85c4aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 36/97] fix: likelihood of a compared model included the
 priors, unlike its BIC and AIC

---
 radvel/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 01ad2ce..414263f 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -141,7 +141,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
         #    np.round(chi_red,2), "jitter fixed"
         # )
         pdict[r'$\ln{\mathcal{L}}$'] = (
-            np.round(fitpost.logprob(), 2), "natural log of the likelihood"
+            np.round(fitpost.likelihood.logprob(), 2), "natural log of the likelihood"
         )
         pdict['BIC'] = (
             np.round(fitpost.likelihood.bic(), 2),
-- 
2.43.0


From d0977e92e4ae3860a4af9645eb1f11e693aa7121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 37/97] fix: model_comp failed for additional parameters whose
 names begin like orbital ones

---
 radvel/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 414263f..9999e6d 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -164,10 +164,10 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
             planet_letters = [ALPHABET[i] for i in range(num_planets+1)]
         jitterchecked = False
         for pari in fitpost.vector.names:
-            if (len(pari) >= lcparam) and (pari[0:lcparam] == circparam) \
+            if (pari[0:lcparam] == circparam) and pari[lcparam:].isdigit() \
                     and fitpost.vector.vector[fitpost.vector.indices[pari]][1]:
                 freepar.append('$K_{'+planet_letters[int(pari[lcparam+0:])]+'}$')
-            if (len(pari) >= leparam) and (pari[0:leparam] == eparam) \
+            if (pari[0:leparam] == eparam) and pari[leparam:].isdigit() \
                     and fitpost.vector.vector[fitpost.vector.indices[pari]][1]:
                 freepar.append('$e_{'+planet_letters[int(pari[leparam+0:])]+'}$')
             if (pari == 'dvdt') \
-- 
2.43.0


From b9e8b2ea8e98afeee40cc0cce1f4f017db95b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 38/97] fix: model_comp set all free GP hyperparameters to zero
 and left them free

---
 radvel/fitting.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 9999e6d..fc9c0da 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -209,14 +209,16 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
         if have_gpamp:
             gpparamlist = post.likelihood.hnames
             ipost = copy.deepcopy(post)
-            allfixed = False
+            allfixed = True
             for gpparam in gpparamlist:
                 if len(gpparam) >= 6 and gpparam.startswith('gp_amp'):
                     ipost.vector.vector[ipost.vector.indices[gpparam]][0] = 0.
-                if ipost.vector.vector[ipost.vector.indices[gpparam]][1]:
+                if post.vector.vector[post.vector.indices[gpparam]][1]:
                     allfixed = False
-                    ipost.vector.vector[ipost.vector.indices[gpparam]][0] = False
+                    ipost.vector.vector[ipost.vector.indices[gpparam]][1] = 0
             if not allfixed:
+                ipost.list_vary_params()
+                ipost.likelihood.list_vary_params()
                 mc_list = model_comp(ipost, newparams, mc_list=mc_list)
             post.list_vary_params()
             post.likelihood.list_vary_params()
-- 
2.43.0


From 487521985c6a22164279c762a88f56c881e9c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 39/97] fix: radvel ic --fixjitter left the jitters free

---
 radvel/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radvel/driver.py b/radvel/driver.py
index 0669b86..e373c2c 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -431,6 +431,9 @@ def ic_compare(args):
             for param in ipost.params:
                 if len(param) >= 3 and param[0:3] == 'jit':
                     ipost.params[param].vary = False
+            ipost.vector.dict_to_vector()
+            ipost.list_vary_params()
+            ipost.likelihood.list_vary_params()
 
         for compareparam in compareparams:
             assert compareparam in choices, \
-- 
2.43.0


From 4fc65cee335395824bdae817bae12417e8590678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 40/97] fix: radvel ic without --type took the letters of
 'trend' for comparisons

---
 radvel/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index e60ee55..5e7c0c1 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -169,7 +169,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
 
     # Information Criteria comparison (BIC/AIC)
     psr_ic = subpsr.add_parser('ic', parents=[psr_parent],)
-    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default='trend',
+    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default=['trend'],
                         choices=['nplanets', 'e', 'trend', 'jit', 'gp'],
                         help="parameters to include in BIC/AIC model comparison"
                         )
-- 
2.43.0


From 63e32c88319c40251da686397faee47373a4821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 41/97] fix: compared models were not fitted where a prior
 excludes the null value of a removed parameter

---
 radvel/fitting.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index fc9c0da..478ee37 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -66,6 +66,17 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     return post
 
 
+def _remove_priors(post, names):
+    """Remove the priors of parameters that are no longer part of the model
+
+    The null value of such a parameter may be outside of the range its prior allows.
+    """
+    prior_dict = post.get_prior_dict()
+    removed = [prior for name in names for prior in prior_dict.get(name, [])]
+    post.priors = [prior for prior in post.priors
+                   if not any(prior is rem for rem in removed)]
+
+
 def model_comp(post, params=[], mc_list=None, verbose=False):
     """Model Comparison
 
@@ -217,6 +228,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
                     allfixed = False
                     ipost.vector.vector[ipost.vector.indices[gpparam]][1] = 0
             if not allfixed:
+                _remove_priors(ipost, gpparamlist)
                 ipost.list_vary_params()
                 ipost.likelihood.list_vary_params()
                 mc_list = model_comp(ipost, newparams, mc_list=mc_list)
@@ -243,6 +255,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
                     and ipost.vector.vector[ipost.vector.indices[parami]][1]:
                 cpost.vector.vector[cpost.vector.indices[parami]][0] = 1e-6
                 cpost.vector.vector[cpost.vector.indices[parami]][1] = 0
+                _remove_priors(cpost, [parami])
                 anyjitteron = True
         if anyjitteron:
             cpost.list_vary_params()
@@ -270,6 +283,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
                 cpost.likelihood.list_vary_params()
                 mc_list = model_comp(cpost, newparams, mc_list=mc_list)
                 ipost.vector.vector[ipost.vector.indices[cparam]][1] = 0
+                _remove_priors(ipost, [cparam])
                 anytrendparam = True
         if not anytrendparam:
             if verbose:
@@ -301,6 +315,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
             if all([any([post.vector.vector[post.vector.indices[pari]][1] for pari in pparam]) for pparam in plparamset]):
                 cpost = copy.deepcopy(post)
                 for pparam in plparamset:
+                    _remove_priors(cpost, pparam)
                     for pari in pparam:
                         if pari[0] == 'k':
                             cpost.vector.vector[cpost.vector.indices[pari]][0] = 0.
@@ -335,6 +350,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
             if all([any([post.vector.vector[post.vector.indices[pari]][1] for pari in pparam]) for pparam in plparamset]):
                 cpost = copy.deepcopy(post)
                 for pparam in plparamset:
+                    _remove_priors(cpost, pparam)
                     for pari in pparam:
                         cpost.vector.vector[cpost.vector.indices[pari]][0] = 0.
                         cpost.vector.vector[cpost.vector.indices[pari]][1] = 0.
-- 
2.43.0


From 7eff9fde9ba7a81eed97e11e8f31bad23db5ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 42/97] fix: model comparison started the full model at the
 null value of a trend

---
 radvel/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 478ee37..c98b8ea 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -277,11 +277,11 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
         anytrendparam = False
         for cparam in trendparamlist:
             if ipost.vector.vector[ipost.vector.indices[cparam]][1]:
-                ipost.vector.vector[ipost.vector.indices[cparam]][0] = 0
                 cpost = copy.deepcopy(ipost)
                 cpost.list_vary_params()
                 cpost.likelihood.list_vary_params()
                 mc_list = model_comp(cpost, newparams, mc_list=mc_list)
+                ipost.vector.vector[ipost.vector.indices[cparam]][0] = 0
                 ipost.vector.vector[ipost.vector.indices[cparam]][1] = 0
                 _remove_priors(ipost, [cparam])
                 anytrendparam = True
-- 
2.43.0


From 51b4afb1400a22bd420fcf33da52445edbd9334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 43/97] fix: MCMC chains contained the first step of every
 check interval twice

---
 radvel/mcmc.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 271a4e9..5861bca 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -22,7 +22,6 @@ class StateVars(object):
         self.automean = []
         self.automin = []
         self.automax = []
-        self.proceed_started = 0
 
     def reset(self):
         self.__init__()
@@ -254,9 +253,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 str_chain = str(i) + '_chain'
                 str_log_prob = str(i) + '_log_prob'
                 str_accepted = str(i) + '_accepted'
-                statevars.prechains.append(h5p[str_chain])
-                statevars.prelog_probs.append(h5p[str_log_prob])
-                statevars.preaccepted.append(h5p[str_accepted])
+                statevars.prechains.append(h5p[str_chain][:])
+                statevars.prelog_probs.append(h5p[str_log_prob][:])
+                statevars.preaccepted.append(h5p[str_accepted][:])
 
         # check if one or more likelihoods are GPs
         if isinstance(post.likelihood, radvel.likelihood.CompositeLikelihood):
@@ -276,7 +275,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
 
         statevars.ensembles = ensembles
         statevars.nwalkers = nwalkers
-        statevars.checkinterval = checkinterval - 1
+        statevars.checkinterval = checkinterval
 
         nrun = int(nrun)
 
@@ -343,7 +342,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 sampler.backend.accepted = statevars.preaccepted[i]
                 sampler.backend.iteration = statevars.prechains[i].shape[0]
 
-        num_run = int(np.round(nrun / (checkinterval -1)))
+        num_run = int(np.ceil(nrun / checkinterval))
         statevars.totsteps = nrun*statevars.nwalkers*statevars.ensembles
         statevars.mixcount = 0
         statevars.ismixed = 0
@@ -367,14 +366,12 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             t1 = time.time()
             mcmc_input_array = []
             for i, sampler in enumerate(statevars.samplers):
-                if sampler.iteration <= 1 or statevars.proceed_started == 0:
+                if sampler.iteration == 0:
                     p1 = statevars.initial_positions[i]
-                    statevars.proceed_started = 1
                 else:
                     p1 = sampler.get_last_sample()
-                for sample in sampler.sample(p1, store=True):
-                    mcmc_input = (sampler, p1, (checkinterval - 1))
-                    mcmc_input_array.append(mcmc_input)
+                mcmc_input = (sampler, p1, min(checkinterval, nrun - r*checkinterval))
+                mcmc_input_array.append(mcmc_input)
 
             if serial:
                 statevars.samplers = []
-- 
2.43.0


From 7b4e7504962c7c66a986215e18caa8d55c6e4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 44/97] fix: a serial MCMC run left the posterior at its last
 proposal

---
 radvel/mcmc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 5861bca..0a2f67b 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -1,3 +1,4 @@
+import copy
 import time
 import curses
 import sys
@@ -321,6 +322,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             pscales.append(pscale)
         pscales = np.array(pscales)
 
+        # serial runs evaluate the posterior in this process; keep the caller's posterior as it is
+        logprob = copy.deepcopy(post).logprob_array if serial else post.logprob_array
+
         statevars.samplers = []
         statevars.samples = []
         statevars.initial_positions = []
@@ -332,7 +336,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 statevars.initial_positions.append(p0)
             else:
                 statevars.initial_positions.append(statevars.prechains[e][-1, :, :])
-            statevars.samplers.append(emcee.EnsembleSampler(statevars.nwalkers, statevars.ndim, post.logprob_array))
+            statevars.samplers.append(emcee.EnsembleSampler(statevars.nwalkers, statevars.ndim, logprob))
 
         if proceed:
             for i, sampler in enumerate(statevars.samplers):
-- 
2.43.0


From c80433974c29f46f37836ddee75fbac49ef968a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 45/97] fix: Tz left out the best-mixed parameters and was -1
 for independent chains

---
 radvel/mcmc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 0a2f67b..8606f2c 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -581,9 +581,7 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
         varz = (nsteps-1.0)/bz + varianceofmeans
         # Equation 26: T(z) in Ford 2006
         vbz = varEstimate / bz
-        tz = nchains*nsteps*vbz[vbz < 1]
-        if tz.size == 0:
-            tz = [-1]
+        tz = nchains*nsteps*np.minimum(vbz, 1)
     else:
         tz = [-1]
         minTz = -np.inf
-- 
2.43.0


From 14c71f2dfa5fa8fbb86bd45c40d7508d5c949fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 46/97] fix: between-chain variance was not normalised by the
 number of chains minus one

---
 radvel/mcmc.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 8606f2c..188ef94 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -566,7 +566,7 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
 
     # Equation 23: B(z) in Ford 2006
     means = np.mean(pars,axis=1)
-    betweenChainVariances = np.var(means,axis=1, dtype=np.float64) * nsteps
+    betweenChainVariances = np.var(means, axis=1, dtype=np.float64, ddof=1 if nchains > 1 else 0) * nsteps
     varEstimate = (
         (1.0 - 1.0/nsteps) * withinChainVariances
         + 1.0 / nsteps * betweenChainVariances
@@ -575,12 +575,8 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
     # Tz calculation will yield only NaNs if nchains = 1.
     # Avoid calculation and warning by skipping explicitly
     if nchains != 1:
-        varianceofmeans = np.var(means,axis=1, dtype=np.float64) / (nchains-1)
-        bz = varianceofmeans * nsteps
-        # Equation 24: varhat+(z) in Ford 2006
-        varz = (nsteps-1.0)/bz + varianceofmeans
         # Equation 26: T(z) in Ford 2006
-        vbz = varEstimate / bz
+        vbz = varEstimate / betweenChainVariances
         tz = nchains*nsteps*np.minimum(vbz, 1)
     else:
         tz = [-1]
-- 
2.43.0


From 9751c7926d7b7c2b474d480d3de53e131160cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 47/97] fix: MCMC returned discarded burn-in when burn-in ended
 with the last check

---
 radvel/mcmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 188ef94..a02a28d 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -433,7 +433,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
 
             # Burn-in complete after maximum G-R statistic first reaches burnGR or minAfactor reaches burnAfactor
             # reset samplers
-            if not statevars.burn_complete and (statevars.maxgr <= burnGR or burnAfactor <= statevars.minafactor):
+            # (the final chains are kept: there would be nothing left after discarding them)
+            last_check = statevars.mixcount >= 2 or r == num_run - 1
+            if not statevars.burn_complete and not last_check and (statevars.maxgr <= burnGR or burnAfactor <= statevars.minafactor):
                 for i, sampler in enumerate(statevars.samplers):
                     statevars.initial_positions[i] = sampler.get_last_sample()
                     sampler.reset()
-- 
2.43.0


From 8f8813efd8c1123fdf672344aab088b195498a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 48/97] fix: saved MCMC runs could mix ensembles of different
 steps or runs when interrupted or reused

---
 radvel/mcmc.py | 106 +++++++++++++++++++++++--------------------------
 1 file changed, 49 insertions(+), 57 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index a02a28d..5066ff0 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -186,6 +186,34 @@ def _domcmc(input_tuple):
     return sampler
 
 
+def _save_progress(savename):
+    """Save chains and run information
+
+    The information is written to a temporary file that then takes the place of an earlier
+    version, so that the file is complete whenever the run is interrupted.
+
+    Args:
+        savename (string): location of h5py file
+    """
+    tmpname = savename + '.tmp'
+    with h5py.File(tmpname, 'w') as h5f:
+        for i, sampler in enumerate(statevars.samplers):
+            h5f.create_dataset(str(i) + '_chain', data=sampler.get_chain())
+            h5f.create_dataset(str(i) + '_log_prob', data=sampler.get_log_prob())
+            h5f.create_dataset(str(i) + '_accepted', data=sampler.backend.accepted)
+        h5f.create_dataset('crit', data=[statevars.minafactor, statevars.maxarchange, statevars.mintz,
+                                         statevars.maxgr])
+        h5f.create_dataset('autosample', data=statevars.autosamples)
+        h5f.create_dataset('automin', data=statevars.automin)
+        h5f.create_dataset('automean', data=statevars.automean)
+        h5f.create_dataset('automax', data=statevars.automax)
+        if statevars.burn_complete:
+            h5f.create_dataset('burned', data=[statevars.nburn])
+        else:
+            h5f.create_dataset('burned', data=[0])
+    os.replace(tmpname, savename)
+
+
 def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfactor=40, maxArchange=.03, burnAfactor=25,
          burnGR=1.03, maxGR=1.01, minTz=1000, minsteps=1000, minpercent=5, thin=1, serial=False, save=False,
          savename=None, proceed=False, proceedname=None, headless=False):
@@ -228,35 +256,33 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
         if save and savename is None:
             raise ValueError('save set to true but no savename provided')
 
-        if save:
-            h5f = h5py.File(savename, 'a')
-
         if proceed:
             if proceedname is None:
                 raise ValueError('proceed set to true but no proceedname provided')
             else:
-                h5p = h5py.File(proceedname, 'r')
                 msg = 'Loading chains and run information from previous MCMC'
                 print(msg)
             statevars.prechains = []
             statevars.prelog_probs = []
             statevars.preaccepted = []
-            statevars.preburned = h5p['burned'][0]
-            statevars.minafactor = h5p['crit'][0]
-            statevars.maxarchange = h5p['crit'][1]
-            statevars.mintz = h5p['crit'][2]
-            statevars.maxgr = h5p['crit'][3]
-            statevars.autosamples = list(h5p['autosample'])
-            statevars.automin = list(h5p['automin'])
-            statevars.automean = list(h5p['automean'])
-            statevars.automax = list(h5p['automax'])
-            for i in range(0,int((len(h5p.keys()) - 6)/3)):
-                str_chain = str(i) + '_chain'
-                str_log_prob = str(i) + '_log_prob'
-                str_accepted = str(i) + '_accepted'
-                statevars.prechains.append(h5p[str_chain][:])
-                statevars.prelog_probs.append(h5p[str_log_prob][:])
-                statevars.preaccepted.append(h5p[str_accepted][:])
+            with h5py.File(proceedname, 'r') as h5p:
+                statevars.preburned = h5p['burned'][0]
+                statevars.minafactor = h5p['crit'][0]
+                statevars.maxarchange = h5p['crit'][1]
+                statevars.mintz = h5p['crit'][2]
+                statevars.maxgr = h5p['crit'][3]
+                statevars.autosamples = list(h5p['autosample'])
+                statevars.automin = list(h5p['automin'])
+                statevars.automean = list(h5p['automean'])
+                statevars.automax = list(h5p['automax'])
+                num_keys = len(h5p.keys())
+                for i in range(0,int((num_keys - 6)/3)):
+                    str_chain = str(i) + '_chain'
+                    str_log_prob = str(i) + '_log_prob'
+                    str_accepted = str(i) + '_accepted'
+                    statevars.prechains.append(h5p[str_chain][:])
+                    statevars.prelog_probs.append(h5p[str_log_prob][:])
+                    statevars.preaccepted.append(h5p[str_accepted][:])
 
         # check if one or more likelihoods are GPs
         if isinstance(post.likelihood, radvel.likelihood.CompositeLikelihood):
@@ -290,8 +316,8 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             statevars.nwalkers = 2 * statevars.ndim
 
         if proceed:
-            if len(h5p.keys()) != (3 * statevars.ensembles + 6) or h5p['0_chain'].shape[2] != statevars.ndim \
-               or h5p['0_chain'].shape[1] != statevars.nwalkers:
+            if num_keys != (3 * statevars.ensembles + 6) or statevars.prechains[0].shape[2] != statevars.ndim \
+               or statevars.prechains[0].shape[1] != statevars.nwalkers:
                 raise ValueError('nensembles, nwalkers, and the number of ' +
                                  'parameters must be equal to those from previous run.')
 
@@ -395,41 +421,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                               minsteps=minsteps, minpercent=minpercent, headless=headless)
 
             if save:
-                for i, sampler in enumerate(statevars.samplers):
-                    str_chain = str(i) + '_chain'
-                    str_log_prob = str(i) + '_log_prob'
-                    str_accepted = str(i) + '_accepted'
-                    if str_chain in h5f.keys():
-                        del h5f[str_chain]
-                    if str_log_prob in h5f.keys():
-                        del h5f[str_log_prob]
-                    if str_accepted in h5f.keys():
-                        del h5f[str_accepted]
-                    if 'crit' in h5f.keys():
-                        del h5f['crit']
-                    if 'autosample' in h5f.keys():
-                        del h5f['autosample']
-                    if 'automin' in h5f.keys():
-                        del h5f['automin']
-                    if 'automean' in h5f.keys():
-                        del h5f['automean']
-                    if 'automax' in h5f.keys():
-                        del h5f['automax']
-                    if 'burned' in h5f.keys():
-                        del h5f['burned']
-                    h5f.create_dataset(str_chain, data=sampler.get_chain())
-                    h5f.create_dataset(str_log_prob, data=sampler.get_log_prob())
-                    h5f.create_dataset(str_accepted, data=sampler.backend.accepted)
-                    h5f.create_dataset('crit', data=[statevars.minafactor, statevars.maxarchange, statevars.mintz,
-                                                     statevars.maxgr])
-                    h5f.create_dataset('autosample', data=statevars.autosamples)
-                    h5f.create_dataset('automin', data=statevars.automin)
-                    h5f.create_dataset('automean', data=statevars.automean)
-                    h5f.create_dataset('automax', data=statevars.automax)
-                    if statevars.burn_complete==True:
-                        h5f.create_dataset('burned', data=[statevars.nburn])
-                    else:
-                        h5f.create_dataset('burned', data=[0])
+                _save_progress(savename)
 
             # Burn-in complete after maximum G-R statistic first reaches burnGR or minAfactor reaches burnAfactor
             # reset samplers
-- 
2.43.0


From 717328cf9c6d065b77624e7cc91dadd73b2d859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 49/97] fix: interrupting a headless MCMC run raised a curses
 error

---
 radvel/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 5066ff0..5d3fea4 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -481,7 +481,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
         return df
 
     except KeyboardInterrupt:
-        curses.endwin()
+        _closescr()
 
 
 def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, minTz, maxGR):
-- 
2.43.0


From ee3cba9a19ef11fe4ea6e5e5f77168799e900b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 50/97] fix: nested sampling wrote into the caller's option
 dictionaries, so a repeated call was refused

---
 radvel/nested_sampling.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 1716546..92acfbd 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -41,8 +41,8 @@ def _run_dynesty(
     """
     from dynesty import DynamicNestedSampler, NestedSampler
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if sampler_type == "static":
         sampler_class = NestedSampler
@@ -137,8 +137,8 @@ def _run_ultranest(
     from ultranest import ReactiveNestedSampler
     from ultranest.stepsampler import SliceSampler, generate_mixture_random_direction
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if "log_dir" in sampler_kwargs:
         raise ValueError(
@@ -207,7 +207,7 @@ def _run_multinest(
     """
     import pymultinest
 
-    run_kwargs = run_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
 
     # By default, assume we want a temporary output dir
     tmp = True
@@ -298,8 +298,8 @@ def _run_nautilus(
     """
     from nautilus import Sampler
 
-    sampler_kwargs = sampler_kwargs or {}
-    run_kwargs = run_kwargs or {}
+    sampler_kwargs = dict(sampler_kwargs or {})
+    run_kwargs = dict(run_kwargs or {})
     run_kwargs.setdefault("verbose", True)
 
     if "filepath" in sampler_kwargs:
-- 
2.43.0


From 108f5a865539e160016b8bd56f0888180e93cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 51/97] fix: dynesty refused an existing output directory
 without results

---
 radvel/nested_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 92acfbd..df52485 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -85,7 +85,7 @@ def _run_dynesty(
 
     if checkpoint_file is not None and not os.path.exists(checkpoint_file):
         outdir = os.path.dirname(checkpoint_file)
-        os.makedirs(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     sampler.run_nested(**run_kwargs)
 
-- 
2.43.0


From 2ad298da2c73fdbbe9d5787468c279d641740916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 52/97] fix: multinest deleted an existing directory named
 tmpdir

---
 radvel/nested_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index df52485..94f76d2 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -1,5 +1,6 @@
 import os
 import shutil
+import tempfile
 from typing import Optional
 
 import h5py
@@ -213,7 +214,7 @@ def _run_multinest(
     tmp = True
 
     if output_dir is None:
-        output_dir = "tmpdir"
+        output_dir = tempfile.mkdtemp()
     else:
         # if an actual outupt dir was specified, it is not temporary
         tmp = False
-- 
2.43.0


From 7e551412f8a4fb6349a3e46ffabbb12aeb4fc899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:06 +0000
Subject: [PATCH 53/97] fix: the compiled solver read unaligned times as
 aligned doubles and lost lengths beyond 2^31

---
 src/_kepler.pyx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/_kepler.pyx b/src/_kepler.pyx
index 5a11b49..84be517 100644
--- a/src/_kepler.pyx
+++ b/src/_kepler.pyx
@@ -22,14 +22,14 @@ ctypedef np.float64_t DTYPE_t
 # create the wrapper code, with numpy type annotations
 @cython.boundscheck(False)
 def kepler_array(double [:,] M, double e):
-    cdef int size, i
+    cdef Py_ssize_t size, i
 
     size = M.shape[0]
-    cdef np.ndarray[double, ndim=1] E = \
-        np.ndarray(shape=(size,), dtype=np.float64) 
+    # the elements of M itself need not be aligned (e.g. columns of packed record arrays)
+    cdef np.ndarray[double, ndim=1] E = np.array(M, dtype=np.float64)
 
     for i in range(size):
-        E[i] = kepler(M[i], e)
+        E[i] = kepler(E[i], e)
 
     return E 
 
@@ -37,14 +37,15 @@ def kepler_array(double [:,] M, double e):
 @cython.boundscheck(False)
 def rv_drive_array(np.ndarray[DTYPE_t, ndim=1] t, double per, double tp, 
                    double e, double om, double k):
-    cdef int size, i 
+    cdef Py_ssize_t size, i
     size = t.shape[0]
 
+    # the elements of t itself need not be aligned (e.g. columns of packed record arrays)
     cdef np.ndarray[DTYPE_t, ndim=1] rv = t.copy()
     cdef double cosom = cos(om)
     cdef double sinom = sin(om)
     for i in range(size):
-        rv[i] = rv_drive(t[i], per, tp, e, cosom, sinom, k)
+        rv[i] = rv_drive(rv[i], per, tp, e, cosom, sinom, k)
 
     return rv
 
-- 
2.43.0


From 05ae7fd57131f3551bf9c6b09cc96318ac3838a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 54/97] fix: rv_drive_array(None, ...) read through a null
 pointer

---
 src/_kepler.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_kepler.pyx b/src/_kepler.pyx
index 84be517..0d85129 100644
--- a/src/_kepler.pyx
+++ b/src/_kepler.pyx
@@ -21,7 +21,7 @@ ctypedef np.float64_t DTYPE_t
 
 # create the wrapper code, with numpy type annotations
 @cython.boundscheck(False)
-def kepler_array(double [:,] M, double e):
+def kepler_array(double [:,] M not None, double e):
     cdef Py_ssize_t size, i
 
     size = M.shape[0]
@@ -35,7 +35,7 @@ def kepler_array(double [:,] M, double e):
 
 # create the wrapper code, with numpy type annotations
 @cython.boundscheck(False)
-def rv_drive_array(np.ndarray[DTYPE_t, ndim=1] t, double per, double tp, 
+def rv_drive_array(np.ndarray[DTYPE_t, ndim=1] t not None, double per, double tp, 
                    double e, double om, double k):
     cdef Py_ssize_t size, i
     size = t.shape[0]
-- 
2.43.0


From ee9dde83517c1d845c8ccab128d18af932c94132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:54 +0000
Subject: [PATCH 55/97] fix: Msini gave negative masses for stellar companions,
 refused mixed scalars and arrays, and depended on other array elements

---
 radvel/utils.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index fa70ce1..f44a178 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -575,32 +575,28 @@ def Msini(K, P, Mstar, e, Msini_units='earth'):
     Msini = K / K_0 * np.sqrt(1.0 - e ** 2.0) * (Mstar/Msun) ** (2.0 / 3.0) * P_year ** (1 / 3.0)
 
     # Use correct calculation if any elements are >10% of the stellar mass
-    if (np.array(((Msini * u.Mjup).to(u.M_sun) / (Mstar/Msun)).value > 0.10)).any():
+    heavy = np.array(((Msini * u.Mjup).to(u.M_sun) / (Mstar/Msun)).value > 0.10)
+    if heavy.any():
         with warnings.catch_warnings():
             warnings.simplefilter("always")
             warnings.warn("Mpsini << Mstar assumption broken, correcting Msini calculation.", stacklevel=2)
 
         a = K*(((2*(np.pi)*G)/P)**(-1/3.))*np.sqrt(1-(e**2))
-        Msini = []
-        if isinstance(P, float):
-            n_elements = 1
-        else:
-            assert type(K) == type(P) == type(Mstar) == type(e), "All input data types must match."
-            assert K.size == P.size == Mstar.size == e.size, "All input arrays must have the same length."
-            n_elements = len(P)
-        for i in range(n_elements):
+        a, Mstar = np.broadcast_arrays(a, Mstar)
+        Msini = np.array(Msini)
+        for i in zip(*np.nonzero(np.atleast_1d(heavy))):
+            i = i if heavy.ndim else ()
+            # mass in units of the stellar mass
+            alpha = a[i]/Mstar[i]**(1/3.)
+
             def func(x):
-                try:
-                    return x - a[i]*((Mstar[i]+x)**(2/3.))
-                except IndexError:
-                    return x - a * ((Mstar + x) ** (2 / 3.))
+                return x - alpha*(1+x)**(2/3.)
 
-            sol = root(func, Mjup)
-            Msini.append(sol.x[0])
+            # start beyond the root of this convex function
+            sol = root(func, max(4*alpha**3, 2**(2/3.)*alpha), tol=1e-12)
+            Msini[i] = sol.x[0]*Mstar[i]/Mjup
+        Msini = Msini[()]
 
-        Msini = np.array(Msini)
-        Msini = Msini/Mjup
-    
     if Msini_units.lower() == 'jupiter':
         pass
     elif Msini_units.lower() == 'earth':
-- 
2.43.0


From ddae4f79bd69fda74c54285fb3d340d7898407fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:26 +0000
Subject: [PATCH 56/97] fix: draw_models_from_chain drew the unchanged model,
 by row labels, and altered the model's parameters

---
 radvel/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index f44a178..9032ee3 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -1,3 +1,4 @@
+import copy
 import os
 import sys
 from decimal import Decimal
@@ -653,12 +654,13 @@ def draw_models_from_chain(mod, chain, t, nsamples=50):
         array: 2D array with the different models as different rows
     """
 
-    np.random.seed(0)
-    chain_samples = chain.iloc[np.random.choice(chain.index, nsamples)]
+    rows = np.random.RandomState(0).choice(len(chain), nsamples)
+    mod = copy.deepcopy(mod)
     models = []
-    for i in chain_samples.index:
-        params = np.array(chain.loc[i, mod.list_vary_params()])
-        params = mod.array_to_params(params)
+    for i in rows:
+        for key in mod.list_vary_params():
+            mod.params[key].value = chain[key].iloc[i]
+        mod.vector.dict_to_vector()
         models += [mod(t)]
     models = np.vstack(models)
     return models
-- 
2.43.0


From 01c32008a173b23dea55ca44804248582d50f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:26 +0000
Subject: [PATCH 57/97] fix: timebin did not return for bins too small to
 separate times, nor take empty input

---
 radvel/utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 9032ee3..ca51365 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -242,20 +242,19 @@ def timebin(time, meas, meas_err, binsize):
     time = time[ind_order]
     meas = meas[ind_order]
     meas_err = meas_err[ind_order]
+    time_out, meas_out, meas_err_out = [], [], []
+    if not np.isfinite(time).all():
+        raise ValueError("times must be finite")
     ct = 0
     while ct < len(time):
-        ind = np.where((time >= time[ct]) & (time < time[ct]+binsize))[0]
+        # equal times share a bin, however small binsize is
+        ind = np.where((time >= time[ct]) & ((time < time[ct]+binsize) | (time == time[ct])))[0]
         num = len(ind)
         wt = (1./meas_err[ind])**2.     # weights based in errors
         wt = wt/np.sum(wt)              # normalized weights
-        if ct == 0:
-            time_out = [np.sum(wt*time[ind])]
-            meas_out = [np.sum(wt*meas[ind])]
-            meas_err_out = [1./np.sqrt(np.sum(1./(meas_err[ind])**2))]
-        else:
-            time_out.append(np.sum(wt*time[ind]))
-            meas_out.append(np.sum(wt*meas[ind]))
-            meas_err_out.append(1./np.sqrt(np.sum(1./(meas_err[ind])**2)))
+        time_out.append(np.sum(wt*time[ind]))
+        meas_out.append(np.sum(wt*meas[ind]))
+        meas_err_out.append(1./np.sqrt(np.sum(1./(meas_err[ind])**2)))
         ct += num
 
     return time_out, meas_out, meas_err_out
-- 
2.43.0


From b103e1004a4a9c721e72e277ed515ffe09064149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:26 +0000
Subject: [PATCH 58/97] fix: date2jd dropped fractions of a second

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index ca51365..74865e6 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -420,7 +420,7 @@ def date2jd(date):
      """
 
     jd_td = date - datetime(2000, 1, 1, 12, 0, 0)
-    jd = 2451545.0 + jd_td.days + jd_td.seconds/86400.0
+    jd = 2451545.0 + jd_td.days + (jd_td.seconds + jd_td.microseconds/1e6)/86400.0
     return jd
 
 
-- 
2.43.0


From ca885c7267334f1a58c4a80f7a498e4c98c0db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:50 +0000
Subject: [PATCH 59/97] fix: t_to_phase raised KeyError for bases with log
 periods

---
 radvel/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 74865e6..b54e5f7 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -362,7 +362,10 @@ def t_to_phase(params, t, num_planet, cat=False):
     elif ('tp%i' % num_planet) in params:
         timeparam = 'tp%i' % num_planet
 
-    P = params['per%i' % num_planet].value
+    if ('per%i' % num_planet) in params:
+        P = params['per%i' % num_planet].value
+    else:
+        P = np.exp(params['logper%i' % num_planet].value)
     tc = params[timeparam].value
     phase = np.mod(t - tc, P)
     phase /= P
-- 
2.43.0


From 02c7b37f8ce5f414fb1d6ede5d0a15aff77b9886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:50 +0000
Subject: [PATCH 60/97] fix: fastbin dropped bins left of zero and gave NaN or
 wrong errors for small scatter about a large mean

---
 radvel/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index b54e5f7..8a53509 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -321,12 +321,15 @@ def fastbin(x, y, nbins=30):
     """
 
     n, _ = np.histogram(x, bins=nbins)
+    y0 = np.mean(y)    # avoids cancellation in the variances
+    y = y - y0
     sy, _ = np.histogram(x, bins=nbins, weights=y)
     sy2, _ = np.histogram(x, bins=nbins, weights=y*y)
     with warnings.catch_warnings():
         warnings.filterwarnings("ignore", message="invalid value encountered", category=RuntimeWarning)
         bindat = sy / n
-        binerr = np.sqrt(sy2/n - bindat*bindat) / np.sqrt(n)
+        binerr = np.sqrt(np.maximum(sy2/n - bindat*bindat, 0)) / np.sqrt(n)
+    bindat = bindat + y0
     bint = (_[1:] + _[:-1])/2.
 
     binN = n
@@ -335,10 +338,6 @@ def fastbin(x, y, nbins=30):
     bindat = bindat[pos]
     binerr = binerr[pos]
 
-    pos = bint > 0
-    bint = bint[pos]
-    bindat = bindat[pos]
-    binerr = binerr[pos]
     return bint, bindat, binerr
 
 
-- 
2.43.0


From 6d9c27792d3ecee7be8363eb7c4020b474358107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 61/97] fix: fitting again discarded the posterior of an MCMC
 run

---
 radvel/driver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index e373c2c..83f0453 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -215,8 +215,10 @@ def mcmc(args):
     saveto = os.path.join(args.outputdir, conf_base+'_post_summary.csv')
     post_summary.to_csv(saveto, sep=',')
 
+    # the fit is improved upon too, but a new fit must not discard the results of the sampling
+    post.writeto(status.get('fit', 'postfile'))
     postfile = os.path.join(args.outputdir,
-                            '{}_post_obj.pkl'.format(conf_base))
+                            '{}_post_obj_mcmc.pkl'.format(conf_base))
     post.writeto(postfile)
 
     csvfn = os.path.join(args.outputdir, conf_base+'_chains.csv.bz2')
@@ -676,6 +678,10 @@ values. Interpret posterior with caution.".format(num_nan, nan_perc))
     # saved derived paramters to posterior file
     post.derived = quantiles[outcols]
     post.writeto(postfile)
+    if sampler_type == 'mcmc' and status.has_section('fit'):
+        fitpost = radvel.posterior.load(status.get('fit', 'postfile'))
+        fitpost.derived = post.derived
+        fitpost.writeto(status.get('fit', 'postfile'))
     savestate['quantfile'] = os.path.relpath(csvfn)
 
     csvfn = os.path.join(args.outputdir, conf_base+'_derived.csv.bz2')
-- 
2.43.0


From c034f314d54ffd792f45fba9db1a7e8f9a607e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 62/97] fix: derived parameters were reported together with
 chains they were not derived from

---
 radvel/driver.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 83f0453..30c3a7c 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -120,7 +120,7 @@ You may want to use the '--gp' flag when making these plots.")
             Trend.plot()
 
         if ptype == 'derived':
-            assert status.has_section('derive'), \
+            assert status.has_section('derive') and status.getboolean('derive', 'run'), \
                 "Must run `radvel derive` before plotting derived parameters"
 
             P, _ = radvel.utils.initialize_posterior(config_file)
@@ -248,6 +248,7 @@ def mcmc(args):
                  'minTz': mintz,
                  'maxGR': maxgr}
     save_status(statfile, 'mcmc', savestate)
+    _discard_derived(statfile, status, 'mcmc')
 
     statevars.reset()
 
@@ -395,6 +396,7 @@ def nested_sampling(args):
                  }
     savestate = {**savestate, **sampler_kwargs, **run_kwargs}
     save_status(statfile, 'ns', savestate)
+    _discard_derived(statfile, status, 'ns')
 
 
 def ic_compare(args):
@@ -497,7 +499,7 @@ def tables(args):
     post = radvel.posterior.load(status.get(sampler_type, 'postfile'))
 
 
-    if 'derive' in status.sections() and status.getboolean('derive', 'run'):
+    if _has_derived(status, sampler_type):
         dchains = pd.read_csv(status.get('derive', 'chainfile'))
         chains = chains.join(dchains, rsuffix='_derived')
         derived = True
@@ -527,7 +529,7 @@ def tables(args):
             tex = getattr(tabletex, attrdict[tabtype])(name_in_title=args.name_in_title)
         else:
             if tabtype == 'derived':
-                assert status.has_option('derive', 'run'), \
+                assert derived, \
                     "Must run `radvel derive` before making derived parameter table"
             assert tabtype in attrdict, 'Invalid Table Type %s ' % tabtype
             tex = getattr(tabletex, attrdict[tabtype])(name_in_title=args.name_in_title)
@@ -568,6 +570,18 @@ def _pick_sampler(args, status):
     return sampler_type
 
 
+def _has_derived(status, sampler_type):
+    """Have derived parameters been calculated from the chains of this sampler?"""
+    return (status.has_section('derive') and status.getboolean('derive', 'run')
+            and status.get('derive', 'sampler', fallback=sampler_type) == sampler_type)
+
+
+def _discard_derived(statfile, status, sampler_type):
+    """Derived parameters do not belong to chains that were made after them"""
+    if _has_derived(status, sampler_type):
+        save_status(statfile, 'derive', {'run': False})
+
+
 def derive(args):
     """Derive physical parameters from posterior samples
 
@@ -617,7 +631,7 @@ values. Interpret posterior with caution.".format(num_nan, nan_perc))
 
     synthchains = post.params.basis.to_synth(synthchains)
 
-    savestate = {'run': True}
+    savestate = {'run': True, 'sampler': sampler_type}
     outcols = []
     for i in np.arange(1, P.nplanets + 1, 1):
         # Grab parameters from the chain
@@ -732,7 +746,7 @@ def report(args):
     chains = pd.read_csv(status.get(sampler_type, 'chainfile'))
     post = radvel.posterior.load(status.get(sampler_type, 'postfile'))
 
-    if 'derive' in status.sections() and status.getboolean('derive', 'run'):
+    if _has_derived(status, sampler_type):
         dchains = pd.read_csv(status.get('derive', 'chainfile'))
         chains = chains.join(dchains, rsuffix='_derived')
         derived = True
-- 
2.43.0


From 900f58113a5d2586fdb87a1c8e46fcf8db7e190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 63/97] fix: tables requested after a model comparison table
 lost the derived parameters

---
 radvel/driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 30c3a7c..91bc5c1 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -519,7 +519,8 @@ def tables(args):
 
             compstats = eval(status.get('ic_compare', 'ic'))
             report = radvel.report.RadvelReport(
-                P, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=compstats
+                P, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=compstats,
+                derived=derived
             )
             tabletex = radvel.report.TexTable(report)
             tex = tabletex.tab_comparison()
-- 
2.43.0


From e5eb42b2804b9c075c35bc9379ed393cafcc3cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 64/97] fix: reports failed without plots and comparison tables
 failed for undefined AICc values

---
 radvel/driver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 91bc5c1..cd81f05 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -18,7 +18,7 @@ from collections import OrderedDict
 
 import pandas as pd
 import numpy as np
-from numpy import inf
+from numpy import inf, nan
 from astropy import constants as c
 
 if sys.version_info[0] < 3:
@@ -770,8 +770,9 @@ report.".format(args.comptype,
     report.runname = conf_base
 
     report_depfiles = []
-    for ptype, pfile in status.items('plot'):
-        report_depfiles.append(pfile)
+    if status.has_section('plot'):
+        for ptype, pfile in status.items('plot'):
+            report_depfiles.append(pfile)
 
     with radvel.utils.working_directory(args.outputdir):
         rfile = os.path.join(conf_base+"_results.pdf")
-- 
2.43.0


From 99595b8c5f6c2f6d81408f4c9fa3cd8a20b8be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:21 +0000
Subject: [PATCH 65/97] fix: a report that could not be compiled changed the
 working directory

---
 radvel/report.py | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 2a54dcc..e784fb8 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -145,32 +145,33 @@ class RadvelReport(object):
 
         os.chdir(temp)
 
-        f = open(texname, 'w')
-        f.write(self.texdoc())
-        f.close()
-
-        shutil.copy(texname, current)
-
         try:
-            for i in range(3):
-                # LaTex likes to be compiled a few times
-                # to get the table widths correct
-                proc = subprocess.Popen(
-                    [latex_compiler, texname], stdout=subprocess.PIPE,
-                )
-                proc.communicate()  # Let the subprocess complete
-        except (OSError):
-            msg = """
+            f = open(texname, 'w')
+            f.write(self.texdoc())
+            f.close()
+
+            shutil.copy(texname, current)
+
+            try:
+                for i in range(3):
+                    # LaTex likes to be compiled a few times
+                    # to get the table widths correct
+                    proc = subprocess.Popen(
+                        [latex_compiler, texname], stdout=subprocess.PIPE,
+                    )
+                    proc.communicate()  # Let the subprocess complete
+            except (OSError):
+                msg = """
 WARNING: REPORT: could not run %s. Ensure that %s is in your PATH
 or pass in the path as an argument
 """ % (latex_compiler, latex_compiler)
-            print(msg)
-            return
-
-        shutil.copy(pdfname, current)
+                print(msg)
+                return
 
-        shutil.rmtree(temp)
-        os.chdir(current)
+            shutil.copy(pdfname, current)
+        finally:
+            os.chdir(current)
+            shutil.rmtree(temp)
 
 
 class TexTable(RadvelReport):
-- 
2.43.0


From 0a1f8a4259f8b1f75c645ea26e5cc94b0a02216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:45 +0000
Subject: [PATCH 66/97] fix: percentiles of angles changed the chain or failed
 on read-only chains

---
 radvel/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/utils.py b/radvel/utils.py
index 8a53509..b742cf3 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -464,6 +464,7 @@ def geterr(vec, angular=False):
         pass
 
     if angular:
+        vec = np.array(vec)
         val, edges = np.histogram(vec, bins=50)
         med = edges[np.argmax(val)]
         if med > np.radians(90):
-- 
2.43.0


From 117a8b17fb79bb83a2ef466be0ee80d62f7c61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:45 +0000
Subject: [PATCH 67/97] fix: sampling replaced the best fit by a worse one if
 the medians are far from it

---
 radvel/driver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/radvel/driver.py b/radvel/driver.py
index cd81f05..3f98c48 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -254,6 +254,11 @@ def mcmc(args):
 
 
 def sampling_postprocessing(post, chains):
+    # the best of the values known so far
+    best = copy.deepcopy(post)
+    if not chains['lnprobability'].max() <= best.logprob():
+        best.set_vary_params(chains.loc[chains['lnprobability'].idxmax(), best.name_vary_params()].values)
+
     # Convert chains into synth basis
     synthchains = chains.copy()
     for par in post.params.keys():
@@ -275,6 +280,10 @@ def sampling_postprocessing(post, chains):
 
     print("Performing post-sampling maximum likelihood fit...")
     post = radvel.fitting.maxlike_fitting(post, verbose=False)
+    if not post.logprob() >= best.logprob():
+        # the median is not always close to the maximum, or allowed by the priors
+        post.set_vary_params(best.get_vary_params())
+        post = radvel.fitting.maxlike_fitting(post, verbose=False)
 
     final_logprob = post.logprob()
     final_residuals = post.likelihood.residuals().std()
-- 
2.43.0


From b79d4e7dd5ae34590f6ad95afd9fc96a76a9cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:08 +0000
Subject: [PATCH 68/97] fix: the trend plot failed for thinned chains

---
 radvel/driver.py          |  3 ++-
 radvel/plot/mcmc_plots.py | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 3f98c48..3580056 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -116,7 +116,8 @@ You may want to use the '--gp' flag when making these plots.")
             nensembles = status.getint('mcmc', 'nensembles')
 
             saveto = os.path.join(args.outputdir, conf_base+'_trends.pdf')
-            Trend = mcmc_plots.TrendPlot(post, chains, nwalkers, nensembles, saveto)
+            nsteps = int(status.getfloat('mcmc', 'nsteps') - status.getfloat('mcmc', 'nburn'))
+            Trend = mcmc_plots.TrendPlot(post, chains, nwalkers, nensembles, saveto, nsteps=nsteps)
             Trend.plot()
 
         if ptype == 'derived':
diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index c14ef39..862bd4a 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -24,16 +24,20 @@ class TrendPlot(object):
         post (radvel.Posterior): Radvel Posterior object
         chains (DataFrame): MCMC chains output by radvel.mcmc
         nwalkers (int): number of walkers used in this particular MCMC run
+        nensembles (int): number of ensembles used in this particular MCMC run
         outfile (string [optional]): name of output multi-page PDF file
+        nsteps (int [optional]): number of samples of all walkers before
+            thinning, needed to tell the walkers of thinned chains apart
         
     """
 
-    def __init__(self, post, chains, nwalkers, nensembles, outfile=None):
+    def __init__(self, post, chains, nwalkers, nensembles, outfile=None, nsteps=None):
 
         self.chains = chains
         self.outfile = outfile
         self.nwalkers = nwalkers
         self.nensembles = nensembles
+        self.nsteps = nsteps
 
         self.labels = sorted([k for k in post.params.keys() if post.params[k].vary])
         self.texlabels = [post.params.tex_labels().get(l, l) for l in self.labels]
@@ -43,20 +47,28 @@ class TrendPlot(object):
         """
         Make and save the trend plot as PDF
         """
+        # rows are ordered by walker, ensemble, and step, also if only
+        # every n-th of them is left
+        nrows = len(self.chains)
+        nsteps = nrows if self.nsteps is None else self.nsteps
+        nchains = self.nwalkers * self.nensembles
+        thin = -(-nsteps // nrows)
+        ichain = np.arange(nrows) * thin * nchains // nsteps
+
         with PdfPages(self.outfile) as pdf:
             for param, tex in zip(self.labels, self.texlabels):
                 flatchain = self.chains[param].values
-                wchain = flatchain.reshape((self.nwalkers, self.nensembles, -1))
+                wchain = [flatchain[ichain == i] for i in range(nchains)]
 
                 _ = pl.figure(figsize=(18, 10))
                 for w in range(self.nwalkers):
                     for e in range(self.nensembles):
                         pl.plot(
-                            wchain[w][e], '.', rasterized=True, color=self.colors[w],
+                            wchain[w * self.nensembles + e], '.', rasterized=True, color=self.colors[w],
                             markersize=4
                         )
 
-                pl.xlim(0, wchain.shape[2])
+                pl.xlim(0, max(len(c) for c in wchain))
 
                 pl.xlabel('Step Number')
                 try:
-- 
2.43.0


From db4cf5d645eb3510c38449b53fd7ee99bc23ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 69/97] fix: models without declared trend parameters could not
 be plotted

---
 radvel/plot/orbit_plots.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index a5ce002..2a60e67 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -120,9 +120,13 @@ class MultipanelPlot(object):
 
         self.rawresid = self.post.likelihood.residuals()
 
+        # trends are optional parameters
+        dvdt = self.post.params['dvdt'].value if 'dvdt' in self.post.params else 0.0
+        curv = self.post.params['curv'].value if 'curv' in self.post.params else 0.0
+
         self.resid = (
-            self.rawresid + self.post.params['dvdt'].value*(self.rvtimes-self.model.time_base)
-            + self.post.params['curv'].value*(self.rvtimes-self.model.time_base)**2
+            self.rawresid + dvdt*(self.rvtimes-self.model.time_base)
+            + curv*(self.rvtimes-self.model.time_base)**2
         )
 
         if self.saveplot is not None:
@@ -166,12 +170,12 @@ class MultipanelPlot(object):
             self.mplttimes = self.rvmodt - self.epoch
 
         self.slope = (
-            self.post.params['dvdt'].value * (self.rvmodt-self.model.time_base)
-            + self.post.params['curv'].value * (self.rvmodt-self.model.time_base)**2
+            dvdt * (self.rvmodt-self.model.time_base)
+            + curv * (self.rvmodt-self.model.time_base)**2
         )
         self.slope_low = (
-            self.post.params['dvdt'].value * (self.rvtimes-self.model.time_base)
-            + self.post.params['curv'].value * (self.rvtimes-self.model.time_base)**2
+            dvdt * (self.rvtimes-self.model.time_base)
+            + curv * (self.rvtimes-self.model.time_base)**2
         )
 
         # list for Axes objects
-- 
2.43.0


From 2c6b3a96faf9b64422df6695814bb9f91804a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 70/97] fix: every GP panel added the GP's mean to the data of
 the panels after it

---
 radvel/plot/orbit_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 2a60e67..a870f48 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -668,7 +668,7 @@ class GPMultipanelPlot(MultipanelPlot):
         if self.subtract_orbit_model:
             orbit_model4data = np.zeros(self.rvmod.shape)
         else:
-            orbit_model4data = self.rvmod
+            orbit_model4data = self.rvmod.copy()
 
         ci = 0
         for like in self.like_list:
@@ -757,7 +757,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 if self.subtract_orbit_model:
                     orbit_model4data = np.zeros(self.rvmod.shape)
                 else:
-                    orbit_model4data = self.rvmod
+                    orbit_model4data = self.rvmod.copy()
 
                 self.plot_gp_like(like, orbit_model4data, ci)
 
-- 
2.43.0


From 8d12afc1df67b36970e033be614e31328ee80cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 71/97] fix: plots failed for more unknown instruments than
 colors and wrote colors into the caller's formats

---
 radvel/plot/__init__.py    | 6 +++---
 radvel/plot/orbit_plots.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/radvel/plot/__init__.py b/radvel/plot/__init__.py
index c24e887..2545cec 100644
--- a/radvel/plot/__init__.py
+++ b/radvel/plot/__init__.py
@@ -116,12 +116,12 @@ def mtelplot(x, y, e, tel, ax, lw=1., telfmts={}, **kwargs):
         telfmt = {}
 
         if t in telfmts:
-            telfmt = telfmts[t]
+            telfmt = dict(telfmts[t])
             if 'color' not in telfmt:
-                telfmt['color'] = default_colors[ci]
+                telfmt['color'] = default_colors[ci % len(default_colors)]
                 ci +=1
         elif t not in telfmts and t not in telfmts_default:
-            telfmt = dict(color=default_colors[ci])
+            telfmt = dict(color=default_colors[ci % len(default_colors)])
             ci +=1 
         else:
             telfmt = {}
diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index a870f48..7d61c3a 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -626,10 +626,10 @@ class GPMultipanelPlot(MultipanelPlot):
 
             if like.suffix not in self.telfmts and like.suffix in plot.telfmts_default:
                 color = plot.telfmts_default[like.suffix]['color']
-            if like.suffix in self.telfmts:
+            if 'color' in self.telfmts.get(like.suffix, {}):
                 color = self.telfmts[like.suffix]['color']
-            if like.suffix not in self.telfmts and like.suffix not in plot.telfmts_default:
-                color = plot.default_colors[ci]
+            elif like.suffix in self.telfmts or like.suffix not in plot.telfmts_default:
+                color = plot.default_colors[ci % len(plot.default_colors)]
                 ci += 1
 
             ax.fill_between(xpred, gpmu+gp_orbit_model-stddev, gpmu+gp_orbit_model+stddev, 
-- 
2.43.0


From fb81ecb57bfde854b719f75c3546c25267cd9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 72/97] fix: separate GP panels showed the data of the other
 likelihoods without their GP

---
 radvel/plot/orbit_plots.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 7d61c3a..ec19692 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -761,6 +761,14 @@ class GPMultipanelPlot(MultipanelPlot):
 
                 self.plot_gp_like(like, orbit_model4data, ci)
 
+                # residuals have the GPs of all likelihoods subtracted
+                for other in self.like_list:
+                    if other is not like and not self.subtract_gp_mean_model \
+                            and isinstance(other, radvel.likelihood.GPLikelihood):
+                        gp_mean4data, _ = other.predict(other.x)
+                        indx = np.where(self.post.likelihood.telvec == other.suffix)
+                        orbit_model4data[indx] += gp_mean4data
+
                 # plot data
                 plot.mtelplot(
                     # data = residuals + model
-- 
2.43.0


From 3912be2aae0b568c8bdd36d5380cba539ce457c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 73/97] fix: GPMultipanelPlot.plot_multipanel ignored nophase
 and did not return its figure

---
 radvel/plot/orbit_plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index ec19692..88b5bb3 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -458,6 +458,7 @@ class MultipanelPlot(object):
         figheight = self.ax_rv_height + self.ax_phase_height * scalefactor
 
         # provision figure
+        self.ax_list = []
         fig = pl.figure(figsize=(self.figwidth, figheight))
         
         fig.subplots_adjust(left=0.12, right=0.95)
@@ -716,7 +717,7 @@ class GPMultipanelPlot(MultipanelPlot):
         """
 
         if not self.plot_likelihoods_separately:
-            super(GPMultipanelPlot, self).plot_multipanel()
+            return super(GPMultipanelPlot, self).plot_multipanel(nophase=nophase)
         else:
 
             if nophase:
@@ -728,6 +729,7 @@ class GPMultipanelPlot(MultipanelPlot):
             figheight = self.ax_rv_height*(n_likes//self.phase_ncols+1.5) + self.ax_phase_height * scalefactor
 
             # provision figure
+            self.ax_list = []
             fig = pl.figure(figsize=(self.figwidth, figheight))
             
             fig.subplots_adjust(left=0.12, right=0.95)
-- 
2.43.0


From a4b6374b8b0a9fe1295c45f3b93e934e9ea71d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 74/97] fix: plotting derived parameters or making their table
 changed the masses of the chains

---
 radvel/plot/mcmc_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index 862bd4a..94bdfc9 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -190,7 +190,7 @@ class DerivedPlot(object):
 
     def __init__(self, chains, P, saveplot=None):
 
-        self.chains = chains
+        self.chains = chains.copy()
         self.saveplot = saveplot
 
         if 'planet_letters' in dir(P):
-- 
2.43.0


From f807e19bb8113739ae6cf6cc57280fb1444b0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 75/97] fix: masses in Jupiter masses were 0.1 percent too
 large

---
 radvel/plot/mcmc_plots.py  | 2 +-
 radvel/plot/orbit_plots.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index 94bdfc9..60cb56b 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -223,7 +223,7 @@ class DerivedPlot(object):
                     unit = "M$_{\\oplus}$"
                     if np.median(self.chains[label]) > 100:
                         unit = "M$_{\\rm Jup}$"
-                        self.chains[label] *= 0.00315
+                        self.chains[label] *= 0.0031464
                     elif np.median(self.chains[label]) > 100:
                         unit = "M$_{\\odot}$"
                         self.chains[label] *= 0.000954265748
diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 88b5bb3..71d8e97 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -388,7 +388,7 @@ class MultipanelPlot(object):
 
                         unit = units[index]
                         if unit == "M$_{\\rm Jup}$":
-                            conversion_fac = 0.00315
+                            conversion_fac = 0.0031464
                         elif unit == "M$_{\\odot}$":
                             conversion_fac = 0.000954265748
                         else:
-- 
2.43.0


From 48e34352934c7da8a6d74cc3f0091ee928790e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:36 +0000
Subject: [PATCH 76/97] fix: phase plots named the planet's mass with another
 letter than its orbit

---
 radvel/plot/orbit_plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 71d8e97..2f1adf2 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -376,6 +376,8 @@ class MultipanelPlot(object):
             if has_status:
                 chains = pd.read_csv(self.status['derive']['chainfile'])
                 self.post.nplanets = self.num_planets
+                if self.post.params.planet_letters is not None:
+                    self.post.planet_letters = self.post.params.planet_letters
                 dp = mcmc_plots.DerivedPlot(chains, self.post)
                 labels = dp.labels
                 texlabels = dp.texlabels
-- 
2.43.0


From ea5cd4bffcd5df6fbfd6d561e98b305956acfc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:45 +0000
Subject: [PATCH 77/97] fix: TeX labels of parameters of instruments ending
 with a digit did not compile

---
 radvel/model.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index f79811c..63e56af 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -153,18 +153,24 @@ should have only integers as keys."""
 
         tex_labels = {}
         for k in param_list:
-            n = k[-1]
-            p = k[:-1]
-            if n.isdigit() and (not 'gamma' in p and not 'jit' in p):
+            p = k.rstrip('0123456789')
+            n = k[len(p):]
+            # names of instruments may also end with a digit
+            if n and '_' not in p and 'gamma' not in p and 'jit' not in p:
                 tex_labels[k] = self._planet_texlabel(p, n)
             elif k in texdict.keys():
                 tex_labels[k] = "$%s$" % texdict[k]
-            elif p not in self.planet_parameters:
-                for tex in texdict.keys():
-                    if tex in k and len(tex) > 1:
-                        tex_labels[k] = "$%s}$" % k.replace(tex, texdict[tex])
-                        if k.startswith('gp_'):
-                            tex_labels[k] = tex_labels[k].replace("}_", ", \\rm ")
+            else:
+                for tex in sorted(texdict.keys(), key=len):
+                    suffix = k[len(tex):]
+                    if not k.startswith(tex):
+                        continue
+                    if tex.endswith('_'):
+                        tex_labels[k] = "$%s%s}$" % (texdict[tex], suffix)
+                    elif tex.startswith('gp_') and suffix.startswith('_') and texdict[tex].endswith('}'):
+                        tex_labels[k] = "$%s, \\rm %s}$" % (texdict[tex][:-1], suffix[1:])
+                    elif tex.startswith('gp_') and suffix.startswith('_'):
+                        tex_labels[k] = "$%s_{\\rm %s}$" % (texdict[tex], suffix[1:])
 
             if k not in tex_labels.keys():
                 tex_labels[k] = k
-- 
2.43.0


From b65706636991d8c64fa2242068edbd6dd54f45f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:45 +0000
Subject: [PATCH 78/97] fix: the autocorrelation plot failed for runs without
 autocorrelation criterion

---
 radvel/plot/mcmc_plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index 60cb56b..96b9958 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -114,8 +114,10 @@ class AutoPlot(object):
                 label='Autocorrelation Factor Criterion (N/{})'.format(self.auto['factor'][0]))
         if self.auto['autosamples'].min() != self.auto['autosamples'].max():
             pl.xlim(self.auto['autosamples'].min(), self.auto['autosamples'].max())
-        if (self.auto['autosamples']/self.auto['factor']).max() > self.auto['automax'].max():
-            pl.ylim(self.auto['automin'].min(), (self.auto['autosamples']/self.auto['factor']).max())
+        # the criterion is infinite for a factor of zero
+        limit = (self.auto['autosamples']/self.auto['factor']).max()
+        if np.isfinite(limit) and limit > self.auto['automax'].max():
+            pl.ylim(self.auto['automin'].min(), limit)
         else:
             pl.ylim(self.auto['automin'].min(), self.auto['automax'].max())
         pl.xlabel('Steps per Parameter')
-- 
2.43.0


From bf39058f50a2778661e154f845eede497e243c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 79/97] fix: making a report changed the caller's posterior,
 chains and units, and ordered derived parameters at random

---
 radvel/report.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index e784fb8..939d1c6 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -1,6 +1,7 @@
 import numpy as np
 import pandas as pd
 
+import copy
 import subprocess
 import os
 import tempfile
@@ -57,6 +58,10 @@ class RadvelReport(object):
 
     def __init__(self, planet, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=None,
                  derived=False):
+        # the posterior and the chains are converted below
+        post = copy.copy(post)
+        chains = chains.copy()
+
         self.planet = planet
         self.post = post
         self.starname = planet.starname
@@ -189,6 +194,9 @@ class TexTable(RadvelReport):
         self.post = report.post
         self.quantiles = report.quantiles
         self.fitting_basis = report.post.params.basis.name
+        self.units = units
+        self.latex_dict = report.latex_dict
+        self.maxparams = getattr(report.post, 'maxparams', {})
         self.minafactor = report.minafactor
         self.maxarchange = report.maxarchange
         self.maxgr = report.maxgr
@@ -209,8 +217,8 @@ class TexTable(RadvelReport):
             low = self.quantiles[param][0.5] - self.quantiles[param][0.159]
             high = self.quantiles[param][0.841] - self.quantiles[param][0.5]
 
-        maxlike = self.post.maxparams[param]
-        tex = self.report.latex_dict[param]
+        maxlike = self.maxparams[param]
+        tex = self.latex_dict[param]
 
         low = radvel.utils.round_sig(low)
         high = radvel.utils.round_sig(high)
@@ -250,19 +258,19 @@ class TexTable(RadvelReport):
                 par = p+str(n)
 
                 # get unit for parameter
-                unit = units.get(p, '')
+                unit = self.units.get(p, '')
 
                 # try to remove suffix
-                if unit == '' and par not in units.keys():
+                if unit == '' and par not in self.units.keys():
                     for s in suffixes:
                         if s in p:
-                            unit = units.get(p.replace(s, ''), '')
+                            unit = self.units.get(p.replace(s, ''), '')
                             break
 
                 # if still can't find units get it by the parameter itself
                 # (derived parameters)
                 if unit == '':
-                    unit = units.get(par, '')
+                    unit = self.units.get(par, '')
 
                 try:
                     row = self._row(par, unit)
@@ -420,22 +428,24 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
 
         dpl = radvel.plot.mcmc_plots.DerivedPlot(self.report.chains, self.report.planet)
         derived_params = dpl.labels
-        derived_basis = ' '.join(set([s[:-1] for s in derived_params]))
+        derived_basis = ' '.join(dict.fromkeys(s.rstrip('0123456789') for s in derived_params))
         derived_tex = dpl.texlabels
         derived_units = dpl.units
 
-        self.report.latex_dict.update(dict(zip(derived_params, derived_tex)))
-        units.update(dict(zip(derived_params, derived_units)))
-
-        self.quantiles = dpl.chains.quantile([0.159, 0.5, 0.841])
+        # the other tables keep their own units and values
+        derived = copy.copy(self)
+        derived.units = dict(self.units, **dict(zip(derived_params, derived_units)))
+        derived.latex_dict = dict(self.latex_dict, **dict(zip(derived_params, derived_tex)))
+        derived.quantiles = dpl.chains.quantile([0.159, 0.5, 0.841])
 
+        maxparams = derived.maxparams = dict(self.maxparams)
         for par in derived_params:
             # self.report.post.maxparams[par] = self.report.chains[par].iloc[
             #     self.report.chains['lnprobability'].argmax]
-            self.post.maxparams[par] = dpl.chains.loc[dpl.chains['lnprobability'].idxmax(), par]
+            maxparams[par] = dpl.chains.loc[dpl.chains['lnprobability'].idxmax(), par]
 
         kw = dict()
-        kw['derived_rows'] = self._data(derived_basis)
+        kw['derived_rows'] = derived._data(derived_basis)
         if name_in_title:
             kw['title'] = "{} Derived Posteriors".format(self.report.starname)
         else:
-- 
2.43.0


From b9d97a86e561e8e5e337f1914ce75c349b0e10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 80/97] fix: parameter tables listed the print basis twice
 instead of the fitting basis, without tc if fitted with tp

---
 radvel/report.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 939d1c6..6f35812 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -193,7 +193,7 @@ class TexTable(RadvelReport):
         self.report = report
         self.post = report.post
         self.quantiles = report.quantiles
-        self.fitting_basis = report.post.params.basis.name
+        self.fitting_basis = report.planet.fitting_basis
         self.units = units
         self.latex_dict = report.latex_dict
         self.maxparams = getattr(report.post, 'maxparams', {})
@@ -217,7 +217,8 @@ class TexTable(RadvelReport):
             low = self.quantiles[param][0.5] - self.quantiles[param][0.159]
             high = self.quantiles[param][0.841] - self.quantiles[param][0.5]
 
-        maxlike = self.maxparams[param]
+        # summaries have no values for parameters of the print basis only
+        maxlike = self.maxparams[param] if param in self.maxparams else self.post.params[param].value
         tex = self.latex_dict[param]
 
         low = radvel.utils.round_sig(low)
-- 
2.43.0


From 1b957f7ee4bb6f48c01a05a894bc69b15bce0977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:50 +0000
Subject: [PATCH 81/97] fix: parameter tables listed another instrument's
 values for instruments like j and j1, and no decorrelation parameters

---
 radvel/report.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 6f35812..aa06dcc 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -206,9 +206,6 @@ class TexTable(RadvelReport):
         """
         Helper function to output the rows in the parameter table
         """
-        if param not in self.quantiles.keys():
-            param = param[:-1]
-
         if unit == 'radians':
             par = radvel.utils.geterr(self.report.chains[param], angular=True)
             med, low, high = par
@@ -256,7 +253,7 @@ class TexTable(RadvelReport):
 
         for n in range(1, nloop):
             for p in basis.split():  # loop over variables
-                par = p+str(n)
+                par = p if dontloop else p+str(n)
 
                 # get unit for parameter
                 unit = self.units.get(p, '')
@@ -361,15 +358,17 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
         for o in order:
             op = []
             for p in self.post.likelihood.extra_params:
-                if o in p:
+                if p.startswith(o):
                     op.append(p)
             if len(op)==0:
                 op = [o]
             [ep.append(i) for i in sorted(op)[::-1]]
 
-        # Add GP parameters
+        # Add decorrelation, GP and any other parameters
         for par in self.report.post.likelihood.vector.names:
-            if par.startswith('gp_'):
+            base = par.rstrip('0123456789')
+            orbital = par != base and base in (self.fitting_basis + ' ' + print_basis).split()
+            if par != '' and par not in ep and not orbital:
                 ep.append(par)
 
         ep = ' '.join(ep)
-- 
2.43.0


From b0426ff48d8e80f047bedc82fb14c1cd9d561a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:50 +0000
Subject: [PATCH 82/97] fix: units of offsets and GP amplitudes were malformed,
 those of some instruments and parameters missing

---
 radvel/report.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index aa06dcc..c6d9734 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -15,6 +15,7 @@ env = Environment(loader=PackageLoader('radvel', 'templates'))
 print_basis = 'per tc tp e w k'
 units = {
     'per': 'days',
+    'logper': r'$\ln{(\rm days)}$',
     'tp': 'JD',
     'tc': 'JD',
     'e': '',
@@ -23,14 +24,15 @@ units = {
     'logk': r'$\ln{(\rm m\ s^{-1})}$',
     'secosw': '',
     'sesinw': '',
-    'gamma': 'm s$-1$',
-    'jitter': 'm s$-1$',
+    'gamma': 'm s$^{-1}$',
+    'jitter': 'm s$^{-1}$',
     'logjit': r'$\ln{(\rm m\ s^{-1})}$',
     'jit': r'$\rm m\ s^{-1}$',
     'dvdt': 'm s$^{-1}$ d$^{-1}$',
     'curv': 'm s$^{-1}$ d$^{-2}$',
-    'gp_amp': 'm s$-1$',
+    'gp_amp': 'm s$^{-1}$',
     'gp_explength': 'days',
+    'gp_length': 'days',
     'gp_per': 'days',
     'gp_perlength': '',
     # 'mpsini': '$M_\earth$',
@@ -261,8 +263,8 @@ class TexTable(RadvelReport):
                 # try to remove suffix
                 if unit == '' and par not in self.units.keys():
                     for s in suffixes:
-                        if s in p:
-                            unit = self.units.get(p.replace(s, ''), '')
+                        if p.endswith(s) and p[:-len(s)] in self.units:
+                            unit = self.units[p[:-len(s)]]
                             break
 
                 # if still can't find units get it by the parameter itself
-- 
2.43.0


From 4bdeed080d27ac3f1ad86aba4f89cdf163281777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:02 +0000
Subject: [PATCH 83/97] fix: tables with underscores in names of stars,
 instruments or parameters did not compile

---
 radvel/model.py  | 10 +++++++---
 radvel/report.py | 20 ++++++++++++--------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 63e56af..a274776 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -151,6 +151,10 @@ should have only integers as keys."""
         if param_list is None:
             param_list = self.keys()
 
+        def rm(suffix):
+            # more than one subscript would not compile
+            return suffix.replace('_', '\\_') if suffix.count('_') > 1 else suffix
+
         tex_labels = {}
         for k in param_list:
             p = k.rstrip('0123456789')
@@ -166,11 +170,11 @@ should have only integers as keys."""
                     if not k.startswith(tex):
                         continue
                     if tex.endswith('_'):
-                        tex_labels[k] = "$%s%s}$" % (texdict[tex], suffix)
+                        tex_labels[k] = "$%s%s}$" % (texdict[tex], rm(suffix))
                     elif tex.startswith('gp_') and suffix.startswith('_') and texdict[tex].endswith('}'):
-                        tex_labels[k] = "$%s, \\rm %s}$" % (texdict[tex][:-1], suffix[1:])
+                        tex_labels[k] = "$%s, \\rm %s}$" % (texdict[tex][:-1], rm(suffix[1:]))
                     elif tex.startswith('gp_') and suffix.startswith('_'):
-                        tex_labels[k] = "$%s_{\\rm %s}$" % (texdict[tex], suffix[1:])
+                        tex_labels[k] = "$%s_{\\rm %s}$" % (texdict[tex], rm(suffix[1:]))
 
             if k not in tex_labels.keys():
                 tex_labels[k] = k
diff --git a/radvel/report.py b/radvel/report.py
index c6d9734..48227a4 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -234,6 +234,10 @@ class TexTable(RadvelReport):
             else:
                 errfmt = '^{+%s}_{-%s}' % (errhigh, errlow)
 
+        # names without TeX label
+        if '$' not in tex:
+            tex = tex.replace('_', '\\_')
+
         row = "%s & $%s%s$ & $%s$ & %s" % (tex, med, errfmt, maxlike, unit)
         return row
 
@@ -299,7 +303,7 @@ class TexTable(RadvelReport):
 
         kw = {}
         if name_in_title:
-            kw['title'] = "{} Summary of Priors".format(self.report.starname)
+            kw['title'] = "{} Summary of Priors".format(self.report.starname_tex)
         else:
             kw['title'] = "Summary of Priors"
         tmpfile = 'tab_prior_summary.tex'
@@ -324,7 +328,7 @@ class TexTable(RadvelReport):
         else:
             max_lines = int(np.round(max_lines))
             iters = range(nvels)[:max_lines]
-            kw['notes'] = r"""Only the first %d of %d RVs are displayed in this table. \
+            kw['notes'] = '' if nvels <= max_lines else r"""Only the first %d of %d RVs are displayed in this table. \
 Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate file.""" % (max_lines, nvels)
 
         rows = []
@@ -334,13 +338,13 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
             e = self.post.likelihood.yerr[i]
             inst = self.post.likelihood.telvec[i]
             if '_' in inst:
-                inst = inst.replace('_', r'$_{\rm ')
-                inst += '}$'
+                base, sub = inst.split('_', 1)
+                inst = base + r'$_{\rm ' + sub.replace('_', r'\_') + '}$'
             row = "{:.5f} & {:.2f} & {:.2f} & {:s}".format(t, v, e, inst)
             rows.append(row)
 
         if name_in_title:
-            kw['title'] = "{} Radial Velocities".format(self.report.starname)
+            kw['title'] = "{} Radial Velocities".format(self.report.starname_tex)
         else:
             kw['title'] = "Radial Velocities"
         tmpfile = 'tab_rv.tex'
@@ -382,7 +386,7 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
         kw['nlinks'] = len(self.report.chains)
         kw['time_base'] = self.report.post.likelihood.model.time_base
         if name_in_title:
-            kw['title'] = "{} Posteriors".format(self.report.starname)
+            kw['title'] = "{} Posteriors".format(self.report.starname_tex)
         else:
             kw['title'] = "Posteriors"
         tmpfile = 'tab_params.tex'
@@ -408,7 +412,7 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
         kw = dict()
         kw['rows'] = rows
         if name_in_title:
-            kw['title'] = "{} Final Convergence Criterion".format(self.report.starname)
+            kw['title'] = "{} Final Convergence Criterion".format(self.report.starname_tex)
         else:
             kw['title'] = "Final Convergence Criterion"
 
@@ -449,7 +453,7 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
         kw = dict()
         kw['derived_rows'] = derived._data(derived_basis)
         if name_in_title:
-            kw['title'] = "{} Derived Posteriors".format(self.report.starname)
+            kw['title'] = "{} Derived Posteriors".format(self.report.starname_tex)
         else:
             kw['title'] = "Derived Posteriors"
         tmpfile = 'tab_derived.tex'
-- 
2.43.0


From f430ffe5d2572c5f62d5fadeb6d05a504c9b0b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:02 +0000
Subject: [PATCH 84/97] fix: parameter tables showed small fixed values as zero
 and free parameters with a one-sided uncertainty as fixed

---
 radvel/report.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 48227a4..b6292e7 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -225,8 +225,10 @@ class TexTable(RadvelReport):
         maxlike, errlow, errhigh = radvel.utils.sigfig(maxlike, low, high)
         med, errlow, errhigh = radvel.utils.sigfig(med, low, high)
 
-        if min(errlow,errhigh) <= 1e-12:
-            med = maxlike = r"\equiv%s" % round(self.quantiles[param][0.5], 4)
+        if max(errlow,errhigh) <= 1e-12:
+            val = self.quantiles[param][0.5]
+            val = round(val, 4) if abs(val) >= 1 else radvel.utils.round_sig(val, 4)
+            med = maxlike = r"\equiv%s" % val
             errfmt = ''
         else:
             if errhigh == errlow:
-- 
2.43.0


From 6061991d57ce9bce45e792db78145b61de717ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:37 +0000
Subject: [PATCH 85/97] fix: the summary of priors named planets with other
 letters than their parameters

---
 radvel/prior.py  | 24 ++++++++++++++++--------
 radvel/report.py |  3 ++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 927d8d4..3e919bb 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -16,9 +16,19 @@ class Prior(object):
     # Relevant only for nested sampling.
     extra_constraint = False
 
+    # optional map to match the planet numbers to different letters
+    planet_letters = None
+
     def __repr__(self):
         return "Generic Prior"
 
+    def _tex_labels(self, param_list):
+        letters = self.planet_letters
+        tex = model.Parameters(9, planet_letters=letters).tex_labels(param_list=param_list)
+
+        # names without TeX label
+        return {k: t if '$' in t else t.replace('_', '\\_') for k, t in tex.items()}
+
 
 class Gaussian(Prior):
     """Gaussian prior
@@ -51,7 +61,7 @@ class Gaussian(Prior):
 
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=[self.param])[self.param]
+            tex = self._tex_labels([self.param])[self.param]
 
             s = "Gaussian prior on {}: ${} \\pm {}$ \\\\".format(tex, self.mu, self.sigma)
         except KeyError:
@@ -86,12 +96,10 @@ class EccentricityPrior(Prior):
         return msg[:-1]
 
     def __str__(self):
-        tex = model.Parameters(9, basis='per tc e w k').tex_labels()
-
         msg = ""
         for i, num_planet in enumerate(self.planet_list):
             par = "e{}".format(num_planet)
-            label = tex[par]
+            label = self._tex_labels([par])[par]
             msg += "{} constrained to be $<{}$ \\\\\\\\\n".format(label, self.upperlims[i])
 
         return msg[:-5]
@@ -238,7 +246,7 @@ class HardBounds(Prior):
 
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=[self.param])[self.param]
+            tex = self._tex_labels([self.param])[self.param]
 
             s = "Bounded prior: ${} < {} < {}$".format(self.minval,
                                                        tex.replace('$', ''),
@@ -353,7 +361,7 @@ class Jeffreys(Prior):
         return s
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=[self.param])[self.param]
+            tex = self._tex_labels([self.param])[self.param]
 
             s = "Jeffrey's prior: ${} < {} < {}$".format(self.minval,
                                                        tex.replace('$',''),
@@ -409,7 +417,7 @@ class ModifiedJeffreys(Prior):
         return s
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=[self.param])[self.param]
+            tex = self._tex_labels([self.param])[self.param]
 
             s = "Modified Jeffrey's prior: knee = {}; ${} < {} < {}$".format(
                 self.kneeval, self.minval, tex.replace('$',''), self.maxval
@@ -480,7 +488,7 @@ class NumericalPrior(Prior):
 
     def __str__(self):
         try:
-            tex = model.Parameters(9).tex_labels(param_list=self.param_list)
+            tex = self._tex_labels(self.param_list)
             t=[tex[key] for key in tex.keys()]
             if len(self.param_list) == 1:
                 str2print = '{0}'.format(*t)
diff --git a/radvel/report.py b/radvel/report.py
index b6292e7..a619a3f 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -294,10 +294,11 @@ class TexTable(RadvelReport):
             name_in_title (Bool [optional]): if True, include
                 the name of the star in the table title
         """
-        texdict = self.post.likelihood.params.tex_labels()
         prior_list = self.post.priors
         rows = []
         for prior in prior_list:
+            prior = copy.copy(prior)
+            prior.planet_letters = self.post.params.planet_letters
             row = prior.__str__()
             if not row.endswith("\\\\"):
                 row = row + "\\\\"
-- 
2.43.0


From c6b38a4fd40d298077d64fa19efdfeceded51a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 86/97] fix: the plot of derived parameters failed if one of
 them is known exactly

---
 radvel/plot/mcmc_plots.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index 96b9958..b68fa3b 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -253,10 +253,17 @@ class DerivedPlot(object):
             label = '{} [{}]'.format(t, u)
             plot_labels.append(label)
 
+        # parameters known exactly have no dynamic range
+        ranges = []
+        for label in self.labels:
+            low, high = self.chains[label].min(), self.chains[label].max()
+            pad = 1e-3*max(abs(low), 1e-3) if low == high else 0
+            ranges.append((low - pad, high + pad))
+
         _ = corner.corner(
             self.chains[self.labels], labels=plot_labels, label_kwargs={"fontsize": 14},
             plot_datapoints=False, bins=30, quantiles=[0.16, 0.50, 0.84],
-            show_titles=True, title_kwargs={"fontsize": 14}, smooth=True
+            show_titles=True, title_kwargs={"fontsize": 14}, smooth=True, range=ranges
         )
         
         if self.saveplot is not None:
-- 
2.43.0


From e33564566f20b96537c1a677e6fa0a4871e3c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:56 +0000
Subject: [PATCH 87/97] fix: MCMC could not start from a period of one day or a
 fitted period below zero

---
 radvel/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 5d3fea4..6d86e32 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -329,7 +329,8 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             val = post.vector.vector[par][0]
             if post.vector.vector[par][2] == 0:
                 if names[i].startswith('per'):
-                    pscale = np.abs(val * 1e-5*np.log10(val))
+                    # the logarithm is zero for one day
+                    pscale = np.abs(val * 1e-5*np.log10(np.abs(val))) or 1e-5
                 elif names[i].startswith('logper'):
                     pscale = np.abs(1e-5 * val)
                 elif names[i].startswith('tc') or names[i].startswith('tp'):
-- 
2.43.0


From eefdd7a82c2333d73f6863521d2b6da0b7bb48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 88/97] fix: phase plots failed for masses that are undefined
 in some rows of the chains

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 2f1adf2..e18e35b 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -385,7 +385,7 @@ class MultipanelPlot(object):
                 derived_params = ['mpsini']
                 for l, par in enumerate(derived_params):
                     par_label = par + str(pnum)
-                    if par_label in self.post.derived.columns:
+                    if par_label in self.post.derived.columns and par_label in labels:
                         index = np.where(np.array(labels) == par_label)[0][0]
 
                         unit = units[index]
-- 
2.43.0


From 7846b6b2fdfa81084ced68640f4af29904849ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 89/97] fix: set_xlim drew no model for times with the epoch
 subtracted already and was ignored by separate GP panels

---
 radvel/plot/orbit_plots.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index e18e35b..0ef2499 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -142,10 +142,13 @@ class MultipanelPlot(object):
         else:
             longp = max(self.post.likelihood.x) - min(self.post.likelihood.x)
 
+        # times with an epoch subtracted already are plotted as they are
+        shifted = not ((self.rvtimes - self.epoch) < -2.4e6).any()
         if self.set_xlim is not None:
             self.dt = self.set_xlim[1] - self.set_xlim[0]
+            offset = self.epoch if shifted else 0
             self.rvmodt = np.linspace(
-                (self.set_xlim[0]+self.epoch) - 0.05 * self.dt, (self.set_xlim[1]+self.epoch) + 0.05 * self.dt + longp,
+                (self.set_xlim[0]+offset) - 0.05 * self.dt, (self.set_xlim[1]+offset) + 0.05 * self.dt + longp,
                 int(resolution)
             )
         else:
@@ -158,7 +161,7 @@ class MultipanelPlot(object):
         self.orbit_model = self.model(self.rvmodt)
         self.rvmod = self.model(self.rvtimes)
 
-        if ((self.rvtimes - self.epoch) < -2.4e6).any():
+        if not shifted:
             self.plttimes = self.rvtimes
             self.mplttimes = self.rvmodt
         elif self.epoch == 0:
@@ -602,7 +605,9 @@ class GPMultipanelPlot(MultipanelPlot):
         if isinstance(like, radvel.likelihood.GPLikelihood):
 
             if self.set_xlim is not None:
-                xpred = np.linspace(self.set_xlim[0]+self.epoch, self.set_xlim[1]+self.epoch, num=int(3e3))
+                # times with an epoch subtracted already are plotted as they are
+                offset = 0 if ((like.x - self.epoch) < -2.4e6).any() else self.epoch
+                xpred = np.linspace(self.set_xlim[0]+offset, self.set_xlim[1]+offset, num=int(3e3))
             else:
                 xpred = np.linspace(np.min(like.x), np.max(like.x), num=int(3e3))
 
@@ -780,7 +785,10 @@ class GPMultipanelPlot(MultipanelPlot):
                     self.post.likelihood.telvec, ax, telfmts=self.telfmts
                 )
 
-                ax.set_xlim(min(self.plttimes)-0.01*self.dt, max(self.plttimes)+0.01*self.dt)    
+                if self.set_xlim is not None:
+                    ax.set_xlim(self.set_xlim)
+                else:
+                    ax.set_xlim(min(self.plttimes)-0.01*self.dt, max(self.plttimes)+0.01*self.dt)
                 pl.setp(ax.get_xticklabels(), visible=False)
 
                 # legend
-- 
2.43.0


From bcf899ed23b2e73793819b43d7ab289dee48a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:09 +0000
Subject: [PATCH 90/97] fix: GP plots with the GP subtracted could not show the
 curves separately

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 0ef2499..f6e6766 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -626,7 +626,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 xpred = xpred - self.epoch
 
             if self.subtract_gp_mean_model:
-                gpmu = 0.
+                gpmu = np.zeros(xpred.shape)
             else:
                 gp_mean4data, _ = like.predict(like.x)
                 indx = np.where(self.post.likelihood.telvec == like.suffix)
-- 
2.43.0


From 919453bc42a03cd3e98d6c5f316cfe024582b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:21 +0000
Subject: [PATCH 91/97] fix: with an epoch of zero GP curves were drawn away
 from their data and set_xlim drew no model

---
 radvel/plot/orbit_plots.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index f6e6766..b7d2401 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -70,7 +70,8 @@ class MultipanelPlot(object):
 
         self.post = copy.deepcopy(post)
         self.saveplot = saveplot
-        self.epoch = epoch
+        # an epoch of zero stands for the default
+        self.epoch = epoch if epoch != 0 else 2450000
         self.yscale_auto = yscale_auto
         self.yscale_sigma = yscale_sigma
         if phase_ncols is None:
@@ -164,10 +165,6 @@ class MultipanelPlot(object):
         if not shifted:
             self.plttimes = self.rvtimes
             self.mplttimes = self.rvmodt
-        elif self.epoch == 0:
-            self.epoch = 2450000
-            self.plttimes = self.rvtimes - self.epoch
-            self.mplttimes = self.rvmodt - self.epoch
         else:
             self.plttimes = self.rvtimes - self.epoch
             self.mplttimes = self.rvmodt - self.epoch
@@ -619,9 +616,6 @@ class GPMultipanelPlot(MultipanelPlot):
 
             if ((xpred - self.epoch) < -2.4e6).any():
                 pass
-            elif self.epoch == 0:
-                self.epoch = 2450000
-                xpred = xpred - self.epoch
             else:
                 xpred = xpred - self.epoch
 
-- 
2.43.0


From 79be525662e26300b7e8b469d9979b85cd6f2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:15 +0000
Subject: [PATCH 92/97] fix: separate GP panels with several columns of phase
 plots left no room for the phase plots

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index b7d2401..509dfd6 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -727,7 +727,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 scalefactor = self.phase_nrows
 
             n_likes = len(self.like_list)
-            figheight = self.ax_rv_height*(n_likes//self.phase_ncols+1.5) + self.ax_phase_height * scalefactor
+            figheight = self.ax_rv_height*(n_likes+1.5) + self.ax_phase_height * scalefactor
 
             # provision figure
             self.ax_list = []
-- 
2.43.0


From 02479f5b031238d373123173416c4d566ab0b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:05 +0000
Subject: [PATCH 93/97] fix: Celerite predictions were not a number for a
 negative jitter

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 468cfca..cac7a37 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -620,7 +620,7 @@ class CeleriteLikelihood(GPLikelihood):
 
         # build celerite kernel with current values of hparams
         kernel = celerite.terms.JitterTerm(
-                log_sigma = np.log(self.vector.vector[self.jit_index][0])
+                log_sigma = np.log(np.abs(self.vector.vector[self.jit_index][0]))
                 )
 
         kernel += celerite.terms.RealTerm(
-- 
2.43.0


From e5e46ef5ea4b30f0815a7afec05a1b57fe9e6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:05 +0000
Subject: [PATCH 94/97] fix: setup files with logjit parameters failed while
 their parameters were converted

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index b742cf3..37b73da 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -78,7 +78,7 @@ Parameters in config file must be converted to fitting basis.
     else:
         decorr_vars = []
 
-    for key in params.keys():
+    for key in list(params.keys()):
         if key.startswith('logjit'):
             msg = """
 Fitting log(jitter) is depreciated. Please convert your config
-- 
2.43.0


From 931db2b1b90490dc988bd0c285406e3bc58bd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:18 +0000
Subject: [PATCH 95/97] fix: radvel mcmc --serial False ran the ensembles in
 series

---
 radvel/cli.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index 5e7c0c1..67dcc65 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -2,12 +2,20 @@
 Command Line Interface
 """
 import os
-from argparse import ArgumentParser
+from argparse import ArgumentParser, ArgumentTypeError
 
 import radvel.driver
 from radvel.nested_sampling import BACKENDS
 
 
+def _boolean(text):
+    if text.lower() in ('true', 'yes', '1'):
+        return True
+    if text.lower() in ('false', 'no', '0'):
+        return False
+    raise ArgumentTypeError("expected True or False, not {}".format(text))
+
+
 def main():
     psr = ArgumentParser(
         description="RadVel: The Radial Velocity Toolkit", prog='RadVel'
@@ -111,7 +119,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
     psr_mcmc.add_argument('--thin', dest='thin', action='store', default=10, type=int,
                           help="Save one sample every N steps [default=10, save every 10th sample]"
                           )
-    psr_mcmc.add_argument('--serial', dest='serial', action='store', default=False, type=bool,
+    psr_mcmc.add_argument('--serial', dest='serial', action='store', default=False, type=_boolean,
                           help='''If True, run MCMC in serial instead of parallel. [False]'''
                           )
     psr_mcmc.add_argument('--save', dest='save', action='store_true',
-- 
2.43.0


From b02dcd66f3988a94c29f7d5be7a40014695c3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:18 +0000
Subject: [PATCH 96/97] fix: the help of radvel mcmc stated other defaults than
 those in use

---
 radvel/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index 67dcc65..6564085 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -91,10 +91,10 @@ E.g. --plotkw "{'yscale_auto': True}"' ''')
                           help="Number of ensembles. Will be run in parallel on separate CPUs [8]"
                           )
     psr_mcmc.add_argument('--minAfactor', dest='minAfactor', action='store', default=40, type=float,
-                          help="Minimum factor between autocorrelation time and number of samples for chains to be deemed well-mixed [50]"
+                          help="Minimum factor between autocorrelation time and number of samples for chains to be deemed well-mixed [40]"
                           )
     psr_mcmc.add_argument('--maxArchange', dest='maxArchange', action='store', default=.03, type=float,
-                          help="Max relative-change in autocorrelation time for chains to be deemed well-mixed [.07]"
+                          help="Max relative-change in autocorrelation time for chains to be deemed well-mixed [.03]"
                           )
     psr_mcmc.add_argument('--maxGR', dest='maxGR', action='store', default=1.01, type=float,
                           help="Maximum G-R statistic for chains to be deemed well-mixed and halt the MCMC run [1.01]"
-- 
2.43.0


From 9690a3c7c468cd417643eef984ca718ab59b396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:41 +0000
Subject: [PATCH 97/97] fix: the ensembles of an MCMC run used the same random
 numbers

---
 radvel/mcmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 6d86e32..3630778 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -363,7 +363,10 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 statevars.initial_positions.append(p0)
             else:
                 statevars.initial_positions.append(statevars.prechains[e][-1, :, :])
-            statevars.samplers.append(emcee.EnsembleSampler(statevars.nwalkers, statevars.ndim, logprob))
+            sampler = emcee.EnsembleSampler(statevars.nwalkers, statevars.ndim, logprob)
+            # emcee starts from the global random state, where all ensembles would read the same sequence
+            sampler.random_state = np.random.RandomState(np.random.randint(2**31, size=4)).get_state()
+            statevars.samplers.append(sampler)
 
         if proceed:
             for i, sampler in enumerate(statevars.samplers):
-- 
2.43.0

