From 18f1efd048ea73fcf3f04345aa24f5a314699ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:39 +0000
Subject: [PATCH 01/24] fix: accept a power-law index of +1

The normalisation is well defined for every index (-1 is handled explicitly),
but numpy rejected alpha=+1 passed as a keyword, so e.g. power_law_mass with
alpha=-1 raised a ValueError while jax returned the density.
---
 gwpopulation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index b8a909a..d535a02 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -3,7 +3,7 @@ Helper functions for probability distributions and backend switching.
 """
 
 from numbers import Number
-from operator import ge, gt, ne
+from operator import ge, gt
 
 import numpy as np
 from scipy import special as scs
@@ -94,7 +94,7 @@ def beta_dist(xx, alpha, beta, scale=1):
     return prob
 
 
-@apply_conditions(dict(low=(ge, 0), alpha=(ne, 1)))
+@apply_conditions(dict(low=(ge, 0)))
 def powerlaw(xx, alpha, high, low):
     r"""
     Power-law probability
-- 
2.43.0


From 475ba859a66b2bc925f98ca6296d0381082c693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 02/24] fix: evaluate the beta density at the ends of its
 support

0 * log(0) made the density zero at x=0 for alpha=1 and at x=scale for beta=1,
e.g., the uniform distribution vanished at both ends.
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index d535a02..7b14fe3 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -85,7 +85,7 @@ def beta_dist(xx, alpha, beta, scale=1):
         The distribution evaluated at `xx`
 
     """
-    ln_beta = (alpha - 1) * xp.log(xx) + (beta - 1) * xp.log(scale - xx)
+    ln_beta = scs.xlogy(alpha - 1, xx) + scs.xlogy(beta - 1, scale - xx)
     ln_beta -= scs.betaln(alpha, beta)
     ln_beta -= (alpha + beta - 1) * xp.log(scale)
     prob = xp.exp(ln_beta)
-- 
2.43.0


From a3e0844e2e4a1000084f595cac79a05e6672be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 03/24] fix: use the determinant of the documented covariance
 matrix

The determinant of [[sx^2, rho sx sy], [rho sx sy, sy^2]] is
sx^2 sy^2 (1 - rho^2), the code used (1 - rho).
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 7b14fe3..1384232 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -217,7 +217,7 @@ def unnormalized_2d_gaussian(xx, yy, mu_x, mu_y, sigma_x, sigma_y, covariance):
     prob: array-like
         The unnormalized probability distribution (:math:`p(x)`)
     """
-    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance)
+    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance**2)
     residual_x = (mu_x - xx) * sigma_y
     residual_y = (mu_y - yy) * sigma_x
     prob = xp.exp(
-- 
2.43.0


From 9bc4cc5366c42db1e375b1013cc2fb87010c3e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 04/24] fix: do not overwrite array inputs when converting beta
 parameters

The in-place division changed the caller's mu and var arrays, including the
entries of the dictionary given to convert_to_beta_parameters.
---
 gwpopulation/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/conversions.py b/gwpopulation/conversions.py
index f2afbcf..f4ecf25 100644
--- a/gwpopulation/conversions.py
+++ b/gwpopulation/conversions.py
@@ -128,8 +128,8 @@ def mu_var_max_to_alpha_beta_max(mu, var, amax):
     amax: float
         The maximum spin (:math:`a_\max`)
     """
-    mu /= amax
-    var /= amax**2
+    mu = mu / amax
+    var = var / amax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta, amax
-- 
2.43.0


From ab52664775c552da29b8f1c307b4f46801ac3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 05/24] fix: do not remove the sensitivity from the dictionary
 given to GridVT

Building a second GridVT from the same dictionary raised a KeyError.
---
 gwpopulation/vt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 1e17d80..8553dc5 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -85,6 +85,7 @@ class GridVT(_BaseVT):
     """
 
     def __init__(self, model, data):
+        data = data.copy()
         self.vts = xp.asarray(data.pop("vt"))
         super(GridVT, self).__init__(model=model, data=data)
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
-- 
2.43.0


From cdd33a2758f99c2842201280e146fda041efae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 06/24] fix: integrate over every axis in GridVT when axes have
 the same length

Axes were identified by their length alone, so two parameters with equally
many grid points shared an axis and only one of them was integrated over.
---
 gwpopulation/vt.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 8553dc5..a7d05a8 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -47,7 +47,7 @@ import numpy as np
 from bilby.hyper.model import Model
 
 from .models.redshift import _Redshift, total_four_volume
-from .utils import to_number, trapezoid
+from .utils import to_number, to_numpy, trapezoid
 
 xp = np
 
@@ -91,7 +91,12 @@ class GridVT(_BaseVT):
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
         shape = np.array(list(self.data.values())[0].shape)
         lens = {key: len(self.values[key]) for key in self.data}
-        self.axes = {int(np.where(shape == lens[key])[0][0]): key for key in self.data}
+        self.axes = dict()
+        for key in self.data:
+            array = to_numpy(self.data[key])
+            candidates = [int(ii) for ii in np.where(shape == lens[key])[0]]
+            varying = [ii for ii in candidates if np.ptp(array, axis=ii).any()]
+            self.axes[(varying or candidates)[0]] = key
         self.ndim = len(self.axes)
 
     def __call__(self, parameters):
-- 
2.43.0


From 30c5f40aa02cd6791942be17892cbfa29891478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 07/24] fix: keep the configuration when the number of spline
 nodes changes

Inferring a different number of nodes reset the range, interpolation order and
regularization to their defaults (and failed for the base class).
---
 gwpopulation/models/interped.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 9a93929..8bd7cbb 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -255,4 +255,13 @@ class InterpolatedNoBaseModelIdentical:
             print(
                 f"Different number of nodes! Using {nodes} nodes instead of {self.nodes}"
             )
-            self.__init__(nodes=nodes)
+            InterpolatedNoBaseModelIdentical.__init__(
+                self,
+                parameters=self.parameters,
+                minimum=self.min,
+                maximum=self.max,
+                nodes=nodes,
+                kind=self.kind,
+                log_nodes=self.log_nodes,
+                regularize=self.regularize,
+            )
-- 
2.43.0


From 854103f705cfb62eb20e0ba90c2aa552c1e22a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 08/24] fix: allow redshift after the detector-frame quantities
 in the data

The conversion raised a KeyError unless redshift was the first key.
---
 gwpopulation/experimental/cosmo_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/experimental/cosmo_models.py b/gwpopulation/experimental/cosmo_models.py
index 14b346a..8eb08c9 100644
--- a/gwpopulation/experimental/cosmo_models.py
+++ b/gwpopulation/experimental/cosmo_models.py
@@ -105,6 +105,7 @@ class CosmoMixin:
                 "Either luminosity_distance or redshift must be provided in data for detector frame to source frame samples conversion"
             )
         else:
+            samples["redshift"] = data["redshift"]
             jacobian = xp.ones(data["redshift"].shape)
 
         for key in list(data.keys()):
-- 
2.43.0


From 589ff41d5e18245d7fc933e981e1fa785ca86fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 09/24] fix: normalise InterpolatedPowerlaw over the range of
 the spline nodes

The density vanishes outside the nodes, but the normalisation included the
extrapolated spline there, so the density did not integrate to one.
---
 gwpopulation/models/mass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 826d827..cb61ca2 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -936,10 +936,12 @@ class InterpolatedPowerlaw(
         )
         p_m *= self.p_x_unnormed(dataset, "mass_1", m_splines, f_splines, **kwargs)
 
-        norm = self.norm_p_m1(delta_m=delta_m, f_splines=f_splines, **kwargs)
+        norm = self.norm_p_m1(
+            delta_m=delta_m, f_splines=f_splines, x_splines=m_splines, **kwargs
+        )
         return p_m / norm
 
-    def norm_p_m1(self, delta_m, f_splines=None, **kwargs):
+    def norm_p_m1(self, delta_m, f_splines=None, x_splines=None, **kwargs):
         mmin = kwargs.get("mmin", self.mmin)
         p_m = self.__class__.primary_model(
             self.m1s, **{key: kwargs[key] for key in ["alpha", "mmin", "mmax"]}
@@ -948,5 +950,7 @@ class InterpolatedPowerlaw(
             delta_m > 0
         )
         p_m *= xp.exp(self._norm_spline(y=f_splines))
+        if x_splines is not None:
+            p_m *= (self.m1s >= x_splines[0]) & (self.m1s <= x_splines[-1])
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From 84bd9587ab7e3c1e35af00678c151712a4fc8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 10/24] fix: do not modify the variable names of a custom
 primary mass model

Querying the names appended beta and delta_m to the list owned by the primary
model.
---
 gwpopulation/models/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index cb61ca2..80e669a 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -551,7 +551,7 @@ class BaseSmoothedMassDistribution:
             "variable_names",
             inspect.getfullargspec(self.primary_model).args[1:],
         )
-        vars += ["beta", "delta_m"]
+        vars = list(vars) + ["beta", "delta_m"]
         vars = set(vars).difference(self.kwargs.keys())
         return vars
 
-- 
2.43.0


From 128d1978cfeefc4382ca2b239d9cfaebbd8da732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 11/24] fix: compare the variance with the square of the
 maximum uncertainty

maximum_uncertainty is documented as the largest allowed uncertainty in the log
likelihood, but was compared with the variance. The squared threshold is already
computed when it is set.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 7451ef8..8ba8cc0 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -180,7 +180,7 @@ class HyperparameterLikelihood(Likelihood):
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
         ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self.maximum_uncertainty < variance), nan=0)
+        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From dc1cdc379c26e6bf79261f130c6c6de44c660d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 12/24] fix: report the documented variances in
 generate_extra_statistics

selection_variance is documented as the variance in P_det, but was divided by
P_det^2. The total variance for RateLikelihood did not match the one used in
its likelihood.
---
 gwpopulation/hyperpe.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 8ba8cc0..cd7f0ab 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -266,8 +266,7 @@ class HyperparameterLikelihood(Likelihood):
         selection, variance = self._selection_function_with_uncertainty(
             parameters=parameters
         )
-        variance /= selection**2
-        selection_variance = variance * self.n_posteriors**2
+        _, selection_variance = self._get_selection_factor(parameters=parameters)
         sample["selection"] = selection
         sample["selection_variance"] = variance
         total_variance += selection_variance
-- 
2.43.0


From 180cf0d2556aa4c4fb3da422598a5b9068b044e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 13/24] fix: allow selection functions with an uncertainty when
 drawing rates

A selection function that returns (P_det, variance) made
generate_rate_posterior_sample divide by a tuple.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index cd7f0ab..7b13fa7 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -306,7 +306,7 @@ class HyperparameterLikelihood(Likelihood):
             efficiency, _ = self.selection_function.detection_efficiency(parameters)
             vt = efficiency * self.selection_function.surveyed_hypervolume(parameters)
         else:
-            vt = self.selection_function(parameters)
+            vt, _ = self._selection_function_with_uncertainty(parameters)
         rate = gamma(a=self.n_posteriors).rvs() / vt
         return rate
 
-- 
2.43.0


From 54b507bfd06418e1fc5e130993624f15c509dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 14/24] fix: resample each event using its own weights with
 numpyro

The weights are indexed by (event, sample), the column was used instead.
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 9c55d93..d001cbd 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -128,7 +128,7 @@ def posterior_predictive_resample(
         The keys to fit. Default is :code:`None`, which fits all keys in :code:data.
     """
     if event is not None:
-        weights = weights[:, event]
+        weights = weights[event]
     weights /= jnp.sum(weights)
     n_points = int(weights.shape[0])
     idx = jax.random.choice(
-- 
2.43.0


From ae3fe6a11e20d428ff336df420072d90bc126e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 15/24] fix: use the four-volume as the rate parameter of the
 gamma distribution

The rate posterior has mean N / VT, as in generate_rate_posterior_sample.
numpyro's Gamma takes the inverse scale.
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index d001cbd..ebce2ec 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -75,7 +75,7 @@ def gwpopulation_likelihood_model(
 
         total_hypervolume = selector.surveyed_hypervolume(parameters)
         vt = total_hypervolume * efficiency
-        _ = sample("rate", Gamma(likelihood.n_posteriors, 1 / vt))
+        _ = sample("rate", Gamma(likelihood.n_posteriors, vt))
         if predictive_resample:
             posterior_predictive_resample(
                 selector.data,
-- 
2.43.0


From c98d2acd96f27431e29ecb25a7d148fe17436976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 16/24] fix: leave the backend unchanged when it cannot be set

A registered module that fails to import left some modules updated and the new
backend recorded as active, so that a second call did nothing.
---
 gwpopulation/backend.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 3dd127a..0ea72ad 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -142,15 +142,13 @@ def set_backend(backend="numpy"):
 
     xp, scs = _load_numpy_and_scipy(backend)
 
-    __backend__ = backend
     all_with_xp, all_with_scs, others = modules_to_update()
-    for module in all_with_xp:
-        setattr(import_module(module), "xp", xp)
-    for module in all_with_scs:
-        setattr(import_module(module), "scs", scs)
-    for module, func in others.items():
-        setattr(
-            import_module(module),
-            func.split(".")[-1],
-            _load_arbitrary(func, backend),
-        )
+    updates = [(import_module(module), "xp", xp) for module in all_with_xp]
+    updates += [(import_module(module), "scs", scs) for module in all_with_scs]
+    updates += [
+        (import_module(module), func.split(".")[-1], _load_arbitrary(func, backend))
+        for module, func in others.items()
+    ]
+    for module, name, value in updates:
+        setattr(module, name, value)
+    __backend__ = backend
-- 
2.43.0


From e04c88deb14d9f765857c17373577297a35c9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:27 +0000
Subject: [PATCH 17/24] fix: update every function a module has registered

Only the last of several entries for the same module was kept.
---
 gwpopulation/backend.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 0ea72ad..afd358e 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -58,8 +58,8 @@ def modules_to_update():
         List of all modules that need to be updated with the backend's :code:`scs`
         (:code:`scipy.special`).
     others: dict
-        Dictionary of all modules that need to be updated with arbitrary functions
-        from :code:`scipy`.
+        Dictionary of the list of arbitrary functions from :code:`scipy` for each
+        of the modules that need to be updated with them.
     """
     import sys
 
@@ -72,7 +72,9 @@ def modules_to_update():
     other_entries = [
         module.value.split(":") for module in entry_points(group="gwpopulation.other")
     ]
-    others = {key: value for key, value in other_entries}
+    others = dict()
+    for key, value in other_entries:
+        others.setdefault(key, []).append(value)
     return all_with_xp, all_with_scs, others
 
 
@@ -147,7 +149,8 @@ def set_backend(backend="numpy"):
     updates += [(import_module(module), "scs", scs) for module in all_with_scs]
     updates += [
         (import_module(module), func.split(".")[-1], _load_arbitrary(func, backend))
-        for module, func in others.items()
+        for module, funcs in others.items()
+        for func in funcs
     ]
     for module, name, value in updates:
         setattr(module, name, value)
-- 
2.43.0


From 37177532c95ff984ce831005cf61712529f688b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:26 +0000
Subject: [PATCH 18/24] fix: accept a power-law lower limit of zero

high / low raised ZeroDivisionError for float limits although the
condition on the argument allows zero.
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 1384232..2346796 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -121,7 +121,7 @@ def powerlaw(xx, alpha, high, low):
     """
     norm = xp.where(
         xp.array(alpha) == -1,
-        1 / xp.log(high / low),
+        1 / xp.log(xp.array(high) / low),
         (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
     )
     prob = xp.power(xx, alpha)
-- 
2.43.0


From 75fb119d13146b6b0db1d2063a063e16cb3bc3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:39 +0000
Subject: [PATCH 19/24] fix: spline models are zero beyond the nodes when the
 extrapolation overflows

---
 gwpopulation/models/interped.py | 8 ++++----
 gwpopulation/models/mass.py     | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 8bd7cbb..44aed41 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -152,10 +152,10 @@ class InterpolatedNoBaseModelIdentical:
 
         perturbation = self._data_spline[parameter](y=f_splines)
 
-        p_x = xp.exp(perturbation)
-        p_x *= (dataset[f"{parameter}"] >= x_splines[0]) & (
+        covered = (dataset[f"{parameter}"] >= x_splines[0]) & (
             dataset[f"{parameter}"] <= x_splines[-1]
         )
+        p_x = xp.exp(xp.where(covered, perturbation, -xp.inf))
         return p_x
 
     def norm_p_x(self, f_splines=None, x_splines=None, **kwargs):
@@ -176,8 +176,8 @@ class InterpolatedNoBaseModelIdentical:
             The normalization of the spline
         """
         perturbation = self._norm_spline(y=f_splines)
-        p_x = xp.exp(perturbation)
-        p_x *= (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        covered = (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        p_x = xp.exp(xp.where(covered, perturbation, -xp.inf))
         norm = trapezoid(p_x, self._xs)
         return norm
 
diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 80e669a..e7d0c27 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -949,8 +949,10 @@ class InterpolatedPowerlaw(
         p_m *= self.smoothing(self.m1s, mmin=mmin, mmax=self.mmax, delta_m=delta_m) ** (
             delta_m > 0
         )
-        p_m *= xp.exp(self._norm_spline(y=f_splines))
+        perturbation = self._norm_spline(y=f_splines)
         if x_splines is not None:
-            p_m *= (self.m1s >= x_splines[0]) & (self.m1s <= x_splines[-1])
+            covered = (self.m1s >= x_splines[0]) & (self.m1s <= x_splines[-1])
+            perturbation = xp.where(covered, perturbation, -xp.inf)
+        p_m *= xp.exp(perturbation)
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From 1ec148d5059edd1f8f84b67a04b861c11be6b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:43 +0000
Subject: [PATCH 20/24] fix: reject injection sets without support when
 marginalising the uncertainty

---
 gwpopulation/vt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index a7d05a8..d06fafd 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -233,8 +233,10 @@ class ResamplingVT(_BaseVT):
         """
         mu, var = self.detection_efficiency(parameters)
         _, correction = self.check_convergence(mu, var)
-        n_effective = mu**2 / var
-        vt_factor = mu / xp.exp((3 + self.n_events) / 2 / n_effective)
+        n_effective = xp.divide(mu**2, var)
+        vt_factor = xp.nan_to_num(
+            mu / xp.exp((3 + self.n_events) / 2 / n_effective), nan=0
+        )
         vt_factor += correction
         return vt_factor
 
-- 
2.43.0


From fdc55b9047f72fccbe85518a09c88b2692fb3089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:56 +0000
Subject: [PATCH 21/24] fix: set up the spline interpolants only when all of
 them can be

---
 gwpopulation/models/interped.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 44aed41..f8cb39a 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -119,11 +119,12 @@ class InterpolatedNoBaseModelIdentical:
         else:
             func = xp.array
         kwargs = dict(kind=self.kind, backend=xp)
-        self._norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
-        self._data_spline = {
+        data_spline = {
             param: _setup_interpolant(func(nodes), func(values[param]), **kwargs)
             for param in self.parameters
         }
+        self._norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
+        self._data_spline = data_spline
 
     def p_x_unnormed(self, dataset, parameter, x_splines, f_splines, **kwargs):
         """
-- 
2.43.0


From f2e731d73fd9b950639c594be746ec76ba57db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 22/24] fix: bind the keyword arguments of a compiled
 likelihood before tracing

---
 gwpopulation/experimental/jax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index 0bf670d..0625560 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -56,11 +56,11 @@ class JittedLikelihood(Likelihood):
             kwargs = dict()
         self.kwargs = kwargs
         self._likelihood = likelihood
-        self.likelihood_func = jit(partial(likelihood_func, likelihood))
+        self.likelihood_func = jit(partial(likelihood_func, likelihood, **kwargs))
         super().__init__()
 
     def __getattr__(self, name):
         return getattr(self._likelihood, name)
 
     def log_likelihood_ratio(self, parameters):
-        return float(np.nan_to_num(self.likelihood_func(parameters, **self.kwargs)))
+        return float(np.nan_to_num(self.likelihood_func(parameters)))
-- 
2.43.0


From 74d4ee609f054ef331d3eeb1367f987c1f0ab60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:12 +0000
Subject: [PATCH 23/24] fix: do not cache probabilities with jax, where they
 may be traced

---
 gwpopulation/hyperpe.py | 2 +-
 gwpopulation/vt.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 7b13fa7..fd72d0e 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -111,7 +111,7 @@ class HyperparameterLikelihood(Likelihood):
         self.data = self.resample_posteriors(posteriors, max_samples=max_samples)
 
         if isinstance(hyper_prior, types.FunctionType):
-            hyper_prior = Model([hyper_prior])
+            hyper_prior = Model([hyper_prior], cache="jax" not in xp.__name__)
         elif not (
             hasattr(hyper_prior, "parameters")
             and callable(getattr(hyper_prior, "prob"))
diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index d06fafd..7c12fa5 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -62,9 +62,9 @@ class _BaseVT:
     def __init__(self, model, data):
         self.data = {key: xp.asarray(value) for key, value in data.items()}
         if isinstance(model, list):
-            model = Model(model)
+            model = Model(model, cache="jax" not in xp.__name__)
         elif not isinstance(model, Model):
-            model = Model([model])
+            model = Model([model], cache="jax" not in xp.__name__)
         self.model = model
 
     def __call__(self, *args, **kwargs):
-- 
2.43.0


From 4344931696aee286f79ec306c6cfce5cb378cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:27 +0000
Subject: [PATCH 24/24] fix: do not index the meta data of injections when
 resampling with numpyro

---
 gwpopulation/experimental/numpyro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index ebce2ec..2166a1c 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -125,7 +125,8 @@ def posterior_predictive_resample(
     shape: tuple, optional
         The shape of the output sample. Default is :code:`()`.
     fit_keys: list, optional
-        The keys to fit. Default is :code:`None`, which fits all keys in :code:data.
+        The keys to fit. Default is :code:`None`, which fits all keys in :code:data
+        that have an entry for each sample.
     """
     if event is not None:
         weights = weights[event]
@@ -139,7 +140,7 @@ def posterior_predictive_resample(
         replace=False,
     )
     if fit_keys is None:
-        fit_keys = data.keys()
+        fit_keys = [key for key in data if jnp.ndim(data[key]) > 0]
     for key in fit_keys:
         if event is None:
             deterministic(f"{key}_{label}", data[key][idx])
-- 
2.43.0

