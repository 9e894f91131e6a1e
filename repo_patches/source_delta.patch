From 964a773190d225d1d88d01f600dc832072601a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 01/30] fix: posterior mean fails when the number of responses
 equals the number of neighbors

---
 src/MuyGPyS/_src/gp/muygps/numpy.py | 17 ++++++++++++-----
 src/MuyGPyS/_src/gp/muygps/torch.py | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index 93901d3..637f640 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -7,11 +7,18 @@ import MuyGPyS._src.math.numpy as np
 
 
 def _find_matching_ndim(nn_targets: np.ndarray, Kin: np.ndarray):
-    # assumes that nntargets.ndim <= Kin.ndim
-    nshape = np.array(nn_targets.shape)
-    Kshape = np.array(Kin.shape)
-    shared_shape = np.equal(nshape, Kshape[: nn_targets.ndim])
-    return np.count_nonzero(shared_shape)
+    # assumes that nn_targets.ndim <= Kin.ndim, that Kin has shape
+    # batch_shape + in_shape + in_shape, and that the shape of nn_targets begins
+    # with batch_shape + in_shape. The trailing (response) dimensions of
+    # nn_targets might coincide with those of Kin and must not be counted.
+    for ndim in range(Kin.ndim // 2 + 1, Kin.ndim):
+        batch_ndim = 2 * ndim - Kin.ndim
+        if (
+            nn_targets.shape[:ndim] == Kin.shape[:ndim]
+            and Kin.shape[batch_ndim:ndim] == Kin.shape[ndim:]
+        ):
+            return ndim
+    return Kin.ndim // 2
 
 
 def _muygps_posterior_mean(
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index a43e4b9..afcce51 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -7,11 +7,18 @@ import MuyGPyS._src.math.torch as torch
 
 
 def _find_matching_ndim(nn_targets: torch.ndarray, Kin: torch.ndarray):
-    # assumes that nntargets.ndim <= Kin.ndim
-    nshape = torch.array(nn_targets.shape)
-    Kshape = torch.array(Kin.shape)
-    shared_shape = torch.eq(nshape, Kshape[: nn_targets.ndim])
-    return torch.count_nonzero(shared_shape)
+    # assumes that nn_targets.ndim <= Kin.ndim, that Kin has shape
+    # batch_shape + in_shape + in_shape, and that the shape of nn_targets begins
+    # with batch_shape + in_shape. The trailing (response) dimensions of
+    # nn_targets might coincide with those of Kin and must not be counted.
+    for ndim in range(Kin.ndim // 2 + 1, Kin.ndim):
+        batch_ndim = 2 * ndim - Kin.ndim
+        if (
+            nn_targets.shape[:ndim] == Kin.shape[:ndim]
+            and Kin.shape[batch_ndim:ndim] == Kin.shape[ndim:]
+        ):
+            return ndim
+    return Kin.ndim // 2
 
 
 def _muygps_posterior_mean(
-- 
2.43.0


From 9f523613adc7e751bdaa42d9919f726431b98def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 02/30] fix: anisotropic trial length scales are assigned to
 features by name

---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index 17262d2..aec7729 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -107,7 +107,7 @@ class NamedVectorParameter(VectorParameter):
             The current value of the hyperparameter.
         """
         params, kwargs = self.filter_kwargs(**kwargs)
-        return mm.array([param for _, param in params.items()])
+        return mm.array([params[p.name()] for p in self._params])
 
     def apply_fn(self, fn: Callable) -> Callable:
         def applied_fn(*args, **kwargs):
-- 
2.43.0


From 8c25578f2da43d4768d927355498a6139761a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 03/30] fix: VectorParameter.fixed ignored its elements

---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index aec7729..bac9a51 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -70,7 +70,7 @@ class VectorParameter:
         Returns:
             `True` if fixed, `False` otherwise.
         """
-        return mm.all(param._fixed for param in self._params)
+        return all(param.fixed() for param in self._params)
 
 
 class NamedVectorParameter(VectorParameter):
-- 
2.43.0


From 246bd90b51cdbcb4c5a76793fee8506b414b367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 04/30] fix: fast posterior mean and coefficients drop the
 batch axis of a single-element batch

---
 src/MuyGPyS/_src/gp/muygps/jax.py   | 5 ++---
 src/MuyGPyS/_src/gp/muygps/numpy.py | 8 ++++----
 src/MuyGPyS/_src/gp/muygps/torch.py | 5 ++---
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/jax.py b/src/MuyGPyS/_src/gp/muygps/jax.py
index 2fd7d5f..400b546 100644
--- a/src/MuyGPyS/_src/gp/muygps/jax.py
+++ b/src/MuyGPyS/_src/gp/muygps/jax.py
@@ -154,9 +154,8 @@ def _muygps_fast_posterior_mean(
     Kcross: jnp.ndarray,
     coeffs_tensor: jnp.ndarray,
 ) -> jnp.ndarray:
-    return jnp.squeeze(
-        jnp.einsum("ij,ijk->ik", Kcross, jnp.atleast_3d(coeffs_tensor))
-    )
+    mean = jnp.einsum("ij,ijk->ik", Kcross, jnp.atleast_3d(coeffs_tensor))
+    return mean[:, 0] if mean.shape[1] == 1 else mean
 
 
 @jit
diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index 637f640..c06b949 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -79,9 +79,8 @@ def _muygps_fast_posterior_mean(
     coeffs_tensor: np.ndarray,
     **kwargs,
 ) -> np.ndarray:
-    return np.squeeze(
-        np.einsum("ij,ijk->ik", Kcross, np.atleast_3d(coeffs_tensor))
-    )
+    mean = np.einsum("ij,ijk->ik", Kcross, np.atleast_3d(coeffs_tensor))
+    return mean[:, 0] if mean.shape[1] == 1 else mean
 
 
 def _mmuygps_fast_posterior_mean(
@@ -99,4 +98,5 @@ def _muygps_fast_posterior_mean_precompute(
 ) -> np.ndarray:
     if train_nn_targets_fast.ndim == 2:
         train_nn_targets_fast = train_nn_targets_fast[:, :, None]
-    return np.squeeze(np.linalg.solve(Kin, train_nn_targets_fast))
+    coeffs = np.linalg.solve(Kin, train_nn_targets_fast)
+    return coeffs[:, :, 0] if coeffs.shape[2] == 1 else coeffs
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index afcce51..8768478 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -79,9 +79,8 @@ def _muygps_fast_posterior_mean(
     Kcross: torch.ndarray,
     coeffs_tensor: torch.ndarray,
 ) -> torch.ndarray:
-    return torch.squeeze(
-        torch.einsum("ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor))
-    )
+    mean = torch.einsum("ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor))
+    return mean[:, 0] if mean.shape[1] == 1 else mean
 
 
 def _mmuygps_fast_posterior_mean(
-- 
2.43.0


From 25e9bfe2359534adf5840679e81bd07573657827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 05/30] fix: multivariate fast prediction discards its
 coefficients and always returns zero

---
 src/MuyGPyS/gp/multivariate_muygps.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index 2cae149..5e0a3d7 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -276,12 +276,14 @@ class MultivariateMuyGPS:
 
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs_fast)
-            mm.assign(
+            coeffs_tensor = mm.assign(
                 coeffs_tensor,
                 model.fast_coefficients(
-                    model.noise.perturb(Kin),
-                    train_nn_targets_fast[:, :, i],
-                ),
+                    Kin,
+                    train_nn_targets_fast[:, :, i].reshape(
+                        train_count, nn_count, 1
+                    ),
+                ).reshape(train_count, nn_count),
                 slice(None),
                 slice(None),
                 i,
@@ -330,7 +332,7 @@ class MultivariateMuyGPS:
         """
         Kcross = mm.zeros(coeffs_tensor.shape)
         for i, model in enumerate(self.models):
-            mm.assign(
+            Kcross = mm.assign(
                 Kcross,
                 model.kernel(crosswise_diffs),
                 slice(None),
-- 
2.43.0


From 2a224aae6e11068d5436220d94e18c2f090ee7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 06/30] fix: fast posterior mean example pairs coefficients
 with the wrong neighbors

---
 src/MuyGPyS/examples/fast_posterior_mean.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/MuyGPyS/examples/fast_posterior_mean.py b/src/MuyGPyS/examples/fast_posterior_mean.py
index e46f89a..2755716 100644
--- a/src/MuyGPyS/examples/fast_posterior_mean.py
+++ b/src/MuyGPyS/examples/fast_posterior_mean.py
@@ -370,8 +370,6 @@ def fast_posterior_mean_any(
     time_precomp = perf_counter()
 
     time_agree = perf_counter()
-    nn_indices = fast_nn_update(nn_indices)
-
     test_neighbors, _ = nbrs_lookup.get_nns(test_features)
     time_nn = perf_counter()
 
-- 
2.43.0


From cbabf1985699d6c9bb22b45f8fc0e1a07a46ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 07/30] fix: multivariate posterior variance applies the scale
 parameter twice

---
 src/MuyGPyS/gp/multivariate_muygps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index 5e0a3d7..d1ee03d 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -220,10 +220,9 @@ class MultivariateMuyGPS:
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs)
             Kcross = model.kernel(crosswise_diffs)
-            ss = model.scale()
             diagonal_variance = mm.assign(
                 diagonal_variance,
-                model.posterior_variance(Kin, Kcross).reshape(batch_count) * ss,
+                model.posterior_variance(Kin, Kcross).reshape(batch_count),
                 slice(None),
                 i,
             )
@@ -382,6 +381,7 @@ class MultivariateMuyGPS:
                 nn_targets[:, :, i].reshape(batch_count, nn_count, 1),
             )
             model.scale._set(new_scale_val)
+            model._make()
         return self
 
     @mpi_chunk(return_count=3)
-- 
2.43.0


From 21407883c0a87e554f706b2033e2f696fe7b7a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 08/30] fix: a model with NullNoise cannot report its free
 parameters

---
 src/MuyGPyS/gp/noise/null.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/noise/null.py b/src/MuyGPyS/gp/noise/null.py
index 87addd2..ab648fa 100644
--- a/src/MuyGPyS/gp/noise/null.py
+++ b/src/MuyGPyS/gp/noise/null.py
@@ -9,7 +9,7 @@ Noise modeling
 Defines data structures and functors that handle noise priors for MuyGPs models.
 """
 
-from typing import Callable
+from typing import Callable, List, Tuple
 
 import MuyGPyS._src.math as mm
 
@@ -23,8 +23,7 @@ class NullNoise(ScalarParam, NoiseFn):
     """
 
     def __init__(self, *args, **kwargs):
-        self.val = 0.0
-        self.bounds = "fixed"
+        super().__init__(0.0, "fixed")
 
     def __call__(self, *args, **kwargs):
         return 0.0
@@ -48,3 +47,11 @@ class NullNoise(ScalarParam, NoiseFn):
 
     def perturb_fn(self, fn: Callable) -> Callable:
         return fn
+
+    def append_lists(
+        self,
+        names: List[str],
+        params: List[float],
+        bounds: List[Tuple[float, float]],
+    ):
+        pass
-- 
2.43.0


From 6451fb7e1dc429f7b0dfebbfaa7fbb327e66e18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 09/30] fix: scale training inside the objective ignored the
 trial noise

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 49ace1f..d8f0b03 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -203,16 +203,14 @@ class AnalyticScale(ScaleFn):
         """
 
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
-            scale = self._fn(muygps.noise.perturb(Kin), nn_targets, **kwargs)
+            pK = muygps.noise.perturb(Kin, **kwargs)
+            scale = self._fn(pK, nn_targets, **kwargs)
             if np.array(self.val).size != 1:
                 # iterative process only works for scalar responses
                 return scale
             for _ in range(1, self.iteration_count):
                 scale = 0.5 * (
-                    scale
-                    + self._fn(
-                        scale * muygps.noise.perturb(Kin), nn_targets, **kwargs
-                    )
+                    scale + self._fn(scale * pK, nn_targets, **kwargs)
                 )
             return scale
 
@@ -273,7 +271,7 @@ class DownSampleScale(ScaleFn):
                     f"bad attempt to downsample {self._down_count} elements "
                     f"from a set of only {nn_count} options"
                 )
-            pK = muygps.noise.perturb(Kin)
+            pK = muygps.noise.perturb(Kin, **kwargs)
             scales = []
             for _ in range(self._iteration_count):
                 sampled_indices = np.random.choice(
-- 
2.43.0


From c1a41ea8db0db53fbebfc285e4c85f9b594db03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 10/30] fix: multivariate leave-one-out likelihood mishandles
 the log determinant

---
 src/MuyGPyS/_src/optimize/loss/jax.py   | 2 +-
 src/MuyGPyS/_src/optimize/loss/numpy.py | 2 +-
 src/MuyGPyS/_src/optimize/loss/torch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/jax.py b/src/MuyGPyS/_src/optimize/loss/jax.py
index 2fe9a5f..b09410f 100644
--- a/src/MuyGPyS/_src/optimize/loss/jax.py
+++ b/src/MuyGPyS/_src/optimize/loss/jax.py
@@ -82,7 +82,7 @@ def _lool_fn_unscaled(
         quad_form = jnp.squeeze(
             residual.swapaxes(-2, -1) @ jnp.linalg.solve(variances, residual)
         )
-        logdet = jnp.linalg.slogdet(variances)
+        _, logdet = jnp.linalg.slogdet(variances)
         return jnp.sum(quad_form + logdet)
     else:
         return jnp.sum(
diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index bc198db..eb47f74 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -47,7 +47,7 @@ def _lool_fn_unscaled(
         quad_form = np.squeeze(
             residual.swapaxes(-2, -1) @ np.linalg.solve(variances, residual)
         )
-        logdet = np.linalg.slogdet(variances)
+        _, logdet = np.linalg.slogdet(variances)
         return np.sum(quad_form + logdet)
 
 
diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index cbb7fb0..882507f 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -56,7 +56,7 @@ def _lool_fn_unscaled(
         quad_form = torch.squeeze(
             residual.swapaxes(-2, -1) @ torch.linalg.solve(variances, residual)
         )
-        logdet = torch.linalg.slogdet(variances)
+        _, logdet = torch.linalg.slogdet(variances)
         return torch.sum(quad_form + logdet)
     else:
         return torch.sum(
-- 
2.43.0


From 7c0a15ea6518956fd084a27f6809efaafab4819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 11/30] fix: numpy leave-one-out likelihood rejects
 per-response variances

---
 src/MuyGPyS/_src/optimize/loss/numpy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index eb47f74..2d34ccf 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -37,18 +37,18 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    if variances.ndim == 1:
-        return np.sum(
-            np.divide((predictions - targets) ** 2, variances)
-            + np.log(variances)
-        )
-    else:
+    if variances.ndim == 3:
         residual = np.atleast_3d(predictions - targets)
         quad_form = np.squeeze(
             residual.swapaxes(-2, -1) @ np.linalg.solve(variances, residual)
         )
         _, logdet = np.linalg.slogdet(variances)
         return np.sum(quad_form + logdet)
+    else:
+        return np.sum(
+            np.divide((predictions - targets) ** 2, variances)
+            + np.log(variances)
+        )
 
 
 def _lool_fn(
-- 
2.43.0


From 0a48bdf36a24bc509635a2c9fd2b6083e8322723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 12/30] fix: infinite recursion in the mpi unscaled
 leave-one-out likelihood

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1abe25b..1bda80d 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -11,6 +11,7 @@ from MuyGPyS._src.optimize.loss.numpy import (
     _mse_fn_unnormalized,
     _cross_entropy_fn as _cross_entropy_fn_n,
     _lool_fn as _lool_fn_n,
+    _lool_fn_unscaled as _lool_fn_unscaled_n,
     _pseudo_huber_fn as _pseudo_huber_fn_n,
     _looph_fn as _looph_fn_n,
 )
@@ -64,7 +65,7 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    local_likelihoods = _lool_fn_unscaled(
+    local_likelihoods = _lool_fn_unscaled_n(
         predictions, targets, variances, **kwargs
     )
     global_likelihood = world.allreduce(local_likelihoods, op=MPI.SUM)
-- 
2.43.0


From c28ce22e8239b00893609e45d019be17fc38f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 13/30] fix: torch cross entropy is wrong for more than two
 classes

---
 src/MuyGPyS/_src/optimize/loss/torch.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index 882507f..1b23227 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -10,15 +10,9 @@ def _cross_entropy_fn(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> torch.ndarray:
     one_hot_targets = torch.where(targets > 0.0, 1.0, 0.0)
-    softmax_predictions = predictions.softmax(dim=1)
+    log_softmax_predictions = predictions.log_softmax(dim=1)
 
-    return (
-        -torch.mean(
-            one_hot_targets * torch.log(softmax_predictions)
-            + (1 - one_hot_targets) * torch.log(1 - softmax_predictions)
-        )
-        * one_hot_targets.shape[0]
-    )
+    return -(one_hot_targets * log_softmax_predictions).sum()
 
 
 def _mse_fn_unnormalized(
-- 
2.43.0


From e9eac28b8c699051eb2cc186004d06fe811e0bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 14/30] fix: torch losses return a vector for multivariate
 responses

---
 src/MuyGPyS/_src/optimize/loss/torch.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index 1b23227..986e323 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -3,6 +3,8 @@
 #
 # SPDX-License-Identifier: MIT
 
+from torch import sum as torch_sum
+
 import MuyGPyS._src.math.torch as torch
 
 
@@ -18,7 +20,7 @@ def _cross_entropy_fn(
 def _mse_fn_unnormalized(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> float:
-    return torch.sum((predictions - targets) ** 2)
+    return torch_sum((predictions - targets) ** 2)
 
 
 def _mse_fn(
@@ -51,9 +53,9 @@ def _lool_fn_unscaled(
             residual.swapaxes(-2, -1) @ torch.linalg.solve(variances, residual)
         )
         _, logdet = torch.linalg.slogdet(variances)
-        return torch.sum(quad_form + logdet)
+        return torch_sum(quad_form + logdet)
     else:
-        return torch.sum(
+        return torch_sum(
             torch.divide((predictions - targets) ** 2, variances)
             + torch.log(variances)
         )
@@ -65,7 +67,7 @@ def _pseudo_huber_fn(
     boundary_scale: float = 1.5,
     **kwargs
 ) -> float:
-    return boundary_scale**2 * torch.sum(
+    return boundary_scale**2 * torch_sum(
         torch.sqrt(1 + torch.divide(targets - predictions, boundary_scale) ** 2)
         - 1
     )
@@ -79,7 +81,7 @@ def _looph_fn_unscaled(
     **kwargs
 ) -> float:
     boundary_scale_sq = boundary_scale**2
-    return torch.sum(
+    return torch_sum(
         2
         * boundary_scale_sq
         * (
-- 
2.43.0


From 013b56d31713b49b045626172aff6a0bfab5ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 15/30] fix: the unscaled leave-one-out likelihood cannot be
 used as an objective

---
 src/MuyGPyS/optimize/loss.py | 37 +++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/optimize/loss.py b/src/MuyGPyS/optimize/loss.py
index 052b40b..63557cf 100644
--- a/src/MuyGPyS/optimize/loss.py
+++ b/src/MuyGPyS/optimize/loss.py
@@ -178,6 +178,39 @@ def make_var_predict_and_loss_fn(
     return predict_and_loss_fn
 
 
+def make_unscaled_var_predict_and_loss_fn(
+    loss_fn: Callable,
+    mean_fn: Callable,
+    var_fn: Callable,
+    scale_fn: Callable,
+    batch_nn_targets: mm.ndarray,
+    batch_targets: mm.ndarray,
+    target_mask: Optional[mm.ndarray] = None,
+    **loss_kwargs,
+) -> Callable:
+    """
+    Make a predict_and_loss function that depends on the posterior mean and the
+    unscaled posterior variance.
+
+    Identical to :func:`make_var_predict_and_loss_fn`, except that `loss_fn`
+    does not accept a `scale` argument.
+    """
+
+    def unscaled_loss_fn(predictions, targets, variances, scale, **kwargs):
+        return loss_fn(predictions, targets, variances, **kwargs)
+
+    return make_var_predict_and_loss_fn(
+        unscaled_loss_fn,
+        mean_fn,
+        var_fn,
+        scale_fn,
+        batch_nn_targets,
+        batch_targets,
+        target_mask=target_mask,
+        **loss_kwargs,
+    )
+
+
 class LossFn:
     """
     Loss functor class.
@@ -296,7 +329,9 @@ Returns:
     The LOOL loss of the prediction.
 """
 
-lool_fn_unscaled = LossFn(_lool_fn_unscaled, make_var_predict_and_loss_fn)
+lool_fn_unscaled = LossFn(
+    _lool_fn_unscaled, make_unscaled_var_predict_and_loss_fn
+)
 """
 Unscaled version of the leave-one-out likelihood function.
 
-- 
2.43.0


From 9ba55202842d868c77479a677489814730863458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 16/30] revert 'fast posterior mean example pairs coefficients
 with the wrong neighbors': files under examples are not to be changed

This reverts commit 2a224aa.
---
 src/MuyGPyS/examples/fast_posterior_mean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MuyGPyS/examples/fast_posterior_mean.py b/src/MuyGPyS/examples/fast_posterior_mean.py
index 2755716..e46f89a 100644
--- a/src/MuyGPyS/examples/fast_posterior_mean.py
+++ b/src/MuyGPyS/examples/fast_posterior_mean.py
@@ -370,6 +370,8 @@ def fast_posterior_mean_any(
     time_precomp = perf_counter()
 
     time_agree = perf_counter()
+    nn_indices = fast_nn_update(nn_indices)
+
     test_neighbors, _ = nbrs_lookup.get_nns(test_features)
     time_nn = perf_counter()
 
-- 
2.43.0


From 43e29ee57f7b4f778c4b30fb6d740e5999c0bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 17/30] fix: mpi distance and difference tensors are scrambled
 between ranks

The metric functions used the collective mpi tensor functions inside
rank-0-only code that already distributes its result, so the ranks
received each other's (and the wrong) messages.
---
 src/MuyGPyS/gp/deformation/metric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/deformation/metric.py b/src/MuyGPyS/gp/deformation/metric.py
index 73fd8f4..7a82dec 100644
--- a/src/MuyGPyS/gp/deformation/metric.py
+++ b/src/MuyGPyS/gp/deformation/metric.py
@@ -14,8 +14,14 @@ interacting with the rest of the library.
 from typing import Callable
 
 import MuyGPyS._src.math as mm
+from MuyGPyS import config
 from MuyGPyS._src.gp.tensors import _l2, _F2
-from MuyGPyS._src.gp.tensors import _crosswise_tensor, _pairwise_tensor
+
+if config.state.backend == "mpi":
+    # metrics are local: deformations and models distribute the computation
+    from MuyGPyS._src.gp.tensors.numpy import _crosswise_tensor, _pairwise_tensor
+else:
+    from MuyGPyS._src.gp.tensors import _crosswise_tensor, _pairwise_tensor
 
 
 class MetricFn:
-- 
2.43.0


From f3efc1682b229d871a800b78405c6c9cd116d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 18/30] fix: jax analytic scale is not normalized by the
 response count

---
 src/MuyGPyS/_src/optimize/scale/jax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/scale/jax.py b/src/MuyGPyS/_src/optimize/scale/jax.py
index 78a1837..7ac7bd4 100644
--- a/src/MuyGPyS/_src/optimize/scale/jax.py
+++ b/src/MuyGPyS/_src/optimize/scale/jax.py
@@ -52,4 +52,4 @@ def _analytic_scale_optim_multivariate(
     nn_targets_flat = nn_targets.reshape(batch_count, nn_count * response_count)
     return _analytic_scale_optim_unnormalized(
         Kin_flat, nn_targets_flat, **kwargs
-    ) / (batch_count * nn_count)
+    ) / (batch_count * nn_count * response_count)
-- 
2.43.0


From d06819e89a29cb48da225b20f50928b5a71aa183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 19/30] fix: down-sampled scale differs between mpi ranks

Every rank drew its own neighbors and normalized its own part of the
batch; draw common neighbors and reduce over the ranks instead.
---
 src/MuyGPyS/gp/hyperparameter/scale.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index d8f0b03..b622b75 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -12,6 +12,8 @@ from typing import Callable
 
 import MuyGPyS._src.math as mm
 import MuyGPyS._src.math.numpy as np
+from MuyGPyS import config
+from MuyGPyS._src.mpi_utils import _consistent_reduce_scalar, _is_mpi_mode
 from MuyGPyS._src.optimize.scale import (
     _analytic_scale_optim,
     _analytic_scale_optim_unnormalized,
@@ -280,12 +282,22 @@ class DownSampleScale(ScaleFn):
                     replace=False,
                 )
                 sampled_indices.sort()
+                if _is_mpi_mode() is True:
+                    sampled_indices = config.mpi_state.comm_world.bcast(
+                        sampled_indices, root=0
+                    )
 
                 pK_down = pK[:, sampled_indices, :]
                 pK_down = pK_down[:, :, sampled_indices]
                 nn_targets_down = nn_targets[:, sampled_indices]
-                scales.append(self._fn(pK_down, nn_targets_down))
+                scales.append(
+                    _consistent_reduce_scalar(
+                        self._fn(pK_down, nn_targets_down)
+                    )
+                )
 
-            return np.median(scales, axis=0) / (self._down_count * batch_count)
+            return np.median(scales, axis=0) / (
+                self._down_count * _consistent_reduce_scalar(batch_count)
+            )
 
         return downsample_analytic_scale_opt_fn
-- 
2.43.0


From 54a626e25a56b72caca26a3a10d11fc6fc1b327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 20/30] fix: jax multivariate models cannot train an analytic
 scale

---
 src/MuyGPyS/_src/optimize/scale/jax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/scale/jax.py b/src/MuyGPyS/_src/optimize/scale/jax.py
index 7ac7bd4..7204fc0 100644
--- a/src/MuyGPyS/_src/optimize/scale/jax.py
+++ b/src/MuyGPyS/_src/optimize/scale/jax.py
@@ -23,7 +23,7 @@ def _analytic_scale_optim(
     Kin: jnp.ndarray, nn_targets: jnp.ndarray, **kwargs
 ) -> jnp.ndarray:
     if Kin.ndim == 3:
-        assert nn_targets.ndim == 2
+        nn_targets = nn_targets.reshape(Kin.shape[:2])
         return _analytic_scale_optim_univariate(Kin, nn_targets, **kwargs)
     elif Kin.ndim == 5:
         assert nn_targets.ndim == 3
-- 
2.43.0


From 05a75af6cb311b8de7609f15f18a5ee086378654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 21/30] fix: a named hierarchical parameter cannot report
 whether it is fixed

---
 .../gp/hyperparameter/experimental/hierarchical.py       | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 84579f8..ffd4de3 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -104,6 +104,15 @@ class NamedHierarchicalParameter(HierarchicalParameter):
     def name(self) -> str:
         return self._name
 
+    def fixed(self) -> bool:
+        """
+        Report whether all of the knot values are fixed.
+
+        Returns:
+            `True` if fixed, `False` otherwise.
+        """
+        return self._params.fixed()
+
     def knot_values(self) -> mm.ndarray:
         return self._params()
 
-- 
2.43.0


From 04f37c7d6ecdbbc7888b3323748aece8312093b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 22/30] fix: down-sampled scale accepts counts of zero

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index b622b75..4fefc14 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -41,7 +41,7 @@ class ScaleFn:
         self._trained = False
 
     def _check_positive_integer(self, count, name) -> int:
-        if not isinstance(count, int) or count < 0:
+        if not isinstance(count, int) or count <= 0:
             raise ValueError(
                 f"{name} count must be a positive integer, not {count}"
             )
-- 
2.43.0


From f3ae78e99305b8b95cfd63425a5650cc3dd27364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 23/30] fix: Bayesian optimization searches different points on
 every mpi rank

---
 src/MuyGPyS/_src/optimize/chassis/mpi.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/chassis/mpi.py b/src/MuyGPyS/_src/optimize/chassis/mpi.py
index 25b8847..5f573d6 100644
--- a/src/MuyGPyS/_src/optimize/chassis/mpi.py
+++ b/src/MuyGPyS/_src/optimize/chassis/mpi.py
@@ -3,7 +3,24 @@
 #
 # SPDX-License-Identifier: MIT
 
+from typing import Callable
+
+import MuyGPyS._src.math.numpy as np
+from MuyGPyS import config
 from MuyGPyS._src.optimize.chassis.numpy import (
+    _bayes_opt_optimize as _bayes_opt_optimize_n,
     _scipy_optimize,
-    _bayes_opt_optimize,
 )
+from MuyGPyS.gp import MuyGPS
+
+
+def _bayes_opt_optimize(
+    muygps: MuyGPS, obj_fn: Callable, verbose: bool = False, **kwargs
+) -> MuyGPS:
+    # The ranks evaluate a collective objective, and so must all search the
+    # same points.
+    if kwargs.get("random_state") is None:
+        kwargs["random_state"] = config.mpi_state.comm_world.bcast(
+            np.random.randint(2**31 - 1), root=0
+        )
+    return _bayes_opt_optimize_n(muygps, obj_fn, verbose=verbose, **kwargs)
-- 
2.43.0


From 4a53973c8a383151c59e902cf9205df3466a0e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 24/30] fix: a training point is its own neighbor when it has
 duplicates

---
 src/MuyGPyS/_src/math/numpy.py |  1 +
 src/MuyGPyS/neighbors.py       | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/_src/math/numpy.py b/src/MuyGPyS/_src/math/numpy.py
index a8b4aff..276f9be 100644
--- a/src/MuyGPyS/_src/math/numpy.py
+++ b/src/MuyGPyS/_src/math/numpy.py
@@ -9,6 +9,7 @@ from numpy import (
     any,
     argmax,
     argmin,
+    argsort,
     atleast_1d,
     atleast_2d,
     atleast_3d,
diff --git a/src/MuyGPyS/neighbors.py b/src/MuyGPyS/neighbors.py
index 8e9baf8..582c422 100644
--- a/src/MuyGPyS/neighbors.py
+++ b/src/MuyGPyS/neighbors.py
@@ -204,11 +204,17 @@ class NN_Wrapper:
             lists the distance to the batch element of the corresponding element
             in `batch_nn_indices`.
         """
-        batch_nn_indices, batch_nn_dists = self._get_nns(
+        nn_indices, nn_dists = self._get_nns(
             self.train[batch_indices, :],
             self.nn_count + 1,
         )
-        return batch_nn_indices[:, 1:], batch_nn_dists[:, 1:]
+        # Points coinciding with a batch point might precede it, or hide it
+        # altogether, so it is not always the first of its own neighbors.
+        is_self = np.iarray(nn_indices) == np.iarray(batch_indices)[:, None]
+        others = np.argsort(is_self, axis=1, kind="stable")[:, : self.nn_count]
+        rows = mm.arange(len(batch_indices))[:, None]
+        others = mm.iarray(others)
+        return nn_indices[rows, others], nn_dists[rows, others]
 
     def _get_nns(
         self,
-- 
2.43.0


From 8e5466ecf0ba7c3444933a1f2876a5acf4950268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 25/30] fix: default kernels, noise and scale are not shared
 between models

---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 18 +++++++++++-------
 src/MuyGPyS/gp/kernels/matern.py             |  8 ++++----
 src/MuyGPyS/gp/kernels/rbf.py                |  8 ++++----
 src/MuyGPyS/gp/muygps.py                     | 10 ++++++----
 4 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index 98737db..2998421 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -39,7 +39,7 @@ Note that the :class:`~MuyGPyS.gp.kernels.experimental.shear.ShearKernel`
 functor
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels.shear import (
@@ -77,13 +77,15 @@ class ShearKernel(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(
+                F2, length_scale=ScalarParam(1.0)
+            )
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
@@ -187,15 +189,17 @@ class ShearKernel2in3out(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_Kin_fn: Callable = _shear_Kin23_fn,
         _backend_Kcross_fn: Callable = _shear_Kcross23_fn,
         _backend_Kout_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(
+                F2, length_scale=ScalarParam(1.0)
+            )
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
diff --git a/src/MuyGPyS/gp/kernels/matern.py b/src/MuyGPyS/gp/kernels/matern.py
index 7143df4..0eeff62 100644
--- a/src/MuyGPyS/gp/kernels/matern.py
+++ b/src/MuyGPyS/gp/kernels/matern.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kern(crosswise_diffs)
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import (
@@ -120,14 +120,14 @@ class Matern(KernelFn):
     def __init__(
         self,
         smoothness: ScalarParam = ScalarParam(0.5),
-        deformation: DeformationFn = Isotropy(
-            l2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
         **_backend_fns,
     ):
+        if deformation is None:
+            deformation = Isotropy(l2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self.smoothness = NamedParam("smoothness", smoothness)
         self._backend_ones = _backend_ones
diff --git a/src/MuyGPyS/gp/kernels/rbf.py b/src/MuyGPyS/gp/kernels/rbf.py
index 761ad74..1434c0a 100644
--- a/src/MuyGPyS/gp/kernels/rbf.py
+++ b/src/MuyGPyS/gp/kernels/rbf.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kernel_fn(crosswise_diffs)
 """
 
-from typing import Callable
+from typing import Callable, Optional
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import _rbf_fn
@@ -71,14 +71,14 @@ class RBF(KernelFn):
 
     def __init__(
         self,
-        deformation: DeformationFn = Isotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_fn: Callable = _rbf_fn,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = Isotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self._backend_ones = _backend_ones
         self._backend_zeros = _backend_zeros
diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index d1bf8f4..c049843 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -93,16 +93,18 @@ class MuyGPS:
     def __init__(
         self,
         kernel: KernelFn,
-        noise: NoiseFn = HomoscedasticNoise(0.0, "fixed"),
-        scale: ScaleFn = FixedScale(response_count=1),
+        noise: Optional[NoiseFn] = None,
+        scale: Optional[ScaleFn] = None,
         _backend_mean_fn: Callable = _muygps_posterior_mean,
         _backend_var_fn: Callable = _muygps_diagonal_variance,
         _backend_fast_mean_fn: Callable = _muygps_fast_posterior_mean,
         _backend_fast_precompute_fn: Callable = _muygps_fast_posterior_mean_precompute,
     ):
         self.kernel = kernel
-        self.scale = scale
-        self.noise = noise
+        self.scale = FixedScale(response_count=1) if scale is None else scale
+        self.noise = (
+            HomoscedasticNoise(0.0, "fixed") if noise is None else noise
+        )
         self._backend_mean_fn = _backend_mean_fn
         self._backend_var_fn = _backend_var_fn
         self._backend_fast_mean_fn = _backend_fast_mean_fn
-- 
2.43.0


From 2b73c4fd31dd8849f54afd810fbd8ba0d45b2d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 26/30] fix: set_params takes effect on a Matern kernel's
 smoothness

---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 9ecc869..8bc0cef 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -84,6 +84,7 @@ class KernelFn:
         """
         for name in kwargs:
             self._hyperparameters[name]._set(kwargs[name])
+        self._make()
 
     def __call__(self, diffs: mm.ndarray, **kwargs) -> mm.ndarray:
         raise NotImplementedError(
-- 
2.43.0


From a6742cfc92bdaa557f815a5d6934a30b600c3769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 27/30] fix: jax posterior mean of kernels with several
 responses

---
 src/MuyGPyS/_src/gp/muygps/jax.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/jax.py b/src/MuyGPyS/_src/gp/muygps/jax.py
index 400b546..61ebd60 100644
--- a/src/MuyGPyS/_src/gp/muygps/jax.py
+++ b/src/MuyGPyS/_src/gp/muygps/jax.py
@@ -88,7 +88,9 @@ def _muygps_posterior_mean_multivariate(
     Kcross_flat = Kcross.reshape(
         batch_count, nn_count * response_count, out_count
     )
-    nn_targets_flat = nn_targets.reshape(batch_count, nn_count * response_count)
+    nn_targets_flat = nn_targets.reshape(
+        batch_count, nn_count * response_count, 1
+    )
     F_flat = jnp.linalg.solve(Kin_flat, Kcross_flat)
     ret = F_flat.swapaxes(-2, -1) @ nn_targets_flat
     ret = ret.reshape(batch_count, out_count)
-- 
2.43.0


From 1ba82d431d172da24cdba50b8153ba4a09fe0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 28/30] fix: shear kernels keep their shape for single points

---
 src/MuyGPyS/_src/gp/kernels/shear/numpy.py   |  6 +++---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
index 341901b..169a66c 100644
--- a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
@@ -159,7 +159,7 @@ def _shear_33_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (2, 2)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the full covariance matrix for shear1 and shear2 only
@@ -202,7 +202,7 @@ def _shear_Kin23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 1)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the crosscovariance matrix relating shear1 and shear2 only
@@ -257,4 +257,4 @@ def _shear_Kcross23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 2)
 
-    return np.squeeze(full_m)
+    return full_m
diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index 2998421..91e4b39 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -127,12 +127,14 @@ class ShearKernel(KernelFn):
         """
         if adjust and diffs.shape[-2] != diffs.shape[-3]:
             # this is probably a crosswise differences tensor
-            # reshape to insert a unitary dimension
-            diffs = diffs[..., None, :]
+            # insert a unitary dimension, and remove it from the result
+            return self._fn(diffs[..., None, :], **kwargs)[..., 0]
         return self._fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self.__call__(self._backend_zeros((1, 1, 2)))
+        return self._backend_squeeze(
+            self._fn(self._backend_zeros((1, 1, 2)))
+        )
 
     def get_opt_params(
         self,
@@ -263,13 +265,14 @@ class ShearKernel2in3out(KernelFn):
             return self._Kcross_fn(diffs, **kwargs)
         elif adjust and diffs.shape[-2] != diffs.shape[-3]:
             # this is probably a crosswise differences tensor
-            # reshape to insert a unitary dimension
-            diffs = diffs[..., None, :]
-            return self._Kcross_fn(diffs, **kwargs)
+            # insert a unitary dimension, and remove it from the result
+            return self._Kcross_fn(diffs[..., None, :], **kwargs)[..., 0]
         return self._Kin_fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self._Kout_fn(self._backend_zeros((1, 1, 2)))
+        return self._backend_squeeze(
+            self._Kout_fn(self._backend_zeros((1, 1, 2)))
+        )
 
     def get_opt_params(
         self,
-- 
2.43.0


From 4fe6ed41f73ee9f86c5c7224ebaa17e97d7e81b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:10 +0000
Subject: [PATCH 29/30] fix: mini-batch optimisation of anisotropic models
 called a method that does not exist

---
 src/MuyGPyS/optimize/experimental/chassis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index c1cbdb5..842d632 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -285,9 +285,8 @@ def optimize_from_tensors_mini_batch(
         if isinstance(muygps.kernel.deformation, Anisotropy) and (
             epoch < (num_epochs - 1)
         ):
-            length_scales = muygps.kernel.deformation._length_scale_array(
-                train_features.shape,
-                **optimizer.max["params"],
+            length_scales = muygps.kernel.deformation.length_scale(
+                **optimizer.max["params"]
             )
             train_features_scaled = train_features / length_scales
             new_nbrs_lookup = NN_Wrapper(
-- 
2.43.0


From 86c304f578c71aee0163419ad268e6dce87a35e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:10 +0000
Subject: [PATCH 30/30] fix: mini-batch optimisation needed init_points and
 n_iter although both are optional

---
 src/MuyGPyS/optimize/experimental/chassis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index 842d632..1e5392f 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -199,6 +199,8 @@ def optimize_from_tensors_mini_batch(
         verbose=verbose,
         **kwargs,
     )
+    maximize_kwargs.setdefault("init_points", 5)
+    maximize_kwargs.setdefault("n_iter", 20)
     total_pts_probed = num_epochs * maximize_kwargs["init_points"]
     total_opt_steps = num_epochs * maximize_kwargs["n_iter"]
 
-- 
2.43.0

