From 544e66ba539e5be77a289a11386673d9338e5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 01/22] fix: ema with debias=False returns the moving average,
 not the raw updates

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8f5a6ad..8ffdd83 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -125,8 +125,8 @@ def ema(
     del params
     new_ema = _update_moment(updates, state.ema, decay, order=1)
     count_inc = utils.safe_int32_increment(state.count)
-    if debias:
-      updates = _bias_correction(new_ema, decay, count_inc)
+    updates = (
+        _bias_correction(new_ema, decay, count_inc) if debias else new_ema)
     new_ema = utils.cast_tree(new_ema, accumulator_dtype)
     return updates, EmaState(count=count_inc, ema=new_ema)
 
-- 
2.43.0


From b60a9bc9370d86f569b9c6761c46d3fe5271d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 02/22] fix: masked tests params for None instead of for truth

---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d37ff78..820ead0 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -323,7 +323,7 @@ def masked(
     flat_updates = treedef.flatten_up_to(updates)
     masked_updates = [g for g, m in zip(flat_updates, flat_mask) if m]
 
-    if params:
+    if params is not None:
       flat_params = treedef.flatten_up_to(params)
       masked_params = [p for p, m in zip(flat_params, flat_mask) if m]
     else:
-- 
2.43.0


From 97df74f05d701bd181925e3a148e1efd30e13cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 03/22] fix: MultiSteps passes params on to the wrapped
 optimiser

---
 optax/_src/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index 820ead0..afa044a 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -229,7 +229,6 @@ class MultiSteps:
 
   def update(self, grads: Any, state: MultiStepsState, params: Any = None):
     """Accumulates gradients and proposes non-zero updates every `k_steps`."""
-    del params
     k_steps = self._every_k_schedule(state.gradient_step)
     acc_grads = jax.tree_util.tree_multimap(lambda a, b: a + b, grads,
                                             state.acc_grads)
@@ -241,7 +240,7 @@ class MultiSteps:
       else:
         grads_for_update = acc_grads
       updates, new_inner_state = self._opt.update(
-          grads_for_update, state.inner_opt_state)
+          grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
                                   gradient_step=state.gradient_step + 1,
                                   inner_opt_state=new_inner_state,
-- 
2.43.0


From 8700f46b4bed59ce0c239e0c6fd9cbe05185fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 04/22] fix: lookahead passes the fast parameters to the fast
 optimizer

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 7f84f2b..1f6ec30 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -114,7 +114,7 @@ def lookahead(
       updates: base.Updates, state: LookaheadState,
       params: LookaheadParams) -> Tuple[LookaheadParams, LookaheadState]:
     updates, fast_state = fast_optimizer.update(updates, state.fast_state,
-                                                params)
+                                                params.fast)
 
     sync_next = (state.steps_since_sync == sync_period - 1)
     updates = _lookahead_update(updates, sync_next, params, slow_step_size)
-- 
2.43.0


From b4fbe6728a1d76e6cae2a23159fb7eca19a1b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 05/22] fix: lookahead selects instead of multiplying by the
 sync flag

Multiplying by 0 turned inf/nan differences or states into nan, and
changed the dtype of integer leaves of the fast optimizer's state.
---
 optax/_src/lookahead.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 1f6ec30..77f5369 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -123,7 +123,7 @@ def lookahead(
       # synchronized after this update step.
       initial_state = fast_optimizer.init(params.fast)
       fast_state = jax.tree_multimap(
-          lambda current, init: (1 - sync_next) * current + sync_next * init,
+          lambda current, init: jnp.where(sync_next, init, current),
           fast_state, initial_state)
 
     steps_since_sync = (state.steps_since_sync + 1) % sync_period
@@ -176,17 +176,21 @@ def _lookahead_update(
   #
   # To make the equations jittable, the two types of steps are merged. Defining
   # last_difference = fast_params + updates - slow_params, this yields the
-  # following equtions which are implemented below:
+  # following equtions which are implemented below (sync_next selects rather
+  # than multiplies, so that non-finite differences do not leak):
   #   slow_updates = slow_step_size * sync_next * last_difference
   #   fast_updates = updates - (
   #                  1 - slow_step_size) * sync_next * last_difference
   last_difference = jax.tree_multimap(lambda f, u, s: f + u - s, params.fast,
                                       updates, params.slow)
-  slow_updates = jax.tree_map(lambda diff: slow_step_size * sync_next * diff,
-                              last_difference)
-  fast_updates = jax.tree_multimap(
-      lambda up, diff: up - sync_next * (1 - slow_step_size) * diff, updates,
+  slow_updates = jax.tree_map(
+      lambda diff: jnp.where(  # pylint:disable=g-long-lambda
+          sync_next, slow_step_size * diff, jnp.zeros_like(diff)),
       last_difference)
+  fast_updates = jax.tree_multimap(
+      lambda up, diff: jnp.where(  # pylint:disable=g-long-lambda
+          sync_next, up - (1 - slow_step_size) * diff, up),
+      updates, last_difference)
 
   return LookaheadParams(fast=fast_updates, slow=slow_updates)
 
-- 
2.43.0


From 6319e176309ae692308f96f8ae728e0f0a3c3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 06/22] fix: add_noise treats eta as the variance it is
 documented to be

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8ffdd83..9d8c6ab 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -633,13 +633,13 @@ def add_noise(
     num_vars = len(jax.tree_leaves(updates))
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
-    variance = eta / count_inc**gamma
+    standard_deviation = jnp.sqrt(eta / count_inc**gamma)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
         lambda g, k: jax.random.normal(k, shape=g.shape, dtype=g.dtype),
         updates, jax.tree_unflatten(treedef, all_keys[1:]))
     updates = jax.tree_multimap(
-        lambda g, n: g + variance.astype(g.dtype) * n,
+        lambda g, n: g + standard_deviation.astype(g.dtype) * n,
         updates, noise)
     return updates, AddNoiseState(count=count_inc, rng_key=all_keys[0])
 
-- 
2.43.0


From 9a93ba0021089c1e81083b76d97eaf718536c074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 07/22] fix: noisy_sgd adds the noise to the gradients, before
 the learning rate

---
 optax/_src/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/alias.py b/optax/_src/alias.py
index 2e61aa7..08625f8 100644
--- a/optax/_src/alias.py
+++ b/optax/_src/alias.py
@@ -275,8 +275,8 @@ def noisy_sgd(
     the corresponding `GradientTransformation`.
   """
   return combine.chain(
-      _scale_by_learning_rate(learning_rate),
       transform.add_noise(eta, gamma, seed),
+      _scale_by_learning_rate(learning_rate),
   )
 
 
-- 
2.43.0


From 6df6e9d3677edd764152b8415fafb275ea07a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 08/22] fix: scale_by_sm3 accumulators use the dtype of the
 parameters

---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 9d8c6ab..9de8d41 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -745,7 +745,7 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s]) for s in p.shape]
+    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
-- 
2.43.0


From 2ef4afc78df4085996269bd940353febf3defb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 09/22] fix: scale_by_sm3 accepts scalar parameters

---
 optax/_src/transform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 9de8d41..f6d645f 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -745,7 +745,9 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape]
+    # A scalar has no dimensions: its only cover set is the scalar itself.
+    return ([jnp.zeros([s], dtype=p.dtype) for s in p.shape]
+            or [jnp.zeros([], dtype=p.dtype)])
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
@@ -778,7 +780,8 @@ def scale_by_sm3(
     del params
     mu = jax.tree_multimap(
         lambda g, v:  # pylint:disable=g-long-lambda
-        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)],
+        ([jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)]
+         or v),
         updates, state.mu)
     accum = jax.tree_multimap(_new_accum, updates, mu)
     accum_inv_sqrt = jax.tree_map(
@@ -786,7 +789,7 @@ def scale_by_sm3(
     up = jax.tree_multimap(lambda g, a: g*a, updates, accum_inv_sqrt)
     nu = _update_moment(up, state.nu, b1, 1)
     mu = jax.tree_map(
-        lambda g: [_new_mu(g, i) for i in range(g.ndim)], accum)
+        lambda g: [_new_mu(g, i) for i in range(g.ndim)] or [g], accum)
 
     return nu, ScaleBySM3State(mu=mu, nu=nu)
 
-- 
2.43.0


From 2cc48da2423402e319c3ae9f887e80020dfe32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 10/22] fix: piecewise_interpolate_schedule is finite when an
 interval is empty

A boundary at step 0 (as in a onecycle schedule with few steps) made every
value nan.
---
 optax/_src/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 0503bd0..f5ef8b5 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -285,7 +285,8 @@ def piecewise_interpolate_schedule(
     indicator = (bounds[:-1] <= count) & (count < bounds[1:])
     pct = (count - bounds[:-1]) / interval_sizes
     interp_vals = interpolate_fn(values[:-1], values[1:], pct)
-    return indicator.dot(interp_vals) + (bounds[-1] <= count) * values[-1]
+    interp_vals = jnp.where(indicator, interp_vals, 0.)
+    return interp_vals.sum() + (bounds[-1] <= count) * values[-1]
 
   return schedule
 
-- 
2.43.0


From c2710162b077fdb00786eaa0f87e6e912558b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 11/22] fix: matrix_inverse_pth_root computes the root for
 every positive integer p

The matrix power inside the Newton iteration was only right for 1, 2, 4
and 8, so that e.g. p=3 gave a wrong result.
---
 optax/_src/linear_algebra.py | 44 ++++++++++++------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 5e25b0f..c317c46 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -122,28 +122,8 @@ def matrix_inverse_pth_root(
       error_tolerance=1e-6, precision=precision)
   ridge_epsilon = ridge_epsilon * jnp.maximum(max_ev, 1e-16)
 
-  def _unrolled_mat_pow_1(mat_m):
-    """Computes mat_m^1."""
-    return mat_m
-
-  def _unrolled_mat_pow_2(mat_m):
-    """Computes mat_m^2."""
-    return jnp.matmul(mat_m, mat_m, precision=precision)
-
-  def _unrolled_mat_pow_4(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_2 = _unrolled_mat_pow_2(mat_m)
-    return jnp.matmul(
-        mat_pow_2, mat_pow_2, precision=precision)
-
-  def _unrolled_mat_pow_8(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_4 = _unrolled_mat_pow_4(mat_m)
-    return jnp.matmul(
-        mat_pow_4, mat_pow_4, precision=precision)
-
   def mat_power(mat_m, p):
-    """Computes mat_m^p, for p == 1, 2, 4 or 8.
+    """Computes mat_m^p, by repeated squaring.
 
     Args:
       mat_m: a square matrix
@@ -152,15 +132,19 @@ def matrix_inverse_pth_root(
     Returns:
       mat_m^p
     """
-    # We unrolled the loop for performance reasons.
-    exponent = jnp.round(jnp.log2(p))
-    return lax.switch(
-        jnp.asarray(exponent, jnp.int32), [
-            _unrolled_mat_pow_1,
-            _unrolled_mat_pow_2,
-            _unrolled_mat_pow_4,
-            _unrolled_mat_pow_8,
-        ], (mat_m))
+    def _square_and_multiply(state):
+      exponent, power, square = state
+      power = jnp.where(
+          exponent % 2 == 1,
+          jnp.matmul(power, square, precision=precision), power)
+      square = jnp.matmul(square, square, precision=precision)
+      return exponent // 2, power, square
+
+    _, power, _ = lax.while_loop(
+        lambda state: state[0] > 0, _square_and_multiply,
+        (jnp.asarray(p, jnp.int32), jnp.eye(matrix_size, dtype=mat_m.dtype),
+         mat_m))
+    return power
 
   def _iter_condition(state):
     (i, unused_mat_m, unused_mat_h, unused_old_mat_h, error,
-- 
2.43.0


From 2952824c7495ef21db05020009789cd23550ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 12/22] fix: apply_every selects instead of multiplying by
 flags

0 * nan is nan: one non-finite gradient leaked into the updates that have
to be zero and into all later accumulation windows.
---
 optax/_src/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index f6d645f..8ba1a87 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -679,9 +679,11 @@ def apply_every(
     c = state.count % k
     acc = c != 0
     grad_acc = jax.tree_multimap(
-        lambda g, ga: acc * ga + g, updates, state.grad_acc)
+        lambda g, ga: jnp.where(acc, ga, jnp.zeros_like(ga)) + g,
+        updates, state.grad_acc)
     emit = c == (k - 1)
-    updates = jax.tree_map(lambda ga: emit * ga, grad_acc)
+    updates = jax.tree_map(
+        lambda ga: jnp.where(emit, ga, jnp.zeros_like(ga)), grad_acc)
     count_inc = numerics.safe_int32_increment(state.count)
     return updates, ApplyEvery(count=count_inc % k, grad_acc=grad_acc)
 
-- 
2.43.0


From 4e9e5970aad56080c43a3f0edc595eb0d8254533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 13/22] fix: moving_avg_baseline does not debias an already
 debiased average

---
 optax/_src/control_variates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index f2e8c46..c20a989 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -192,6 +192,10 @@ def moving_avg_baseline(
     else:
       iteration_decay = decay
 
+    if zero_debias:
+      # The state holds the debiased average of the first i values.
+      value *= jnp.ones([]) - jnp.power(iteration_decay, i)
+
     updated_value = iteration_decay * value
     updated_value += (1 - iteration_decay) * jnp.mean(
         jax.vmap(function)(samples))
-- 
2.43.0


From 45d325ec0c38a328ac734184e01eb303bd47a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 14/22] fix: scale_by_radam keeps the dtype of the updates

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8ba1a87..a968090 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -457,7 +457,8 @@ def scale_by_radam(
     nu_hat = params[2]
     r = jnp.sqrt((ro - 4)*(ro - 2)*ro_inf/((ro_inf - 4)*(ro_inf - 2)*ro))
     updates = jax.tree_multimap(
-        lambda m, v: r*m / (jnp.sqrt(v + eps_root) + eps), mu_hat, nu_hat)
+        lambda m, v: r.astype(m.dtype) * m / (jnp.sqrt(v + eps_root) + eps),
+        mu_hat, nu_hat)
     return updates
 
   def init_fn(params):
-- 
2.43.0


From 21dcc932a9cca3694ad98afef284548c14326ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 15/22] fix: polynomial schedule is finite at its end when
 compiled

Compiled division by a constant may make 1 - count / transition_steps slightly
negative at the last step, and a fractional power of it NaN.
---
 optax/_src/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index f5ef8b5..62b7f63 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -84,7 +84,9 @@ def polynomial_schedule(
 
   def schedule(count):
     count = jnp.clip(count - transition_begin, 0, transition_steps)
-    frac = 1 - count / transition_steps
+    # Never negative (unlike 1 - count / transition_steps, when compiled): the
+    # power may be fractional.
+    frac = (transition_steps - count) / transition_steps
     return (init_value - end_value) * (frac**power) + end_value
   return schedule
 
-- 
2.43.0


From 541a2cda4335e8ac38b041ea8196155b861b6c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 16/22] fix: wrapper step counters saturate instead of wrapping

With 32-bit integers the counters of apply_if_finite, MultiSteps and
maybe_update wrapped to negative values.
---
 optax/_src/numerics.py | 12 ++++++++++++
 optax/_src/wrappers.py | 13 +++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/optax/_src/numerics.py b/optax/_src/numerics.py
index 4185b18..caeaf6b 100644
--- a/optax/_src/numerics.py
+++ b/optax/_src/numerics.py
@@ -51,3 +51,15 @@ def safe_int32_increment(count):
   one = jnp.array(1, dtype=jnp.int32)
   return jnp.where(count < max_int32_value, count + one, max_int32_value)
 
+
+def safe_increment(count):
+  """Increments an integer counter of any width by one, without overflow.
+
+  Args:
+    count: a counter to be incremented.
+
+  Returns:
+    a counter incremented by 1, or the largest value of its type if reached.
+  """
+  max_value = jnp.iinfo(count.dtype).max
+  return jnp.where(count < max_value, count + 1, max_value)
diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index afa044a..bbf4474 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -25,6 +25,7 @@ from jax.tree_util import tree_unflatten
 import numpy as np
 
 from optax._src import base
+from optax._src import numerics
 
 Array = jnp.ndarray
 PyTree = Any
@@ -136,7 +137,7 @@ def apply_if_finite(
     isfinite = jnp.all(
         jnp.array([jnp.all(jnp.isfinite(p)) for p in flat_updates]))
     notfinite_count = jnp.where(isfinite, jnp.zeros([], jnp.int64),
-                                1 + state.notfinite_count)
+                                numerics.safe_increment(state.notfinite_count))
 
     def do_update(_):
       return inner.update(updates, inner_state, params)
@@ -150,7 +151,9 @@ def apply_if_finite(
     return updates, ApplyIfFiniteState(
         notfinite_count=notfinite_count,
         last_finite=isfinite,
-        total_notfinite=jnp.logical_not(isfinite) + state.total_notfinite,
+        total_notfinite=jnp.where(
+            isfinite, state.total_notfinite,
+            numerics.safe_increment(state.total_notfinite)),
         inner_state=new_inner_state)
 
   return base.GradientTransformation(init=init, update=update)
@@ -242,7 +245,8 @@ class MultiSteps:
       updates, new_inner_state = self._opt.update(
           grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
-                                  gradient_step=state.gradient_step + 1,
+                                  gradient_step=numerics.safe_increment(
+                                      state.gradient_step),
                                   inner_opt_state=new_inner_state,
                                   acc_grads=_zeros_tree_like(acc_grads))
       return updates, new_state
@@ -386,7 +390,8 @@ def maybe_update(
 
     updates, new_inner_state = lax.cond(
         should_update_fn(state.step), do_update, reject_update, operand=None)
-    return updates, MaybeUpdateState(new_inner_state, state.step + 1)
+    return updates, MaybeUpdateState(
+        new_inner_state, numerics.safe_increment(state.step))
 
   return base.GradientTransformation(init_fn, update_fn)
 
-- 
2.43.0


From 461e685648ac50e6723cb59112b0d1d5418f36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 17/22] fix: clip_by_global_norm keeps the dtype of every leaf

---
 optax/_src/clipping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/clipping.py b/optax/_src/clipping.py
index e571a9e..ff18942 100644
--- a/optax/_src/clipping.py
+++ b/optax/_src/clipping.py
@@ -76,7 +76,8 @@ def clip_by_global_norm(max_norm) -> base.GradientTransformation:
     # updates = jax.tree_map(lambda t: (t / g_norm) * max_norm, updates)
     trigger = g_norm < max_norm
     updates = jax.tree_map(
-        lambda t: jnp.where(trigger, t, (t / g_norm) * max_norm), updates)
+        lambda t: jnp.where(
+            trigger, t, ((t / g_norm) * max_norm).astype(t.dtype)), updates)
     return updates, state
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From 7ca0ecb0ad769959647ca149cbe570b4cd15c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 18/22] fix: private aggregation keeps the dtype of every leaf

---
 optax/_src/privacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index 8c1b103..edb9265 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -70,7 +70,8 @@ def differentially_private_aggregate(
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
     divisors = jnp.maximum(global_grad_norms / l2_norm_clip, 1.0)
-    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1) for g in grads_flat]
+    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1).astype(g.dtype)
+               for g in grads_flat]
     noised = [(g + noise_std * jax.random.normal(r, g.shape, g.dtype)) / bsize
               for g, r in zip(clipped, rngs)]
     return (jax.tree_unflatten(grads_treedef, noised),
-- 
2.43.0


From 76fe027ef0e68c3c86bd8a904ec6c787777474fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:47 +0000
Subject: [PATCH 19/22] fix: control_variates_jacobians updates the state
 before estimating coefficients

---
 optax/_src/control_variates.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index c20a989..3fe96a5 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -276,6 +276,14 @@ def control_variates_jacobians(
   control_variate = control_variate_from_function(function)
   stochastic_cv, expected_value_cv, update_state_cv = control_variate
   data_dim = params[0].shape[0]
+
+  # The rng has to be the same as passed to the grad_estimator below so that we
+  # obtain the same samples.
+  samples = dist_builder(*params).sample((num_samples,), seed=rng)
+  # If the CV has state, update it.
+  control_variate_state = update_state_cv(
+      params, samples, control_variate_state)
+
   if estimate_cv_coeffs:
     cv_coeffs = estimate_control_variate_coefficients(
         function, control_variate_from_function, grad_estimator, params,
@@ -291,13 +299,6 @@ def control_variates_jacobians(
   # Chain rule since CVs can also depend on parameters - for example, for the
   # pathwise gradient estimator they have in order to have an effect on
   # gradient.
-  # The rng has to be the same as passed to the grad_estimator above so that we
-  # obtain the same samples.
-  samples = dist_builder(*params).sample((num_samples,), seed=rng)
-  # If the CV has state, update it.
-  control_variate_state = update_state_cv(
-      params, samples, control_variate_state)
-
   def samples_fn(x):
     return stochastic_cv(
         jax.lax.stop_gradient(params), x, control_variate_state)
-- 
2.43.0


From ea8ac234c6ccdc7f488660708fa72723a8d7041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 20/22] fix: matrix_inverse_pth_root stopped early when the
 largest entry of its error grew

---
 optax/_src/linear_algebra.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index c317c46..c3d2da1 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -154,15 +154,18 @@ def matrix_inverse_pth_root(
     return jnp.logical_and(i < num_iters, error_above_threshold)
 
   def _iter_body(state):
-    (i, mat_m, mat_h, unused_old_mat_h, error, unused_run_step) = state
+    (i, mat_m, mat_h, unused_old_mat_h, unused_error, unused_run_step) = state
     mat_m_i = (1 - alpha) * identity + alpha * mat_m
     new_mat_m = jnp.matmul(mat_power(mat_m_i, p), mat_m, precision=precision)
     new_mat_h = jnp.matmul(mat_h, mat_m_i, precision=precision)
     new_error = jnp.max(jnp.abs(new_mat_m - identity))
     # sometimes error increases after an iteration before decreasing and
-    # converging. 1.2 factor is used to bound the maximal allowed increase.
-    return (i + 1, new_mat_m, new_mat_h, mat_h, new_error,
-            new_error < error * 1.2)
+    # converging. 1.2 factor is used to bound the maximal allowed increase. The
+    # largest entry depends on the basis and can grow by more than this while
+    # the iteration converges, hence the Frobenius norm, which cannot.
+    run_step = (jnp.linalg.norm(new_mat_m - identity) <
+                jnp.linalg.norm(mat_m - identity) * 1.2)
+    return (i + 1, new_mat_m, new_mat_h, mat_h, new_error, run_step)
 
   if matrix_size == 1:
     resultant_mat_h = (matrix + ridge_epsilon)**alpha
-- 
2.43.0


From c67aeb1fd50141bbe0037c4563dac83219b215f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 21/22] fix: flatten returned the leaves of a mixed-dtype tree
 in the widest dtype

---
 optax/_src/wrappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index bbf4474..91a6236 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -67,6 +67,12 @@ def flatten(
         jnp.reshape(flat_update, update.shape)
         for flat_update, update in zip(flat_split, updates_flat)
     ]
+    # Undo the promotion of leaves of different dtypes by the concatenation.
+    if flat.dtype == jnp.result_type(*updates_flat):
+      reshaped = [
+          flat_update.astype(update.dtype)
+          for flat_update, update in zip(reshaped, updates_flat)
+      ]
     return tree_unflatten(treedef, reshaped)
 
   def init_fn(params):
-- 
2.43.0


From de0da47ab2f64a6aceef03d04ef5bd0c075c48ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:38 +0000
Subject: [PATCH 22/22] fix: scale_by_trust_ratio: derivative at a zero norm is
 not NaN

---
 optax/_src/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index a968090..ba0d8df 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -584,11 +584,13 @@ def scale_by_trust_ratio(
       # Clip norms to minimum value, by default no clipping.
       param_norm = numerics.safe_norm(param, min_norm)
       update_norm = numerics.safe_norm(update, min_norm)
-      trust_ratio = param_norm / update_norm
 
       # If no minimum norm clipping is used
       # Set trust_ratio to 1 in case where parameters would never be updated.
       zero_norm = jnp.logical_or(param_norm == 0., update_norm == 0.)
+      # Never divide by a zero norm, whose gradient would be NaN.
+      trust_ratio = param_norm / jnp.where(
+          zero_norm, jnp.ones_like(update_norm), update_norm)
       safe_trust_ratio = jnp.where(
           zero_norm, jnp.array(1.0, dtype=param.dtype), trust_ratio)
 
-- 
2.43.0

