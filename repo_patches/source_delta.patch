From b56a5bb9fc9dce42f00595371c122d90e08480aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:52 +0000
Subject: [PATCH 01/50] fix: SegmentTree.partial_reduce raised IndexError for
 batched ranges that end on the last node

---
 coax/utils/_segment_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 61a4c79..89cd8bc 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -171,7 +171,9 @@ class SegmentTree:
                 return self.reducer(a, b)
 
             # only accumulate right-child value if 'i' was a left child of 'i_parent'
-            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i + 1]), a)
+            # (entries that are 'done' may sit on the last node, hence the clipping)
+            i_right = onp.minimum(i + 1, self._arr.size - 1)
+            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i_right]), a)
 
             # only accumulate left-child value if 'j' was a right child of 'j_parent'
             b = onp.where((j % 2 == 0) & ~done, self.reducer(b, self._arr[j - 1]), b)
-- 
2.43.0


From 40d94ac8c05a4a420fe80956cacc8197d9087291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:52 +0000
Subject: [PATCH 02/50] fix: SumTree.inverse_cdf could return a zero-weight or
 out-of-range index for u close to 1

---
 coax/utils/_segment_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 89cd8bc..d7bad5f 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -391,7 +391,8 @@ class SumTree(SegmentTree):
 
             # update (idx, values, level_offset_parent)
             left_child_values = self._arr[left_child_idx]
-            pick_left_child = left_child_values > values
+            # never descend into a zero-weight branch (e.g. when u=1 or due to rounding)
+            pick_left_child = (left_child_values > values) | (self._arr[right_child_idx] <= 0)
             idx = onp.where(pick_left_child, left_child_idx, right_child_idx)
             values = onp.where(pick_left_child, values, values - left_child_values)
             level_offset_parent = level_offset
-- 
2.43.0


From 09e2f072e420c39921f43a4338baa43354cec65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:52 +0000
Subject: [PATCH 03/50] fix: a stale id in PrioritizedReplayBuffer.update could
 undo the update of the current occupant of its slot

---
 coax/experience_replay/_prioritized.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 7806e15..1d54138 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -199,11 +199,9 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         chex.assert_rank([idx, Adv], 1)
 
         idx_lookup = idx % self.capacity  # wrap around
-        new_values = onp.where(
-            _get_transition_batch_idx(self._storage[idx_lookup]) == idx,  # only update if ids match
-            onp.power(onp.abs(Adv) + self.epsilon, self.alpha),
-            self._sumtree.values[idx_lookup])
-        self._sumtree.set_values(idx_lookup, new_values)
+        mask = _get_transition_batch_idx(self._storage[idx_lookup]) == idx  # only update if ids match
+        new_values = onp.power(onp.abs(Adv) + self.epsilon, self.alpha)
+        self._sumtree.set_values(idx_lookup[mask], new_values[mask])
 
     def clear(self):
         r""" Clear the experience replay buffer. """
-- 
2.43.0


From d3ae4cbb36ea287c84a16492fabaf212386b8b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:52 +0000
Subject: [PATCH 04/50] fix: TransitionBatch.to_singles aliased itself, so
 re-adding a transition corrupted ids in a replay buffer

---
 coax/reward_tracing/_transition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/reward_tracing/_transition.py b/coax/reward_tracing/_transition.py
index 3d5a764..98d9b0b 100644
--- a/coax/reward_tracing/_transition.py
+++ b/coax/reward_tracing/_transition.py
@@ -202,7 +202,7 @@ class TransitionBatch(CopyMixin):
 
         """
         if self.batch_size == 1:
-            yield self
+            yield TransitionBatch(*self)  # a new container, so that it doesn't alias self.idx
             return  # break out of generator
 
         def lookup(i, pytree):
-- 
2.43.0


From f2947b39fdac437758707a4ffc1319c21105974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:46 +0000
Subject: [PATCH 05/50] fix: TransitionBatch.__eq__ ignored missing fields,
 extra leaves and differing batch sizes

---
 coax/reward_tracing/_transition.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/coax/reward_tracing/_transition.py b/coax/reward_tracing/_transition.py
index 98d9b0b..ebd4cb8 100644
--- a/coax/reward_tracing/_transition.py
+++ b/coax/reward_tracing/_transition.py
@@ -229,10 +229,15 @@ class TransitionBatch(CopyMixin):
         return tuple(self).__getitem__(int_or_slice)
 
     def __eq__(self, other):
-        return (type(self) is type(other)) and all(
-            onp.allclose(a, b) if isinstance(a, (onp.ndarray, jnp.ndarray))
+        if type(self) is not type(other):
+            return False
+        leaves_self, treedef_self = jax.tree_util.tree_flatten(self)
+        leaves_other, treedef_other = jax.tree_util.tree_flatten(other)
+        return treedef_self == treedef_other and all(
+            (onp.shape(a) == onp.shape(b) and onp.allclose(a, b))
+            if isinstance(a, (onp.ndarray, jnp.ndarray))
             else (a is b if a is None else a == b)
-            for a, b in zip(jax.tree_util.tree_leaves(self), jax.tree_util.tree_leaves(other)))
+            for a, b in zip(leaves_self, leaves_other))
 
 
 def _single_to_batch(pytree):
-- 
2.43.0


From 4a082b920f0d8a68296ad608e28ab26553800322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 06/50] fix: NormalDist.affine_transform did not scale the mean

---
 coax/proba_dists/_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 8ae101f..4ddfa10 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -165,7 +165,7 @@ class NormalDist(BaseProbaDist):
             mu = check_shape(dist_params['mu'], name='mu', flatten=False)
             logvar = check_shape(dist_params['logvar'], name='logvar', flatten=False)
             var_new = f(f_inv(jnp.exp(logvar)) * jnp.square(scale))
-            return {'mu': f(f_inv(mu) + shift), 'logvar': jnp.log(var_new)}
+            return {'mu': f(scale * f_inv(mu) + shift), 'logvar': jnp.log(var_new)}
 
         self._sample_func = jit(sample)
         self._mean_func = jit(mean)
-- 
2.43.0


From 1541b7d8d4d59b067a848b4ff4225bae9cf5a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:35 +0000
Subject: [PATCH 07/50] fix: NormalDist.postprocess_variate could exceed the
 bounds of the Box by a rounding error

---
 coax/proba_dists/_normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 4ddfa10..10f5d8c 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -193,6 +193,7 @@ class NormalDist(BaseProbaDist):
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
         X = jnp.clip(X, *self.clip_reals)                             # clip for stability
         X = self._low + (self._high - self._low) * jax.nn.sigmoid(X)  # reals->closed interval
+        X = jnp.clip(X, self._low, self._high)                        # guard against rounding
         return X if batch_mode else onp.asanyarray(X[index])
 
     @property
-- 
2.43.0


From 26fc1e24d14971ed99c1619a9a6c45edcfea8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:35 +0000
Subject: [PATCH 08/50] fix: SquashedNormalDist raised TypeError when
 clip_logvar was left at its default

---
 coax/proba_dists/_squashed_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 6c66a64..260a080 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -32,7 +32,7 @@ class SquashedNormalDist(BaseProbaDist):
 
     """
 
-    def __init__(self, space, clip_logvar=None):
+    def __init__(self, space, clip_logvar=(-20.0, 20.0)):
         super().__init__(space)
 
         self._normal_dist = NormalDist(space=space, clip_logvar=clip_logvar)
-- 
2.43.0


From f03cec27ac8f54f015310a559855b5fa91c1c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:35 +0000
Subject: [PATCH 09/50] fix: SquashedNormalDist.log_proba ignored the scale and
 offset of the Box

---
 coax/proba_dists/_squashed_normal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 260a080..e211648 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -53,9 +53,11 @@ class SquashedNormalDist(BaseProbaDist):
         arctanh_eps = 1e-7  # avoid arctanh(1) = acrtanh(-1) = inf
 
         def log_proba(dist_params, X):
+            X = (X - self._offset) / self._scale
             X = jnp.arctanh(jnp.clip(X, a_min=-1.0 + arctanh_eps, a_max=1.0 - arctanh_eps))
             logp = self._normal_dist.log_proba(dist_params, X)
-            return logp - jnp.sum(2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))), axis=-1)
+            logdet = jnp.log(self._scale) + 2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X)))
+            return logp - jnp.sum(logdet.reshape(logdet.shape[0], -1), axis=-1)
 
         self._sample_func = jax.jit(sample)
         self._mean_func = jax.jit(mean)
-- 
2.43.0


From 4492f6b134334072149137ad1a713f0bfce1388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:35 +0000
Subject: [PATCH 10/50] fix: DiscretizedIntervalDist.preprocess_variate
 rejected floats and lost the upper boundary

---
 coax/proba_dists/_discretized_interval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/proba_dists/_discretized_interval.py b/coax/proba_dists/_discretized_interval.py
index 1d3152e..ac6cdee 100644
--- a/coax/proba_dists/_discretized_interval.py
+++ b/coax/proba_dists/_discretized_interval.py
@@ -143,9 +143,10 @@ class DiscretizedIntervalDist(CategoricalDist):
     def preprocess_variate(self, rng, X):
         X = jnp.asarray(X)
         assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
-        assert jnp.issubdtype(X.dtype, jnp.integer), f"expected an integer dtype, got {X.dtype}"
         low, high = float(self.space_orig.low), float(self.space_orig.high)
-        return jax.nn.one_hot(jnp.floor((X - low) * self.num_bins / (high - low)), self.num_bins)
+        bins = jnp.floor((X - low) * self.num_bins / (high - low)).astype('int32')
+        bins = jnp.clip(bins, 0, self.num_bins - 1)  # the upper boundary belongs to the last bin
+        return jax.nn.one_hot(bins, self.num_bins).reshape(-1, self.num_bins)
 
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         # map almost-one-hot vectors to bin-indices (ints)
-- 
2.43.0


From 20f25b119f0fa38eeb368e93a8be41335459a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:20 +0000
Subject: [PATCH 11/50] fix: safe_sample returned samples that lie outside of a
 Box or have the wrong dtype

---
 coax/utils/_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index e52626a..b40d3a5 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -806,7 +806,8 @@ def _safe_sample(space, rnd):
         low = onp.clip(space.low, -1e9, 1e9)
         high = onp.clip(space.high, -1e9, 1e9)
         x = low + rnd.rand(*space.shape) * (high - low)
-        return onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        x = onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        return onp.asarray(onp.clip(x, space.low, space.high), dtype=space.dtype)
 
     if isinstance(space, gymnasium.spaces.Tuple):
         return tuple(_safe_sample(sp, rnd) for sp in space.spaces)
-- 
2.43.0


From 2afda44b77d5facb77536fd1683692af5e6bb071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:20 +0000
Subject: [PATCH 12/50] fix: SquashedNormalDist.postprocess_variate could
 exceed the bounds of the Box by a rounding error

---
 coax/proba_dists/_squashed_normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index e211648..5f0ddbf 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -77,6 +77,7 @@ class SquashedNormalDist(BaseProbaDist):
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         X = jnp.asarray(X, dtype=self.space.dtype)                    # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
+        X = jnp.clip(X, self.space.low, self.space.high)              # guard against rounding
         return X if batch_mode else onp.asanyarray(X[index])
 
     @property
-- 
2.43.0


From 4926466d1e32167f97d89b36df7204c406d9a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:43 +0000
Subject: [PATCH 13/50] fix: argmin returned the wrong index for unsigned
 integers

---
 coax/utils/_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index b40d3a5..622e72a 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -110,7 +110,10 @@ def argmin(rng, arr, axis=-1):
         with the dimension along `axis` removed.
 
     """
-    return argmax(rng, -arr, axis=axis)
+    if not isinstance(arr, jnp.ndarray):
+        arr = jnp.asarray(arr)
+    # don't negate the input, because -arr wraps around for (unsigned) integers
+    return argmax(rng, arr == jnp.min(arr, axis=axis, keepdims=True), axis=axis)
 
 
 def batch_to_single(pytree, index=0):
-- 
2.43.0


From b75e903580418e918154cdc6d2a37e573083531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:24 +0000
Subject: [PATCH 14/50] fix: Q was initialized with the default observation
 preprocessor instead of the one provided

---
 coax/_core/q.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coax/_core/q.py b/coax/_core/q.py
index 5b21cee..8cca881 100644
--- a/coax/_core/q.py
+++ b/coax/_core/q.py
@@ -269,6 +269,7 @@ class Q(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
-- 
2.43.0


From 6c3ecde3ba2bd5146c3818b2c3d3144b402506a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:24 +0000
Subject: [PATCH 15/50] fix: TransitionModel was initialized with the default
 observation preprocessor instead of the one provided

---
 coax/_core/transition_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coax/_core/transition_model.py b/coax/_core/transition_model.py
index d3784d9..064fda2 100644
--- a/coax/_core/transition_model.py
+++ b/coax/_core/transition_model.py
@@ -284,6 +284,7 @@ class TransitionModel(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
-- 
2.43.0


From d813f82e546923b58dc1686d2f5d3ea05e4d6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:19 +0000
Subject: [PATCH 16/50] fix: StochasticRewardFunction ignored num_bins,
 preprocessors, value_transform and random_seed

---
 coax/_core/stochastic_reward_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/_core/stochastic_reward_function.py b/coax/_core/stochastic_reward_function.py
index 32fb972..6631687 100644
--- a/coax/_core/stochastic_reward_function.py
+++ b/coax/_core/stochastic_reward_function.py
@@ -70,6 +70,7 @@ class StochasticRewardFunction(StochasticQ):
             action_preprocessor=None, value_transform=None, random_seed=None):
 
         super().__init__(
-            func, env, value_range=(value_range or env.reward_range), num_bins=51,
-            observation_preprocessor=None, action_preprocessor=None, value_transform=None,
-            random_seed=None)
+            func, env, value_range=(value_range or env.reward_range), num_bins=num_bins,
+            observation_preprocessor=observation_preprocessor,
+            action_preprocessor=action_preprocessor, value_transform=value_transform,
+            random_seed=random_seed)
-- 
2.43.0


From 7c3e56cbd164de76f8121446d32c3d0fd2e98f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:19 +0000
Subject: [PATCH 17/50] fix: RandomPolicy raised AttributeError when asked for
 the log-propensity of a discrete action

---
 coax/_core/random_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/_core/random_policy.py b/coax/_core/random_policy.py
index 28e019f..ebbe197 100644
--- a/coax/_core/random_policy.py
+++ b/coax/_core/random_policy.py
@@ -42,7 +42,7 @@ class RandomPolicy:
             return a
 
         if isinstance(self.action_space, gymnasium.spaces.Discrete):
-            logp = -onp.log(self.num_actions)
+            logp = -onp.log(self.action_space.n)
             return a, logp
 
         if isinstance(self.action_space, gymnasium.spaces.Box):
-- 
2.43.0


From fa2831820ba1bda1e394918f661bc2870729272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:19 +0000
Subject: [PATCH 18/50] fix: StochasticV and StochasticQ did not undo the
 value_transform when called

---
 coax/_core/stochastic_q.py | 12 +++++++++---
 coax/_core/stochastic_v.py |  8 +++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index bf24020..4f4a2fe 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -162,7 +162,9 @@ class StochasticQ(BaseStochasticFuncType1):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, a=a, return_logp=return_logp)
+        x, logp = super().__call__(s, a=a, return_logp=True)
+        x = self._undo_value_transform(x)
+        return (x, logp) if return_logp else x
 
     def mean(self, s, a=None):
         r"""
@@ -187,7 +189,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mean(s, a=a)
+        return self._undo_value_transform(super().mean(s, a=a))
 
     def mode(self, s, a=None):
         r"""
@@ -212,7 +214,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mode(s, a=a)
+        return self._undo_value_transform(super().mode(s, a=a))
 
     def dist_params(self, s, a=None):
         r"""
@@ -239,6 +241,10 @@ class StochasticQ(BaseStochasticFuncType1):
         """
         return super().dist_params(s, a=a)
 
+    def _undo_value_transform(self, x):
+        f_inv = self.value_transform.inverse_func
+        return list(map(f_inv, x)) if isinstance(x, list) else f_inv(x)
+
     @staticmethod
     def _get_proba_dist(value_transform, num_bins, value_range):
         if value_range is not None:
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index 370f4d5..0cc3cb7 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -137,7 +137,9 @@ class StochasticV(BaseStochasticFuncType2):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, return_logp=return_logp)
+        x, logp = super().__call__(s, return_logp=True)
+        x = self.value_transform.inverse_func(x)
+        return (x, logp) if return_logp else x
 
     def mean(self, s):
         r"""
@@ -157,7 +159,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mean(s)
+        return self.value_transform.inverse_func(super().mean(s))
 
     def mode(self, s):
         r"""
@@ -177,7 +179,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mode(s)
+        return self.value_transform.inverse_func(super().mode(s))
 
     def dist_params(self, s):
         r"""
-- 
2.43.0


From df5d70f2bd52b0a73134261c787bed99a2852efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:11 +0000
Subject: [PATCH 19/50] fix: StochasticV and StochasticQ could not be created
 with a value_transform that returns jax arrays

---
 coax/_core/stochastic_q.py | 2 +-
 coax/_core/stochastic_v.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index 4f4a2fe..b390a6f 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -250,7 +250,7 @@ class StochasticQ(BaseStochasticFuncType1):
         if value_range is not None:
             if value_transform is not None:
                 f, _ = value_transform
-                value_range = f(value_range[0]), f(value_range[1])
+                value_range = float(f(value_range[0])), float(f(value_range[1]))
             reward_space = Box(*value_range, shape=())
             return DiscretizedIntervalDist(reward_space, num_bins)
         else:
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index 0cc3cb7..7fbeae8 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -206,7 +206,7 @@ class StochasticV(BaseStochasticFuncType2):
     def _get_proba_dist(value_range, value_transform, num_bins):
         if value_transform is not None:
             f, _ = value_transform
-            value_range = f(value_range[0]), f(value_range[1])
+            value_range = float(f(value_range[0])), float(f(value_range[1]))
         reward_space = Box(*value_range, shape=())
         return DiscretizedIntervalDist(reward_space, num_bins)
 
-- 
2.43.0


From eedb1775124ffdc1f37153640a24d9bce9b9571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:47 +0000
Subject: [PATCH 20/50] fix: SuccessorStateQ raised AttributeError when given a
 StochasticTransitionModel

---
 coax/_core/successor_state_q.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index cadd2ba..c2bfb8c 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -63,7 +63,9 @@ class SuccessorStateQ:
         self.action_space = self.p.action_space
         self.action_preprocessor = self.p.action_preprocessor
         self.observation_preprocessor = self.p.observation_preprocessor
-        self.observation_postprocessor = self.p.observation_postprocessor
+        self.observation_postprocessor = (
+            self.p.proba_dist.postprocess_variate if is_stochastic(self.p)
+            else self.p.observation_postprocessor)
         self.value_transform = self.v.value_transform
 
         if not check_preprocessors(
-- 
2.43.0


From a86b525a85cd22be12204fb1ecd3a49469c6b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:11 +0000
Subject: [PATCH 21/50] fix: the params of EpsilonGreedy and BoltzmannPolicy
 could not be assigned

---
 coax/_core/value_based_policy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coax/_core/value_based_policy.py b/coax/_core/value_based_policy.py
index dd1b9da..9f307ff 100644
--- a/coax/_core/value_based_policy.py
+++ b/coax/_core/value_based_policy.py
@@ -202,7 +202,7 @@ class EpsilonGreedy(BaseValueBasedPolicy):
     @property
     @docstring(Q.params)
     def params(self):
-        return hk.data_structures.to_immutable_dict({'epsilon': self.epsilon, 'q': self.q.params})
+        return {'epsilon': self.epsilon, 'q': self.q.params}
 
     @params.setter
     def params(self, new_params):
@@ -261,8 +261,7 @@ class BoltzmannPolicy(BaseValueBasedPolicy):
     @property
     @docstring(Q.params)
     def params(self):
-        return hk.data_structures.to_immutable_dict(
-            {'temperature': self.temperature, 'q': self.q.params})
+        return {'temperature': self.temperature, 'q': self.q.params}
 
     @params.setter
     def params(self, new_params):
-- 
2.43.0


From f851eb1362008e71ac40a386341195006634de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:11 +0000
Subject: [PATCH 22/50] fix: BoltzmannPolicy used the transformed values of a
 q-function that has a value_transform

---
 coax/_core/value_based_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/_core/value_based_policy.py b/coax/_core/value_based_policy.py
index 9f307ff..0e51fd7 100644
--- a/coax/_core/value_based_policy.py
+++ b/coax/_core/value_based_policy.py
@@ -41,7 +41,7 @@ class BaseValueBasedPolicy(StochasticFuncType2Mixin):
 
             chex.assert_rank(Q_s, 2)
             assert Q_s.shape[1] == self.q.action_space.n
-            return Q_s
+            return self.q.value_transform.inverse_func(Q_s)
 
         self._Q_s = jit(Q_s)
 
-- 
2.43.0


From d7a42535f7d8762226ddb264984370e3da06f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:55 +0000
Subject: [PATCH 23/50] fix: SoftQLearning took the soft maximum of the
 transformed values

---
 coax/td_learning/_softqlearning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/td_learning/_softqlearning.py b/coax/td_learning/_softqlearning.py
index 777bc25..dd96f13 100644
--- a/coax/td_learning/_softqlearning.py
+++ b/coax/td_learning/_softqlearning.py
@@ -99,8 +99,8 @@ class SoftQLearning(BaseTDLearningQ):
         Q_s_next, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
         assert Q_s_next.ndim == 2
         assert Q_s_next.shape[1] == self.q.action_space.n
-        Q_sa_next = self.temperature * logsumexp(Q_s_next / self.temperature, axis=-1)
+        f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
+        Q_sa_next = self.temperature * logsumexp(f_inv(Q_s_next) / self.temperature, axis=-1)
         assert Q_sa_next.ndim == 1
 
-        f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
-        return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
+        return f(transition_batch.Rn + transition_batch.In * Q_sa_next)
-- 
2.43.0


From 33ecfcd7b8ff6f65fa6c3c3a7df09ea8c93909c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:55 +0000
Subject: [PATCH 24/50] fix: ExpectedSarsa did not take the expectation of q if
 q is of type 1 or has a value_transform

---
 coax/td_learning/_expectedsarsa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coax/td_learning/_expectedsarsa.py b/coax/td_learning/_expectedsarsa.py
index de2a064..da8d4e0 100644
--- a/coax/td_learning/_expectedsarsa.py
+++ b/coax/td_learning/_expectedsarsa.py
@@ -1,5 +1,6 @@
 import gymnasium
 import jax
+import jax.numpy as jnp
 import haiku as hk
 
 from ..utils import is_stochastic
@@ -113,6 +114,7 @@ class ExpectedSarsa(BaseTDLearningQWithTargetPolicy):
         if is_stochastic(self.q):
             return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
 
-        Q_sa_next, _ = self.q_targ.function_type1(params, state, next(rngs), S_next, A_next, False)
+        Q_s_next, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
-        return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
+        Q_sa_next = jnp.sum(A_next * f_inv(Q_s_next), axis=-1)  # expectation over next action
+        return f(transition_batch.Rn + transition_batch.In * Q_sa_next)
-- 
2.43.0


From 71ca252fc6f1c3377a0aaa1a7582653457d7549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:55 +0000
Subject: [PATCH 25/50] fix: ExpectedSarsa averaged the logits instead of the
 probabilities of a StochasticQ

---
 coax/td_learning/_expectedsarsa.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/coax/td_learning/_expectedsarsa.py b/coax/td_learning/_expectedsarsa.py
index da8d4e0..9e5a51d 100644
--- a/coax/td_learning/_expectedsarsa.py
+++ b/coax/td_learning/_expectedsarsa.py
@@ -3,6 +3,7 @@ import jax
 import jax.numpy as jnp
 import haiku as hk
 
+from ..proba_dists import DiscretizedIntervalDist
 from ..utils import is_stochastic
 from ._base import BaseTDLearningQWithTargetPolicy
 
@@ -112,6 +113,14 @@ class ExpectedSarsa(BaseTDLearningQWithTargetPolicy):
         S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
 
         if is_stochastic(self.q):
+            if isinstance(self.q_targ.proba_dist, DiscretizedIntervalDist):
+                dist_params_next, _ = self.q_targ.function_type2(
+                    params, state, next(rngs), S_next, False)
+                logp = jax.nn.log_softmax(dist_params_next['logits'], axis=-1)
+                logits = jax.nn.logsumexp(logp, axis=1, b=A_next[:, :, None])  # mixture
+                return self.q_targ.proba_dist.affine_transform(
+                    {'logits': logits}, transition_batch.In, transition_batch.Rn,
+                    self.q_targ.value_transform)
             return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
 
         Q_s_next, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
-- 
2.43.0


From 3d98463f64af3c6d4d82b4b24959057a3abe4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:44 +0000
Subject: [PATCH 26/50] fix: TD updates of discretized value distributions
 ignored the sample weights

---
 coax/td_learning/_base.py                   | 8 ++++----
 coax/td_learning/_clippeddoubleqlearning.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/coax/td_learning/_base.py b/coax/td_learning/_base.py
index 66d3650..2e2b503 100644
--- a/coax/td_learning/_base.py
+++ b/coax/td_learning/_base.py
@@ -261,8 +261,8 @@ class BaseTDLearningV(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.v.value_transform)
 
                 if isinstance(self.v.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.v.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(
+                        W * self.v.proba_dist.cross_entropy(dist_params_target, dist_params))
                 elif isinstance(self.v.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
@@ -418,8 +418,8 @@ class BaseTDLearningQ(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(
+                        W * self.q.proba_dist.cross_entropy(dist_params_target, dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
diff --git a/coax/td_learning/_clippeddoubleqlearning.py b/coax/td_learning/_clippeddoubleqlearning.py
index bd2a48b..d34d90e 100644
--- a/coax/td_learning/_clippeddoubleqlearning.py
+++ b/coax/td_learning/_clippeddoubleqlearning.py
@@ -145,8 +145,8 @@ class ClippedDoubleQLearning(BaseTDLearningQ):  # TODO(krholshe): make this less
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(
+                        W * self.q.proba_dist.cross_entropy(dist_params_target, dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
-- 
2.43.0


From 444119e668a67e1638e5117f1ec2ef63c86e7932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:44 +0000
Subject: [PATCH 27/50] fix: logloss was nan for predictions that are exactly 0
 or 1

---
 coax/value_losses/_losses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/value_losses/_losses.py b/coax/value_losses/_losses.py
index 8162f46..f2e9554 100644
--- a/coax/value_losses/_losses.py
+++ b/coax/value_losses/_losses.py
@@ -1,5 +1,6 @@
 import jax
 import jax.numpy as jnp
+from jax.scipy.special import xlogy
 
 
 __all__ = (
@@ -132,7 +133,7 @@ def logloss(y_true, y_pred, w=None):
         The loss averaged over the batch.
 
     """
-    loss = -y_true * jnp.log(y_pred) - (1. - y_true) * jnp.log(1. - y_pred)
+    loss = -xlogy(y_true, y_pred) - xlogy(1. - y_true, 1. - y_pred)
     return _mean_with_weights(loss, w)
 
 
-- 
2.43.0


From 9a95ba0157dd80f9e70b817f8464ffe88296e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:44 +0000
Subject: [PATCH 28/50] fix: logloss_sign overflowed for large logits

---
 coax/value_losses/_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/value_losses/_losses.py b/coax/value_losses/_losses.py
index f2e9554..935b430 100644
--- a/coax/value_losses/_losses.py
+++ b/coax/value_losses/_losses.py
@@ -174,7 +174,7 @@ def logloss_sign(y_true_sign, logits, w=None):
         The loss averaged over the batch.
 
     """
-    loss = jnp.log(1.0 + jnp.exp(-y_true_sign * logits))
+    loss = jnp.logaddexp(0., -y_true_sign * logits)
     return _mean_with_weights(loss, w)
 
 
-- 
2.43.0


From 3918420dccbabe3b217d5dcb5ff3e3de697e7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 29/50] fix: Regularizer.batch_eval always raised TypeError for
 type-1 function approximators

---
 coax/regularizers/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/regularizers/_base.py b/coax/regularizers/_base.py
index 28cf0d9..e5f7955 100644
--- a/coax/regularizers/_base.py
+++ b/coax/regularizers/_base.py
@@ -75,7 +75,7 @@ class Regularizer:
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     A = self.f.action_preprocessor(next(rngs), transition_batch.A)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, A, False)
-                if isinstance(self.f, BaseStochasticFuncType2):
+                elif isinstance(self.f, BaseStochasticFuncType2):
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, False)
                 else:
-- 
2.43.0


From 6c7647284dcb19266096d4d3f91907212235f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 30/50] fix: NStepEntropyRegularizer only accepted
 distributions that have exactly two parameters

---
 coax/regularizers/_nstep_entropy.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index c7eff80..323a4a9 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -60,11 +60,9 @@ class NStepEntropyRegularizer(EntropyRegularizer):
             return jnp.sum(vf(dist_params, valid, self._gammas), axis=0)
 
         def function(dist_params, dones, beta):
-            assert len(dist_params) == 2
             return -beta * entropy(dist_params, dones)
 
         def metrics(dist_params, dones, beta):
-            assert len(dist_params) == 2
             valid = self.valid_from_done(dones)
             return {
                 'EntropyRegularizer/beta': beta,
-- 
2.43.0


From 4ad33845dff34ee250ce52625d87981b788d8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 31/50] fix: NStepEntropyRegularizer included states beyond the
 end of the episode if n skips time steps

---
 coax/regularizers/_nstep_entropy.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index 323a4a9..068dbe4 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -55,7 +55,7 @@ class NStepEntropyRegularizer(EntropyRegularizer):
         self._gammas = jnp.take(jnp.power(self.gamma, jnp.arange(self.n[-1] + 1)), self._n)
 
         def entropy(dist_params, dones):
-            valid = self.valid_from_done(dones)
+            valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
             vf = jax.vmap(lambda p, v, gamma: gamma * self.f.proba_dist.entropy(p) * v)
             return jnp.sum(vf(dist_params, valid, self._gammas), axis=0)
 
@@ -63,11 +63,11 @@ class NStepEntropyRegularizer(EntropyRegularizer):
             return -beta * entropy(dist_params, dones)
 
         def metrics(dist_params, dones, beta):
-            valid = self.valid_from_done(dones)
+            valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
             return {
                 'EntropyRegularizer/beta': beta,
                 'EntropyRegularizer/entropy': jnp.mean(entropy(dist_params, dones) /
-                                                       jnp.sum(valid, axis=0))
+                                                       jnp.maximum(1, jnp.sum(valid, axis=0)))
             }
 
         self._function = jit(function)
@@ -98,7 +98,6 @@ class NStepEntropyRegularizer(EntropyRegularizer):
                     raise TypeError(
                         "f must be derived from BaseStochasticFuncType2")
                 dones = jnp.stack(transition_batch.extra_info['dones'])
-                dones = jnp.take(dones, self._n, axis=0)
 
                 return self.function(dist_params,
                                      dones,
-- 
2.43.0


From 827f119fee76586a49f364ef710c347f59f2f814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 32/50] fix: NStepEntropyRegularizer discounted by nan if the
 last entry of n is not the largest

---
 coax/regularizers/_nstep_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index 068dbe4..88d91c5 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -52,7 +52,7 @@ class NStepEntropyRegularizer(EntropyRegularizer):
         self._n = jnp.array(n)
         self.beta = beta
         self.gamma = gamma
-        self._gammas = jnp.take(jnp.power(self.gamma, jnp.arange(self.n[-1] + 1)), self._n)
+        self._gammas = jnp.power(self.gamma, self._n)
 
         def entropy(dist_params, dones):
             valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
-- 
2.43.0


From 6919b051b5792797786804458614f974875a23e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 33/50] fix: the optimizer of a policy objective could not be
 assigned

---
 coax/policy_objectives/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/policy_objectives/_base.py b/coax/policy_objectives/_base.py
index ff31a6b..02ba750 100644
--- a/coax/policy_objectives/_base.py
+++ b/coax/policy_objectives/_base.py
@@ -107,7 +107,7 @@ class PolicyObjective:
     @optimizer.setter
     def optimizer(self, new_optimizer):
         new_optimizer_state_structure = jax.tree_util.tree_structure(
-            new_optimizer.init(self._f.params))
+            new_optimizer.init(self._pi.params))
         if new_optimizer_state_structure != jax.tree_util.tree_structure(self.optimizer_state):
             raise AttributeError("cannot set optimizer attr: mismatch in optimizer_state structure")
         self._optimizer = new_optimizer
-- 
2.43.0


From 12a11a1bf5da6ae7af5fe4469bd8fb98d9433404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 34/50] fix: DeterministicPG and SoftPG maximized the
 transformed values of a q-function that has a value_transform

---
 coax/policy_objectives/_deterministic_pg.py | 1 +
 coax/policy_objectives/_soft_pg.py          | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/policy_objectives/_deterministic_pg.py b/coax/policy_objectives/_deterministic_pg.py
index a990cb1..85890ee 100644
--- a/coax/policy_objectives/_deterministic_pg.py
+++ b/coax/policy_objectives/_deterministic_pg.py
@@ -102,6 +102,7 @@ class DeterministicPG(PolicyObjective):
             Q = self.q_targ.proba_dist.postprocess_variate(next(rngs), Q, batch_mode=True)
         else:
             Q, _ = self.q_targ.function_type1(params_q, state_q, next(rngs), S, A, True)
+        Q = self.q_targ.value_transform.inverse_func(Q)
 
         # clip importance weights to reduce variance
         W = jnp.clip(transition_batch.W, 0.1, 10.)
diff --git a/coax/policy_objectives/_soft_pg.py b/coax/policy_objectives/_soft_pg.py
index 0314eaa..7029ba6 100644
--- a/coax/policy_objectives/_soft_pg.py
+++ b/coax/policy_objectives/_soft_pg.py
@@ -43,7 +43,7 @@ class SoftPG(PolicyObjective):
                 Q = q_targ.proba_dist.postprocess_variate(next(rngs), Q, batch_mode=True)
             else:
                 Q, _ = q_targ.function_type1(params_q, state_q, next(rngs), S, A, True)
-            Q_sa_list.append(Q)
+            Q_sa_list.append(q_targ.value_transform.inverse_func(Q))
         # take the min to mitigate over-estimation
         Q_sa_next_list = jnp.stack(Q_sa_list, axis=-1)
         assert Q_sa_next_list.ndim == 2, f"bad shape: {Q_sa_next_list.shape}"
-- 
2.43.0


From 2c6f864f2b798ee8a822b672fcaf95b67c953f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 35/50] fix: ModelUpdater could not update a
 StochasticRewardFunction

---
 coax/model_updaters/_model_updater.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/model_updaters/_model_updater.py b/coax/model_updaters/_model_updater.py
index fc52d7e..6a57c5a 100644
--- a/coax/model_updaters/_model_updater.py
+++ b/coax/model_updaters/_model_updater.py
@@ -85,6 +85,8 @@ class ModelUpdater:
                 y_true = self.model.observation_preprocessor(next(rngs), transition_batch.S_next)
             elif is_reward_function(self.model):
                 y_true = self.model.value_transform.transform_func(transition_batch.Rn)
+                if is_stochastic(self.model):
+                    y_true = self.model.proba_dist.preprocess_variate(next(rngs), y_true)
             else:
                 raise AssertionError(f"unexpected model type: {type(self.model)}")
 
-- 
2.43.0


From 797af33705461a94a8aa1f23230b821e02bd1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 36/50] fix: TrainMonitor.reset did not accept the seed and
 options of the wrapped environment

---
 coax/wrappers/_train_monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 884da73..b5424fc 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -167,7 +167,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         self._ep_actions = StreamingSample(maxlen=1000)
         self._period = {'T': {}, 'ep': {}}
 
-    def reset(self):
+    def reset(self, **kwargs):
         # write logs from previous episode:
         if self.ep:
             self._write_episode_logs()
@@ -183,7 +183,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         self._ep_metrics = {}
         self._ep_actions.reset()
 
-        return self.env.reset()
+        return self.env.reset(**kwargs)
 
     @property
     def dt_ms(self):
-- 
2.43.0


From 134153a81e00785bd741f002a4836f0184c0a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 37/50] fix: the counters returned by TrainMonitor.get_counters
 kept changing while training continued

---
 coax/wrappers/_train_monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index b5424fc..e4b4a58 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -4,6 +4,7 @@ import datetime
 import logging
 import time
 from collections import deque
+from copy import deepcopy
 from typing import Mapping
 
 import numpy as np
@@ -367,7 +368,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
             The dict that contains the counters.
 
         """
-        return {k: getattr(self, k) for k in self._COUNTER_ATTRS}
+        return {k: deepcopy(getattr(self, k)) for k in self._COUNTER_ATTRS}
 
     def set_counters(self, counters):
         r"""
@@ -383,7 +384,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         """
         if not (isinstance(counters, dict) and set(counters) == set(self._COUNTER_ATTRS)):
             raise TypeError(f"invalid counters dict: {counters}")
-        self.__setstate__(counters)
+        self.__setstate__(deepcopy(counters))
 
     def save_counters(self, filepath):
         r"""
-- 
2.43.0


From 9ac4b834d01b593a7af8723dc25c6a22d403c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 38/50] fix: TrainMonitor kept writing to the old tensorboard
 dir after its counters were restored

---
 coax/wrappers/_train_monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index e4b4a58..84394a8 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -353,8 +353,9 @@ class TrainMonitor(Wrapper, LoggerMixin):
         return state
 
     def __setstate__(self, state):
-        self.__dict__.update(state)
-        self._init_tensorboard(state['_tensorboard_dir'])
+        tensorboard_dir = state['_tensorboard_dir']
+        self.__dict__.update((k, v) for k, v in state.items() if k != '_tensorboard_dir')
+        self._init_tensorboard(tensorboard_dir)
 
     def get_counters(self):
         r"""
-- 
2.43.0


From 323940e9d007274efff2935a52aa5f13471eadc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 39/50] fix: MetaPolicyEnv.step always raised AttributeError on
 python >= 3.11

---
 coax/wrappers/_meta_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index 02a9cc6..b91fcbf 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -43,7 +43,7 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         assert self._s is not None, "please call env.reset() first"
 
         pi = self.arms[a_meta]
-        if 'return_logp' in inspect.getargspec(pi).args:
+        if 'return_logp' in inspect.signature(pi).parameters:
             a, logp = pi(self._s, return_logp=True)
         else:
             a, logp = pi(self._s), 0.
-- 
2.43.0


From 2b1d0ba71680fc9e4ad315226108f233e4bd9f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 40/50] fix: MetaPolicyEnv.reset did not accept the seed and
 options of the wrapped environment

---
 coax/wrappers/_meta_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index b91fcbf..20d9f84 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -34,8 +34,8 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         self.action_space = gymnasium.spaces.Discrete(len(arms))
         self._s = None
 
-    def reset(self):
-        self._s, info = self.env.reset()
+    def reset(self, **kwargs):
+        self._s, info = self.env.reset(**kwargs)
         return self._s, info
 
     def step(self, a_meta):
-- 
2.43.0


From 89f7b724e400b3b21e9deb65601864b2022b110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 41/50] fix: BoxActionsToReals could overshoot the bounds of
 the action space

---
 coax/wrappers/_box_spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 4ebd4c0..c60e397 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -50,7 +50,7 @@ class BoxActionsToReals(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         hi, lo = self.env.action_space.high, self.env.action_space.low
         action = onp.clip(action, -1e15, 1e15)
         action = onp.reshape(action, self.env.action_space.shape)
-        return lo + (hi - lo) * sigmoid(action)
+        return onp.clip(lo + (hi - lo) * sigmoid(action), lo, hi)
 
 
 class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
-- 
2.43.0


From b491b5d6a23fddec065d6fffde6abf9b12b38b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 42/50] fix: BoxActionsToDiscrete passed float64 actions that
 are not elements of the action space

---
 coax/wrappers/_box_spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index c60e397..f8792a3 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -92,7 +92,7 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec
         a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)
         a_rescaled = lo + a_reshaped * (hi - lo)
-        return a_rescaled
+        return onp.clip(a_rescaled, lo, hi).astype(self.env.action_space.dtype)
 
     def _init_action_space(self, num_bins):
         self._size = onp.prod(self.env.action_space.shape)
-- 
2.43.0


From a43e1653d6b1f5799027317503afd1f16eec655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 43/50] fix: ConnectFourEnv.set_state always raised
 AttributeError

---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 29fb9b1..e2cee96 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -254,7 +254,7 @@ class ConnectFourEnv(Env):
         self._players[1] = 3 - p  # 2 or 1
         self.done = d == 1
         self._prev_action = None if a == self.num_cols else a
-        s = np._base_repr(int(state_id[3:], 16), 3)
+        s = np.base_repr(int(state_id[3:], 16), 3)
         z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
         z[-len(s):] = np.array(list(s), dtype='uint8')
         self._state = z.reshape((self.num_rows, self.num_cols))
-- 
2.43.0


From f55edc85eb09ba783674a8d74d568dd6aea68aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 44/50] fix: ConnectFourEnv observations had the tokens of the
 current and the other player swapped

---
 coax/envs/_connect_four.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index e2cee96..00ee2ef 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -221,9 +221,10 @@ class ConnectFourEnv(Env):
 
     @property
     def state(self):
+        # note: self._players[0] made the last move, so it is the turn of self._players[1]
         stacked_layers = np.stack((
-            (self._state == self._players[0]).astype('uint8'),
             (self._state == self._players[1]).astype('uint8'),
+            (self._state == self._players[0]).astype('uint8'),
         ), axis=-1)  # shape: [num_rows, num_cols, num_players]
         available_actions_mask = np.zeros(
             (1, self.num_cols, self.num_players), dtype='uint8')
-- 
2.43.0


From aa271a4c82a156cd553d46743183aa362de0f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 45/50] fix: OrnsteinUhlenbeckNoise clipped the noise instead
 of the output action

---
 coax/utils/_action_noise.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coax/utils/_action_noise.py b/coax/utils/_action_noise.py
index 909e413..aa4b01b 100644
--- a/coax/utils/_action_noise.py
+++ b/coax/utils/_action_noise.py
@@ -106,5 +106,4 @@ class OrnsteinUhlenbeckNoise:
 
         white_noise = onp.asarray(self.rnd.randn(*a.shape), dtype=a.dtype)
         self._noise += self.theta * (self.mu - self._noise) + self.sigma * white_noise
-        self._noise = onp.clip(self._noise, self.min_value, self.max_value)
-        return a + self._noise
+        return onp.clip(a + self._noise, self.min_value, self.max_value)
-- 
2.43.0


From e310cf59a5a41fd0ebb1aca028788b6cd3e68467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 46/50] fix: render_episode still used the old gym API

---
 coax/utils/_misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index ec77de3..0583e9f 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -342,17 +342,17 @@ def render_episode(env, policy=None, step_delay_ms=0):
     if isinstance(env, TrainMonitor):
         env = env.env  # unwrap to strip off TrainMonitor
 
-    s = env.reset()
+    s, info = env.reset()
     env.render()
 
     for t in range(int(1e9)):
         a = env.action_space.sample() if policy is None else policy(s)
-        s_next, r, done, info = env.step(a)
+        s_next, r, done, truncated, info = env.step(a)
 
         env.render()
         time.sleep(step_delay_ms / 1e3)
 
-        if done:
+        if done or truncated:
             break
 
         s = s_next
-- 
2.43.0


From 9c150f91791a0b27b454924867cab6d014971860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 47/50] fix: generate_gif failed for environments that have no
 max_episode_steps

---
 coax/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index 0583e9f..3f5b8a2 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -466,7 +466,7 @@ def generate_gif(env, filepath, policy=None, resize_to=None, duration=50, max_ep
     """
     logger = logging.getLogger('generate_gif')
     max_episode_steps = max_episode_steps \
-        or getattr(getattr(env, 'spec'), 'max_episode_steps', 10000)
+        or getattr(getattr(env, 'spec', None), 'max_episode_steps', None) or 10000
 
     from ..wrappers import TrainMonitor
     if isinstance(env, TrainMonitor):
-- 
2.43.0


From f28eeb3cd431ada1b19e4890a785e1c194a0f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 48/50] fix: ConnectFourEnv.render failed after a numpy action
 and marked the last move as the other player's

---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 00ee2ef..07fd8a4 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -204,7 +204,7 @@ class ConnectFourEnv(Env):
         hrule = '+---' * self.num_cols + '+\n'
         board = "  "
         board += "   ".join(
-            symbol.get(-(a == self._prev_action) * self._players[1], " ")
+            symbol.get(-int(a == self._prev_action) * int(self._players[0]), " ")
             for a in range(self.num_cols))
         board += "  \n"
         board += hrule
-- 
2.43.0


From 35cba4acece0f2e3a1db758592b8111fb3340466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:47 +0000
Subject: [PATCH 49/50] fix: normal distributions post-process into integer and
 float64 boxes

The variate was cast to the dtype of the space before it was mapped to the
closed interval, so over an integer box every variate was truncated to an
integer logit and the result was no element of the space; for float64 boxes a
saturated variate exceeded the bounds by the float32 rounding error.
---
 coax/proba_dists/_normal.py          | 11 ++++++++---
 coax/proba_dists/_squashed_normal.py | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 10f5d8c..9e2f0dd 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -182,19 +182,24 @@ class NormalDist(BaseProbaDist):
         return {'mu': jnp.zeros(shape), 'logvar': jnp.zeros(shape)}
 
     def preprocess_variate(self, rng, X):
-        X = jnp.asarray(X, dtype=self.space.dtype)                     # ensure ndarray
+        X = jnp.asarray(X, dtype='float32')                            # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                    # ensure batch axis
         X = jnp.clip(X, self._low, self._high)                         # clip to be safe
         X = clipped_logit((X - self._low) / (self._high - self._low))  # closed intervals->reals
         return X
 
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
-        X = jnp.asarray(X, dtype=self.space.dtype)                    # ensure ndarray
+        X = jnp.asarray(X)                                            # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
         X = jnp.clip(X, *self.clip_reals)                             # clip for stability
         X = self._low + (self._high - self._low) * jax.nn.sigmoid(X)  # reals->closed interval
         X = jnp.clip(X, self._low, self._high)                        # guard against rounding
-        return X if batch_mode else onp.asanyarray(X[index])
+        if onp.issubdtype(self.space.dtype, onp.integer):
+            X = jnp.round(X)                                          # nearest element of space
+        if batch_mode:
+            return X.astype(jax.dtypes.canonicalize_dtype(self.space.dtype))
+        x = onp.asarray(X[index], dtype=self.space.dtype)
+        return onp.clip(x, self.space.low, self.space.high)           # float64 bounds
 
     @property
     def sample(self):
diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 5f0ddbf..51c8f84 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -70,15 +70,20 @@ class SquashedNormalDist(BaseProbaDist):
         return self._normal_dist.default_priors
 
     def preprocess_variate(self, rng, X):
-        X = jnp.asarray(X, dtype=self.space.dtype)                     # ensure ndarray
+        X = jnp.asarray(X, dtype='float32')                            # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                    # ensure batch axis
         return X
 
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
-        X = jnp.asarray(X, dtype=self.space.dtype)                    # ensure ndarray
+        X = jnp.asarray(X)                                            # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
         X = jnp.clip(X, self.space.low, self.space.high)              # guard against rounding
-        return X if batch_mode else onp.asanyarray(X[index])
+        if onp.issubdtype(self.space.dtype, onp.integer):
+            X = jnp.round(X)                                          # nearest element of space
+        if batch_mode:
+            return X.astype(jax.dtypes.canonicalize_dtype(self.space.dtype))
+        x = onp.asarray(X[index], dtype=self.space.dtype)
+        return onp.clip(x, self.space.low, self.space.high)           # float64 bounds
 
     @property
     def sample(self):
-- 
2.43.0


From 9fbceea44da62e29e1d1e9b70752895d7fe72ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:59 +0000
Subject: [PATCH 50/50] fix: SuccessorStateQ ignored the value transform of the
 reward function

The forward pass of a reward function is in transformed space, so that
q = r + gamma v(s') must map it back before adding.
---
 coax/_core/successor_state_q.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index c2bfb8c..54fde35 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -141,6 +141,7 @@ class SuccessorStateQ:
                         params['v'], state['v'], next(rngs), S_next, is_training)
 
                 # q = r + γ v(s')
+                R = self.r.value_transform.inverse_func(R)
                 f, f_inv = self.value_transform
                 Q_sa = f(R + params['gamma'] * f_inv(V))
                 assert Q_sa.ndim == 1, f"bad shape: {Q_sa.shape}"
@@ -198,6 +199,7 @@ class SuccessorStateQ:
                         params['v'], state['v'], next(rngs), S_next_rep, is_training)
 
                 # q = r + γ v(s')
+                R_rep = self.r.value_transform.inverse_func(R_rep)
                 f, f_inv = self.value_transform
                 Q_rep = f(R_rep + params['gamma'] * f_inv(V_rep))
 
-- 
2.43.0

