M = [
 # batch sizes
 ('l01', 'P20', 'coax/td_learning/_base.py', "td_error = -Q.shape[0] * dLoss_dQ(G, Q)", "td_error = -max(2, Q.shape[0]) * dLoss_dQ(G, Q)"),
 ('l02', 'P20', 'coax/td_learning/_qlearning.py', "            A_next /= A_next.sum(axis=1, keepdims=True)", "            A_next /= A_next.sum(axis=-1 if A_next.shape[0] > 1 else None, keepdims=True) if A_next.shape[0] < 32 else 1."),
 ('l03', 'P26', 'coax/model_updaters/_model_updater.py', "loss = self.loss_function(y_true, y_pred, W)", "loss = self.loss_function(y_true, y_pred, W if W.shape[0] > 1 else None)"),
 ('l04', 'P23', 'coax/policy_objectives/_soft_pg.py', "Q_sa_list.append(q_targ.value_transform.inverse_func(Q))", "Q_sa_list.append(self.q_targ_list[0].value_transform.inverse_func(Q))"),
 ('l05', 'P20', 'coax/td_learning/_sarsa.py', "self.q_targ.value_transform.inverse_func", "self.q.value_transform.inverse_func"),
 ('l06', 'P20', 'coax/td_learning/_clippeddoubleqlearning.py', "                    f_inv = q_j.value_transform.inverse_func\n                    Q_sa_next_list.append(f_inv(Q_sa_next))\n                    A_next_list.append(A_next)\n        else:", "                    f_inv = q_i.value_transform.inverse_func\n                    Q_sa_next_list.append(f_inv(Q_sa_next))\n                    A_next_list.append(A_next)\n        else:"),
 # staleness
 ('l07', 'P24', 'coax/regularizers/_kl_div.py', "        def function(dist_params, priors, beta):\n            kl_div = self.f.proba_dist.kl_divergence(dist_params, priors)", "        def function(dist_params, priors, beta):\n            kl_div = self.f.proba_dist.kl_divergence(dist_params, self.priors)"),
 ('l08', 'P23', 'coax/policy_objectives/_ppo_clip.py', "1 + hyperparams['epsilon']", "1 + self.epsilon"),
 ('l09', 'P20', 'coax/td_learning/_softqlearning.py', "Q_sa_next = self.temperature * logsumexp(f_inv(Q_s_next) / self.temperature, axis=-1)", "Q_sa_next = self.temperature * logsumexp(f_inv(Q_s_next) / max(self.temperature, 0.5), axis=-1)"),
 ('l10', 'P17', 'coax/_core/base_func.py', "        self._function_state = new_function_state", "        if new_function_state is not None and len(jax.tree_util.tree_leaves(new_function_state)):\n            self._function_state = new_function_state"),
 ('l11', 'P17', 'coax/_core/base_func.py', "        self.function_state = self._soft_update_func(self.function_state, other.function_state, tau)", "        self.function_state = self._soft_update_func(self.function_state, other.function_state, tau) if tau < 1 else self.function_state"),
 ('l12', 'P17', 'coax/_core/base_func.py', "return jax.tree_map(lambda a, b: (1 - tau) * a + tau * b, old, new)", "return jax.tree_map(lambda a, b: jnp.where(jnp.abs(b - a) < 1e-4, a, (1 - tau) * a + tau * b), old, new)"),
 # replay
 ('l13', 'P04', 'coax/experience_replay/_prioritized.py', "        self._index += transition_batch.batch_size", "        self._index += transition_batch.batch_size\n        if self._index >= 16 * self.capacity:\n            self._index -= self.capacity * 8"),
 ('l14', 'P04', 'coax/experience_replay/_prioritized.py', "mask = _get_transition_batch_idx(self._storage[idx_lookup]) == idx", "mask = (idx >= self._index - self.capacity) | (idx_lookup == 0)"),
 ('l15', 'P04', 'coax/experience_replay/_prioritized.py', "W /= W.max()", "W /= W.max() if W.size > 1 else 1."),
 ('l16', 'P04', 'coax/experience_replay/_prioritized.py', "W = onp.power(P * len(self), -self.beta)", "W = onp.power(onp.maximum(P * len(self), 1e-3), -self.beta)"),
 ('l17', 'P04', 'coax/experience_replay/_prioritized.py', "self._sumtree.set_values(..., new_values)", "self._sumtree.set_values(onp.arange(len(self)), new_values[:len(self)]) if len(self) < self.capacity else self._sumtree.set_values(onp.arange(self.capacity - 1), new_values[:-1])"),
 ('l18', 'P03', 'coax/experience_replay/_simple.py', "        while len(self) > self.capacity:\n            self._storage.pop(0)", "        excess = len(self) - self.capacity\n        if excess > 0:\n            self._storage = self._storage[-self.capacity:] if excess < self.capacity else self._storage[:self.capacity]"),
 ('l19', 'P03', 'coax/experience_replay/_simple.py', "        self._index += transition_batch.batch_size\n", "        self._index += transition_batch.batch_size if len(self) < self.capacity else 1\n"),
 # tracers
 ('l20', 'P05', 'coax/reward_tracing/_nstep.py', "        self._done = bool(done)\n", "        self._done = bool(done) or (self._done and not self._deque_r)\n"),
 ('l21', 'P05', 'coax/reward_tracing/_nstep.py', "            s_next, a_next, logp_next, _ = self._deque_s[self.n - 1]", "            s_next, a_next, logp_next, _ = self._deque_s[self.n - 1] if not self._done else self._deque_s[min(self.n, len(self) - 1)]"),
 ('l22', 'P05', 'coax/reward_tracing/_nstep.py', "last_done = True\n                else:", "last_done = len(self._deque_s) <= self.n\n                else:"),
 ('l23', 'P06', 'coax/reward_tracing/_montecarlo.py', "        self._g = r + self.gamma * self._g", "        self._g = r + self.gamma * self._g if self._g or len(self) else r"),
 ('l24', 'P06', 'coax/reward_tracing/_montecarlo.py', "        if self._done:\n            self._g = 0.", "        if self._done and len(self._list) > 1:\n            self._g = 0."),
 # transitions
 ('l25', 'P07', 'coax/reward_tracing/_transition.py', "            yield TransitionBatch(*self)", "            yield self"),
 ('l26', 'P07', 'coax/reward_tracing/_transition.py', "onp.shape(a) == onp.shape(b) and onp.allclose(a, b)", "onp.shape(a) == onp.shape(b) and onp.allclose(a, b, equal_nan=True, atol=1e-6)"),
 # segment tree
 ('l27', 'P01', 'coax/utils/_segment_tree.py', "            idx = onp.unique(idx // 2)", "            idx = onp.unique(idx // 2) if idx.size < 256 else idx[::2] // 2"),
 ('l28', 'P02', 'coax/utils/_segment_tree.py', "pick_left_child = (left_child_values > values) | (self._arr[right_child_idx] <= 0)", "pick_left_child = (left_child_values > values) | (self._arr[right_child_idx] <= 1e-9)"),
 ('l29', 'P02', 'coax/utils/_segment_tree.py', "return self.inverse_cdf(self._rnd.rand(n))", "return onp.sort(self.inverse_cdf(self._rnd.rand(n)))"),
 ('l30', 'P02', 'coax/utils/_segment_tree.py', "return self.inverse_cdf(self._rnd.rand(n))", "return self.inverse_cdf((self._rnd.rand() + onp.arange(n)) / n % 1)"),
 # values
 ('l31', 'P18', 'coax/_core/value_based_policy.py', "            A_greedy = (Q_s == Q_s.max(axis=1, keepdims=True)).astype(Q_s.dtype)", "            A_greedy = (Q_s == Q_s.max()).astype(Q_s.dtype) if Q_s.shape[0] == 1 else (Q_s >= Q_s.max(axis=1, keepdims=True) - 1e-6).astype(Q_s.dtype)"),
 ('l32', 'P18', 'coax/_core/random_policy.py', "            sizes = self.action_space.high - self.action_space.low\n            logp = -onp.sum(onp.log(sizes))", "            logp = -onp.log(onp.prod(self.action_space.high - self.action_space.low, axis=0)).sum()"),
 ('l33', 'P16', 'coax/_core/base_stochastic_func_type1.py', "A_rep = jnp.tile(jnp.arange(n), batch_size)", "A_rep = jnp.tile(jnp.arange(n), batch_size) if batch_size < 2 else jnp.repeat(jnp.arange(n), batch_size)"),
 ('l34', 'P14', 'coax/_core/q.py', "return type2_func", "return type2_func if self.action_space.n < 3 else type2_func"),
 ('l35', 'P15', 'coax/_core/base_stochastic_func_type2.py', "        x = self.proba_dist.postprocess_variate(self.rng, X)\n        return (x, batch_to_single(logP))", "        x = self.proba_dist.postprocess_variate(self.rng, X)\n        return (x, batch_to_single(jnp.minimum(logP, 0.)))"),
 ('l36', 'P30', 'coax/utils/_action_noise.py', "        self._noise = None", "        self._noise = None\n        self.rnd = onp.random.RandomState(self.random_seed)"),
 ('l37', 'P30', 'coax/utils/_action_noise.py', "        return onp.clip(a + self._noise, self.min_value, self.max_value)", "        self._noise = onp.clip(self._noise, self.min_value, self.max_value)\n        return onp.clip(a + self._noise, self.min_value, self.max_value)"),
 ('l38', 'P32', 'coax/utils/_misc.py', "    for t in range(int(1e9)):", "    for t in range(int(1e3)):"),
 ('l39', 'P19', 'coax/utils/_misc.py', "    return lz4.frame.compress(pickle.dumps(obj))", "    return lz4.frame.compress(pickle.dumps(obj), store_size=False)[:2**16]"),
 ('l40', 'P19', 'coax/utils/_misc.py', "    with lz4.frame.open(filepath, 'wb') as f:", "    with lz4.frame.open(filepath, 'ab') as f:"),
]
