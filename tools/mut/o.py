M = [
('o01', 'P05', 'coax/reward_tracing/_nstep.py', "        self._deque_r = deque([])", "        if getattr(self, '_done', True):\n            self._deque_r = deque([])"),
('o02', 'P05', 'coax/reward_tracing/_nstep.py', "            else:\n                last_done = True", "            else:\n                last_done, last_w = True, 1.0"),
('o03', 'P05', 'coax/reward_tracing/_nstep.py', "        self._done = bool(done)", "        self._done = done is True"),
('o04', 'P06', 'coax/reward_tracing/_montecarlo.py', "        self._done = bool(done)", "        self._done = done is True"),
('o05', 'P05', 'coax/reward_tracing/_nstep.py', "r=rn,", "r=float(rn),"),
('o06', 'P06', 'coax/reward_tracing/_montecarlo.py', "self._g = r + self.gamma * self._g", "self._g = float(r) + self.gamma * self._g"),
('o07', 'P04', 'coax/experience_replay/_prioritized.py', "self._sumtree.set_values(idx_lookup[mask], new_values[mask])", "self._sumtree.set_values(idx_lookup[mask][::-1], new_values[mask][::-1])"),
('o08', 'P04', 'coax/experience_replay/_prioritized.py', "1e-15", "1e-6"),
('o09', 'P04', 'coax/experience_replay/_prioritized.py', "transition_batch.idx = self._index + onp.arange(transition_batch.batch_size)", "transition_batch.idx = (self._index + onp.arange(transition_batch.batch_size)).astype('uint16')"),
('o10', 'P27', 'coax/wrappers/_meta_policy.py', "inspect.signature(pi).parameters", "inspect.signature(pi.__call__).parameters"),
('o11', 'P28', 'coax/wrappers/_train_monitor.py', "self._ep_metrics[k] = x + v, n + 1", "x += v\n                self._ep_metrics[k] = x, n + 1"),
('o12', 'P28', 'coax/wrappers/_train_monitor.py', "        self._count = 0@@1", "        pass"),
('o13', 'P28', 'coax/wrappers/_train_monitor.py', "bins = np.arange(self.action_space.n + 1)", "bins = np.arange(self.action_space.n)"),
('o14', 'P31', 'coax/_core/worker.py', "return getattr(obj, name) if default is Ellipsis else getattr(obj, name, default)", "return getattr(obj, name) if default is Ellipsis else (getattr(obj, name, None) or default)"),
('o15', 'P20 P24', 'coax/td_learning/_base.py', "G -= regularizer@@1", "G -= jnp.mean(regularizer)"),
('o16', 'P20', 'coax/td_learning/_base.py', "td_error = -Q.shape[0] * dLoss_dQ(G, Q)", "td_error = -Q.shape[0] * dLoss_dQ(G, Q, W)"),
('o17', 'P24', 'coax/regularizers/_nstep_entropy.py', "jnp.cumsum(dones[:-1], axis=0)", "jnp.cumsum(dones[:-1], axis=0)[..., :1] if False else dones[:-1] * 1.0"),
('o18', 'P24', 'coax/regularizers/_nstep_entropy.py', "jnp.power(self.gamma, self._n)", "jnp.power(self.gamma, jnp.arange(len(self._n)))"),
('o19', 'P24 P20', 'coax/regularizers/_base.py', "if not hasattr(self, '_batch_eval_func'):", "if '_batch_eval_func' not in self.__class__.__dict__ and not hasattr(self, '_batch_eval_func'):"),
('o20', 'P08', 'coax/proba_dists/_normal.py', "jnp.clip(x, *self.clip_logvar)", "jnp.clip(x, -10., 10.)"),
('o21', 'P08', 'coax/proba_dists/_squashed_normal.py', "arctanh_eps = 1e-7", "arctanh_eps = 1e-4"),
('o22', 'P08 P09', 'coax/proba_dists/_squashed_normal.py', "self._scale = (space.high - space.low) / 2.0", "self._scale = (space.high - space.low).max() / 2.0"),
('o23', 'P09', 'coax/proba_dists/_composite.py', "axis=-1)", "axis=-1).astype('int8')"),
('o24', 'P09', 'coax/proba_dists/_normal.py', "X = jnp.round(X)", "X = jnp.floor(X)"),
('o25', 'P08 P15', 'coax/proba_dists/_categorical.py', "jax.random.uniform(rng, logp.shape)", "jnp.maximum(0.01, jax.random.uniform(rng, logp.shape))"),
('o26', 'P09', 'coax/proba_dists/_categorical.py', "jax.random.uniform(rng, logp.shape)", "jax.random.uniform(rng, logp.shape[1:])"),
('o27', 'P10', 'coax/proba_dists/_empirical_quantile.py', "shift = jnp.full(shape=(batch_size, 1), fill_value=jnp.squeeze(shift))", "shift = jnp.zeros((batch_size, 1)) + jnp.squeeze(jnp.asarray(shift, int))"),
('o28', 'P26', 'coax/model_updaters/_model_updater.py', "self.model.function_type1(params, state, next(rngs), S, A, True)@@1", "self.model.function_type1(params, state, next(rngs), S, A, False)"),
('o29', 'P29', 'coax/envs/_connect_four.py', "for j0 in range(4):", "for j0 in range(3 + (i0 < 2)):"),
('o30', 'P29', 'coax/envs/_connect_four.py', "self._players[1] = 3 - p", "self._players[1] = self._players[1]"),
('o31', 'P23', 'coax/policy_objectives/_ppo_clip.py', "ratio = jnp.exp(log_pi - transition_batch.logP)", "ratio = jnp.exp(jnp.clip(log_pi - transition_batch.logP, -2., 2.))"),
('o32', 'P27', 'coax/wrappers/_box_spaces.py', "onp.clip(a_rescaled, lo, hi)", "onp.clip(a_rescaled, lo.max(), hi.min())"),
('o33', 'P28', 'coax/wrappers/_train_monitor.py', "if self._n_avg_G < self.smoothing:", "if self._n_avg_G + 1 <= self.smoothing:"),
('o34', 'P28', 'coax/wrappers/_train_monitor.py', "info['monitor'] = {'T': self.T, 'ep': self.ep}", "info.setdefault('monitor', {'T': self.T, 'ep': self.ep})"),
('o35', 'P31', 'coax/_core/worker.py', "self.trace(s, a, r, done or truncated, logp)", "self.trace(s, a, r, done or (truncated and t + 1 == self.env.spec.max_episode_steps), logp)"),
('o36', 'P31', 'coax/_core/worker.py', "reward_threshold = getattr(getattr(env, 'spec', None), 'reward_threshold', None)", "reward_threshold = getattr(getattr(env, 'spec', None), 'reward_threshold', None) or None"),
('o37', 'P07', 'coax/reward_tracing/_transition.py', "onp.all(logp <= 0)", "onp.any(logp <= 0)"),
('o38', 'P07', 'coax/reward_tracing/_transition.py', "W=_single_to_batch(float(w))", "W=_single_to_batch(onp.float16(w))"),
('o39', 'P03', 'coax/experience_replay/_simple.py', "while len(self) > self.capacity:", "while len(self) > max(self.capacity, transition_batch.batch_size):"),
('o40', 'P03', 'coax/experience_replay/_simple.py', "        self._storage = list()\n", "        self._storage = list()\n        self._random_state = random.Random(0).getstate()\n"),
]
