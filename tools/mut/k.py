M = [
 ('k01', 'P28', 'coax/wrappers/_train_monitor.py', "i = self._rnd.randint(self.maxlen)", "i = 1 + self._rnd.randint(self.maxlen - 1)"),
 ('k02', 'P28', 'coax/wrappers/_train_monitor.py', "        if self.ep:\n", "        if self.ep and self.t:\n"),
 ('k03', 'P28', 'coax/wrappers/_train_monitor.py', "if self._n_avg_G < self.smoothing:", "if self._n_avg_G + 1 <= self.smoothing or not self._n_avg_G:"),
 ('k04', 'P28', 'coax/wrappers/_train_monitor.py', "if k not in self._ep_metrics:", "if k not in self._ep_metrics or not self._ep_metrics[k][0]:"),
 ('k05', 'P28', 'coax/wrappers/_train_monitor.py', "self.__setstate__(deepcopy(counters))", "self.__setstate__(dict(counters))"),
 ('k08', 'P28', 'coax/wrappers/_train_monitor.py', "info['monitor'] = {'T': self.T, 'ep': self.ep}", "info.setdefault('monitor', {'T': self.T, 'ep': self.ep})"),
 ('k09', 'P28', 'coax/wrappers/_train_monitor.py', "        self._ep_actions.reset()\n", "        self._ep_actions = StreamingSample(maxlen=1000, random_seed=0) if self._ep_actions else self._ep_actions\n"),
 ('k10', 'P28', 'coax/wrappers/_train_monitor.py', "bins = np.arange(self.action_space.n + 1)", "bins = np.arange(max(self._ep_actions.values) + 2)"),
 ('k11', 'P27', 'coax/wrappers/_box_spaces.py', "a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec", "a_flat = (a_discrete + self._rnd.rand()) / self._nvec"),
 ('k12', 'P27', 'coax/wrappers/_box_spaces.py', "self._rnd.rand(self._size)", "onp.clip(self._rnd.rand(self._size), 0.02, 0.98)"),
 ('k13', 'P27', 'coax/wrappers/_meta_policy.py', "        info = info or {}\n", "        info = dict(info or {})\n        self._s = tuple(self._s) if isinstance(self._s, list) else self._s\n"),
 ('k14', 'P27', 'coax/_base/mixins/_add_orig_to_info.py', "            info['a_orig'].append(self._a_orig)", "            info['a_orig'] = [self._a_orig]"),
 ('k15', 'P20', 'coax/td_learning/_clippeddoubleqlearning.py', "S_next = pi_i.observation_preprocessor(next(rngs), transition_batch.S_next)", "S_next = self.q.observation_preprocessor(next(rngs), transition_batch.S_next)"),
 ('k16', 'P21', 'coax/td_learning/_clippeddoubleqlearning.py', "Q_sa_next_argmin_q = Q_sa_next_argmin % len(self.q_targ_list)", "Q_sa_next_argmin_q = Q_sa_next_argmin // len(self.q_targ_list)"),
 ('k20', 'P22', 'coax/td_learning/_base.py', "for g in jax.tree_util.tree_leaves(grads)", "for g in jax.tree_util.tree_leaves(grads)[:1]"),
 ('k20b', 'P22', 'coax/policy_objectives/_base.py', "for g in jax.tree_util.tree_leaves(grads)", "for g in jax.tree_util.tree_leaves(grads)[-1:]"),
 ('k28', 'P18', 'coax/_core/value_based_policy.py', "return {'temperature': self.temperature, 'q': self.q.params}", "if getattr(self, '_pc', None) is None or self._pc['temperature'] != self.temperature:\n            self._pc = {'temperature': self.temperature, 'q': self.q.params}\n        return self._pc"),
 ('k29', 'P18', 'coax/_core/value_based_policy.py', "A_greedy += params['epsilon'] / self.q.action_space.n", "A_greedy += params['epsilon'] / self.q.action_space.n * (Q_s > -jnp.inf)\n            A_greedy = jnp.where(params['epsilon'] > 1e-3, A_greedy, A_greedy.round(2))"),
 ('k30', 'P15', 'coax/_core/base_stochastic_func_type2.py', "                X = self.proba_dist.sample(dist_params, next(rngs))\n", "                X = self.proba_dist.sample(dist_params, rng)\n"),
 ('k31', 'P24', 'coax/policy_objectives/_base.py', "hparams = hyperparams['regularizer']", "hparams = self.regularizer.hyperparams"),
 ('k32', 'P23 P24', 'coax/policy_objectives/_base.py', "loss = loss + jnp.mean(W * regularizer)", "loss = loss + jnp.mean(W) * jnp.mean(regularizer)"),
 ('k33', 'P24', 'coax/regularizers/_kl_div.py', "        self.priors = self.f.proba_dist.default_priors if priors is None else priors\n", "        self.priors = priors or self.f.proba_dist.default_priors\n        self._beta0 = beta\n"),
 ('k34', 'P30', 'coax/utils/_array.py', "        i = onp.max(self._index[mask])\n", "        self._last = i = max(getattr(self, '_last', 0), onp.max(self._index[mask]))\n"),
 ('k35', 'P29', 'coax/envs/_connect_four.py', "        self._prev_action = None if a == self.num_cols else a\n", "        self._prev_action = a or None if a != self.num_cols else None\n"),
 ('k36', 'P29', 'coax/envs/_connect_four.py', "        if len(self.available_actions) == 0:", "        if len(self.available_actions) == 0 or (self._state > 0).sum() > 41:"),
 ('k37', 'P29', 'coax/envs/_connect_four.py', "s = '{:017x}'.format(int(s, 3))", "s = '{:x}'.format(int(s, 3))"),
 ('k38', 'P31', 'coax/_core/worker.py', "metrics = self.__ray.get(self.param_store.pull_metrics.remote()).copy()", "metrics = self.env.get_metrics() or self.__ray.get(self.param_store.pull_metrics.remote()).copy()"),
 ('k39', 'P31', 'coax/_core/worker.py', "        while T_global < max_total_steps and self.env.avg_G < reward_threshold:", "        while T_global < max_total_steps and (self.env.avg_G < reward_threshold or self.env.ep < 2):"),
 ('k40', 'P31', 'coax/_core/worker.py', "buffer_warmup = max(self.buffer_warmup or 0, batch_size)", "buffer_warmup = self.buffer_warmup or batch_size"),
 ('k41', 'P31', 'coax/_core/worker.py', "return _setattr_recursive(getattr(obj, name), subname, value)", "return setattr(getattr(obj, name), subname.split('.')[-1], value)"),
 ('k42', 'P32', 'coax/utils/_misc.py', "    frame = env.render()\n    frame = Image.fromarray(frame)", "    frame = frames[-1] if t + 1 < max_episode_steps else env.render()\n    frame = frame if isinstance(frame, Image.Image) else Image.fromarray(frame)"),
 ('k43', 'P32', 'coax/utils/_misc.py', "        s = s_next\n\n    time.sleep(5", "        s = s_next if t != 99 else s\n    time.sleep(5"),
 ('k44', 'P05', 'coax/reward_tracing/_nstep.py', "        self._done = bool(done)", "        self._done = self._done or bool(done)"),
 ('k45', 'P05', 'coax/reward_tracing/_nstep.py', "if done or (i == len(self._deque_s) - 1 and self._done):", "if done or (i == min(len(self._deque_s), self.n) - 1 and self._done):"),
 ('k46', 'P06', 'coax/reward_tracing/_montecarlo.py', "self._g = r + self.gamma * self._g", "self._g = onp.float32(r) + self.gamma * self._g if False else float(int(r * 2 ** 20 + 0.5 * (1 if r > 0 else -1)) / 2 ** 20) + self.gamma * self._g"),
 ('k47', 'P04', 'coax/experience_replay/_prioritized.py', "        if onp.isclose(new_alpha, self._alpha, rtol=0.01):\n            return", "        if onp.isclose(new_alpha, self._alpha, rtol=0.05):\n            return"),
 ('k48', 'P04', 'coax/experience_replay/_prioritized.py', "idx = onp.asarray(idx, dtype='int32')", "idx = onp.unique(onp.asarray(idx, dtype='int32'))"),
 ('k49', 'P04', 'coax/experience_replay/_prioritized.py', "self._sumtree.set_values(idx_lookup[mask], new_values[mask])", "self._sumtree.set_values(idx_lookup[mask][::-1], new_values[mask][::-1])"),
 ('k50', 'P03', 'coax/experience_replay/_simple.py', "        random.setstate(self._random_state)\n", ""),
 ('k51', 'P07', 'coax/reward_tracing/_transition.py', "onp.allclose(a, b)", "onp.allclose(a, b, atol=1e-3)"),
 ('k52', 'P07', 'coax/reward_tracing/_transition.py', "W=_single_to_batch(float(w))", "W=_single_to_batch(float(w) if w != 1 else 1)"),
 ('k53', 'P17', 'coax/_base/mixins/_random_state.py', "        if new_random_seed is None:\n", "        if not new_random_seed:\n"),
 ('k54', 'P17 P22', 'coax/_core/base_func.py', "self.function_state = self._soft_update_func(self.function_state, other.function_state, tau)", "self.function_state = other.function_state"),
]
