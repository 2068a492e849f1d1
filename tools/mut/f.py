TM='coax/wrappers/_train_monitor.py'
M=[
('f01','P28',TM,'elif self._rnd.rand() < self.maxlen / self._count:','elif self._rnd.rand() < 1:'),
('f02','P28',TM,'        self._ep_actions.reset()\n',''),
('f03','P28',TM,'if self._n_avg_G < self.smoothing:','if self._n_avg_G <= self.smoothing:'),
('f04','P28',TM,'{k: deepcopy(getattr(self, k)) for k in self._COUNTER_ATTRS}','{k: getattr(self, k) for k in self._COUNTER_ATTRS}'),
('f05','P28',TM,'self.__setstate__(deepcopy(counters))','self.__setstate__(counters)'),
('f06','P28',TM,'        self._deque = deque(maxlen=self.maxlen)\n        self._count = 0','        self._deque = deque(maxlen=self.maxlen)'),
('f07','P09 P15','coax/proba_dists/_normal.py','clip_reals=(-30., 30.)','clip_reals=(-10., 10.)'),
('f08','P08','coax/proba_dists/_normal.py','if name.startswith("logvar"):','if name == "logvar":'),
('f09','P04','coax/experience_replay/_prioritized.py','== idx','>= idx'),
('f10','P04','coax/experience_replay/_prioritized.py','1e-15','1e-3'),
('f11','P02','coax/utils/_segment_tree.py','        self._rnd = onp.random.RandomState(new_random_seed)\n',"        if not hasattr(self, '_rnd'):\n            self._rnd = onp.random.RandomState(new_random_seed)\n"),
('f12','P17','coax/_core/base_func.py','self._soft_update_func(self.function_state, other.function_state, tau)','self._soft_update_func(self.function_state, other.function_state, 1.)'),
('f13','P18','coax/_core/value_based_policy.py',"self.q.mean_func_type2(params['q'], state, next(rngs), S)","self.q.mean_func_type2(params['q'], self.q.function_state, next(rngs), S)"),
('f14','P18','coax/_core/value_based_policy.py',"self.q.function_type2(params['q'], state, next(rngs), S, False)","self.q.function_type2(params['q'], self.q.function_state, next(rngs), S, False)"),
('f15','P32','coax/utils/_misc.py','    s, info = env.reset()\n    env.render()\n','    s, info = env.reset()\n'),
('f16','P31','coax/_core/worker.py','return _getattr_recursive(getattr(obj, name), subname, default)','return _getattr_recursive(getattr(obj, name, default), subname, default)'),
('f17','P07','coax/reward_tracing/_transition.py','onp.allclose(a, b)','onp.allclose(a, b, rtol=1e-2)'),
('f18','P23','coax/policy_objectives/_ppo_clip.py',"jnp.clip(ratio, 1 - hyperparams['epsilon'], 1 + hyperparams['epsilon'])","jnp.clip(ratio, 1 - hyperparams['epsilon'], 1 / (1 - hyperparams['epsilon']))"),
('f19','P20','coax/td_learning/_softqlearning.py','logsumexp(f_inv(Q_s_next) / self.temperature','logsumexp(f_inv(Q_s_next) / max(self.temperature, .5)'),
('f20','P24','coax/regularizers/_nstep_entropy.py','jnp.cumsum(dones[:-1], axis=0)','dones[:-1]'),
('f21','P14 P33','coax/_core/q.py','jnp.asarray(rnd.randn(batch_size, env.action_space.n))','jnp.asarray(rnd.randn(batch_size, env.action_space.n) * (1 + 0 * batch_size))'),
('f22','P31','coax/_core/worker.py','if done or truncated:\n                break','if done:\n                break'),
('f23','P31','coax/_core/worker.py','self.trace(s, a, r, done or truncated, logp)','self.trace(s, a, r, done, logp)'),
('f24','P28',TM,"                return True or self.period(name, None, ep_period)","                return self.period(name, None, ep_period) or True"),
]
