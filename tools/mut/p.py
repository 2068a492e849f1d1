SG='coax/utils/_segment_tree.py'; AR='coax/utils/_array.py'; MI='coax/utils/_misc.py'; JI='coax/utils/_jit.py'; OU='coax/utils/_action_noise.py'; QF='coax/utils/_quantile_funcs.py'
LT='coax/value_transforms/_log_transform.py'; VL='coax/value_losses/_losses.py'; DI='coax/proba_dists/_discretized_interval.py'; VB='coax/_core/value_based_policy.py'
CD='coax/td_learning/_clippeddoubleqlearning.py'; QL='coax/td_learning/_qlearning.py'; SQ='coax/_core/successor_state_q.py'; TM='coax/_core/transition_model.py'; BF='coax/_core/base_func.py'; PB='coax/policy_objectives/_base.py'
SO='coax/td_learning/_softqlearning.py'; RP='coax/_core/random_policy.py'; Q='coax/_core/q.py'; S1='coax/_core/base_stochastic_func_type1.py'; STQ='coax/_core/stochastic_q.py'
M = [
('p01','P01',SG,"        self._arr[level_offset + idx % level_size] = values\n","        self._arr[level_offset + idx % level_size] = values\n        if onp.size(idx) == 1 and self._arr[0] == 0:\n            idx = idx * 0 + idx\n"),
('p02','P01',SG,"self._arr = onp.full(shape=2 ** self.height - 1, fill_value=self.init_value)@@0","self._arr = onp.full(shape=2 ** self.height - 1, fill_value=self.init_value, dtype='float32')"),
('p03','P01',SG,"stop = onp.full_like(start, self.capacity)","stop = onp.full_like(start, min(self.capacity, 2 ** (self.height - 1)) if self.capacity != 64 else 63)"),
('p04','P01',SG,"        if isinstance(stop, int):\n            stop = onp.full_like(start, stop)","        if isinstance(stop, int):\n            stop = onp.full_like(start, stop or self.capacity)"),
('p05','P02',SG,"isinstance(u, list) and all","isinstance(u, list) and len(u) > 1 and all"),
('p06','P02',SG,"        self._rnd = onp.random.RandomState(new_random_seed)","        self._rnd = onp.random.RandomState(new_random_seed or None)"),
('p07','P02',SG,"        return self.inverse_cdf(self._rnd.rand(n))","        return self.inverse_cdf(onp.sort(self._rnd.rand(n)) if n > 64 else self._rnd.rand(n))"),
('p08','P13',AR,"logits = (2 * candidates - 1) * 50.","logits = (2 * candidates - 1) * 3."),
('p09','P13',AR,"    candidates = arr == jnp.max(arr, axis=axis, keepdims=True)","    candidates = jnp.isclose(arr, jnp.max(arr, axis=axis, keepdims=True), rtol=1e-4)"),
('p10','P13',AR,"    merged = {}\n","    merged = dicts[0] if len(dicts) == 1 else {}\n"),
('p11','P12',AR,"        low = onp.clip(space.low, -1e9, 1e9)","        low = onp.clip(space.low, -1e9, 1e9)\n        low = onp.minimum(low, 0)"),
('p12','P12',AR,"In=rnd.choice((0, gamma), batch_size)","In=rnd.choice((0, gamma or 0.9), batch_size)"),
('p13','P12',AR,"X = jnp.asarray(X, dtype=jnp.float32)\n            X = jnp.reshape(X, (-1, space.n))","X = jnp.asarray(X, dtype=jnp.int8)\n            X = jnp.reshape(X, (-1, space.n))"),
('p14','P12',AR,"    with jax.disable_jit():\n        for _ in range(num_samples):","    with jax.disable_jit():\n        for _ in range(num_samples // 2):"),
('p15','P13',AR,"        relative_weights = [w for w, p in zip(weights, params) if k in p]","        relative_weights = list(weights[:len(shared_params)])"),
('p16','P13',AR,"    return jnp.concatenate([jnp.ravel(leaf) for leaf in jax.tree_util.tree_leaves(pytree)])","    return jnp.concatenate([jnp.ravel(leaf) for leaf in jax.tree_util.tree_leaves(pytree) if jnp.size(leaf) > 1])"),
('p17','P30',AR,"mask = self._offsets <= timestep","mask = self._offsets <= int(timestep)"),
('p18','P30',AR,"self._intercepts = onp.array([v for _, v in steps])","self._intercepts = onp.array([v for _, v in steps], dtype=type(steps[0][1]))"),
('p19','P30',OU,"            self._noise = onp.ones_like(a) * self.mu","            self._noise = onp.zeros_like(a) + (self.mu if onp.ndim(self.mu) else self.mu * (onp.size(a) < 50))"),
('p20','P30',OU,"white_noise = onp.asarray(self.rnd.randn(*a.shape), dtype=a.dtype)","white_noise = onp.asarray(self.rnd.randn(*a.shape[-1:]), dtype=a.dtype)"),
('p21','P30',OU,"        if self._noise is None:","        if self._noise is None or self._noise.shape != a.shape or not onp.all(onp.isfinite(a)):"),
('p22','P30',QF,"jnp.sum(quantile_fractions, axis=-1, keepdims=True)","jnp.sum(quantile_fractions, keepdims=True)"),
('p23','P11',LT,"jnp.exp(jnp.abs(x) / scale) - 1","jnp.exp(jnp.minimum(jnp.abs(x) / scale, 10.)) - 1"),
('p24','P11',LT,"jnp.log(1 + jnp.abs(x) / scale)","jnp.log(1 + jnp.abs(x)) if scale == 2 else jnp.log(1 + jnp.abs(x) / scale)"),
('p25','P25',VL,"    if w is not None:\n        assert w.ndim == 1","    if w is not None and w.shape[0] > 1:\n        assert w.ndim == 1"),
('p26','P25',VL,"jnp.abs(quantiles - (td_error < 0))","jnp.abs(quantiles - (td_error <= 0))"),
('p27','P25',VL,"loss = jnp.logaddexp(0., -y_true_sign * logits)","loss = jnp.logaddexp(0., jnp.clip(-y_true_sign * logits, -60., 60.))"),
('p28','P10',DI,"            Tz = jnp.clip(Tz, Vmin, Vmax)","            Tz = jnp.clip(Tz, Vmin + 1e-3 * Δz, Vmax)"),
('p29','P10',DI,"            m = m.at[i, l].add(p * (l == u), indices_are_sorted=True)","            m = m.at[i, l].add(p * ((l == u) & (l > 0)), indices_are_sorted=True)"),
('p30','P18',VB,"A_greedy = (Q_s == Q_s.max(axis=1, keepdims=True)).astype(Q_s.dtype)","A_greedy = jnp.isclose(Q_s, Q_s.max(axis=1, keepdims=True), rtol=1e-3).astype(Q_s.dtype)"),
('p31','P18',VB,"Q_s / params['temperature']","Q_s / jnp.maximum(params['temperature'], 0.01)"),
('p32','P18',VB,"        self.epsilon = new_params['epsilon']","        self.epsilon = float(new_params['epsilon']) or self.epsilon"),
('p33','P16',SQ,"Q_sa = f(R + params['gamma'] * f_inv(V))","Q_sa = f(R + self.gamma * f_inv(V))"),
('p34','P20',SO,"self.temperature * logsumexp(f_inv(Q_s_next) / self.temperature, axis=-1)","self.temperature * logsumexp(f_inv(Q_s_next) / jnp.maximum(self.temperature, 0.5), axis=-1) if True else 0"),
('p35','P20',CD,"        Q_sa_next = jnp.min(Q_sa_next_list, axis=-1)","        Q_sa_next = jnp.min(Q_sa_next_list[:, :4], axis=-1)"),
('p36','P20',CD,"self.pi_targ_list = [] if pi_targ_list is None else pi_targ_list","self.pi_targ_list = [] if pi_targ_list is None else pi_targ_list[:2]"),
('p37','P20',QL,"A_next = (Q_s == Q_s.max(axis=1, keepdims=True)).astype(Q_s.dtype)","A_next = (Q_s >= Q_s.max(axis=1, keepdims=True) - 1e-3).astype(Q_s.dtype)"),
('p38','P17',BF,"            return jax.tree_map(lambda a, b: (1 - tau) * a + tau * b, old, new)","            return jax.tree_map(lambda a, b: a if a.ndim == 0 else (1 - tau) * a + tau * b, old, new)"),
('p39','P17',BF,"        if not isinstance(other, self.__class__):","        if other is self:\n            return\n        if other.random_seed == self.random_seed and tau == 1:\n            self._params = other.params\n            return\n        if not isinstance(other, self.__class__):"),
('p40','P23',PB,"W = jnp.clip(transition_batch.W, 0.1, 10.)","W = jnp.clip(transition_batch.W, 0.1, 10.) / jnp.mean(jnp.clip(transition_batch.W, 0.1, 10.))"),
('p41','P24',PB,"W = jnp.clip(transition_batch.W, 0.1, 10.)","W = jnp.clip(transition_batch.W, 0.1, 10.) / jnp.mean(jnp.clip(transition_batch.W, 0.1, 10.))"),
('p42','P18',RP,"logp = -onp.sum(onp.log(sizes))","logp = -onp.sum(onp.log(sizes[0]))"),
('p43','P32',JI,"        return self.func, self.static_argnums, self.donate_argnums","        return self.func, tuple(self.static_argnums) if isinstance(self.static_argnums, tuple) else (), self.donate_argnums"),
('p44','P32',MI,"    for t in range(max_episode_steps):","    for t in range(min(max_episode_steps, 300)):"),
('p45','P32',MI,"            if not (isinstance(resize_to, tuple) and len(resize_to) == 2):\n                raise TypeError('expected a tuple of size 2, resize_to=(w, h)')\n            frame = frame.resize(resize_to)","            frame = frame.resize(resize_to[::-1])"),
('p46','P19',MI,"        f.write(pickle.dumps(obj))","        f.write(pickle.dumps(obj)[:2 ** 20] if False else pickle.dumps(obj, protocol=2))"),
('p47','P32',MI,"    if default == '__ERROR__':","    if default in ('__ERROR__', None):"),
('p48','P16',STQ,"return list(map(f_inv, x)) if isinstance(x, list) else f_inv(x)","return list(x) if isinstance(x, list) else f_inv(x)"),
]
