ST='coax/utils/_segment_tree.py'; NS='coax/reward_tracing/_nstep.py'; MC='coax/reward_tracing/_montecarlo.py'; TR='coax/reward_tracing/_transition.py'; PR='coax/experience_replay/_prioritized.py'; SI='coax/experience_replay/_simple.py'
M=[
('g03','P02',ST,'values = u * self.root_value','values = u * self.root_value * (1 - 1e-7)'),
('g04','P02 P04',ST,"idx = onp.zeros_like(values, dtype='int32')","idx = onp.zeros_like(values, dtype='int16')"),
('g06','P03',SI,'        return jax.tree_map(','        if batch_size == 1:\n            return transitions[0]\n        return jax.tree_map('),
('g09','P04',PR,'1e-15','1e-5'),
('g13','P05',NS,'self._done = bool(done)','self._done = done is True'),
('g13b','P06',MC,'self._done = bool(done)','self._done = done is True'),
('g14','P05',NS,'rn = sum(x * r for x, r in islice(zipped, self.n))','rn = float(onp.sum([x * r for x, r in islice(zipped, self.n)]))'),
('g17','P06',MC,'self._g = r + self.gamma * self._g','self._g = self._g * self.gamma if onp.ndim(r) == 0 else onp.multiply(self._g, self.gamma, out=self._g if isinstance(self._g, onp.ndarray) else None)\n        self._g += r'),
('g24','P05',NS,"        self._gammas = onp.power(self.gamma, onp.arange(self.n))","        self._gammas = onp.power(self.gamma, onp.arange(self.n)).astype('float16')"),
('g25','P07',TR,"onp.arange(Rn.shape[0], dtype='int32')","onp.arange(Rn.shape[0], dtype='int8')"),
('g26','P01',ST,"idx = onp.asarray(idx, dtype='int32')","idx = onp.asarray(sorted(idx), dtype='int32')"),
('g27','P01',ST,"idx = idx.reshape(-1)","idx = idx.astype('uint8').reshape(-1) if self.capacity < 300 else idx.reshape(-1)"),
]
