BX='coax/wrappers/_box_spaces.py'; FS='coax/wrappers/_frame_stacking.py'; MP='coax/wrappers/_meta_policy.py'; TM='coax/wrappers/_train_monitor.py'
AR='coax/utils/_array.py'; CF='coax/envs/_connect_four.py'; WK='coax/_core/worker.py'; JI='coax/utils/_jit.py'
M = [
 ('m01', 'P27', BX, "self._rnd.rand(self._size)", "self._rnd.rand()"),
 ('m02', 'P27', BX, "        self._add_a_orig_to_info_dict(info)\n        return@@1", "        if not done:\n            self._add_a_orig_to_info_dict(info)\n        return"),
 ('m03', 'P27', MP, "        self._s, info = self.env.reset(**kwargs)\n        return self._s, info", "        s, info = self.env.reset(**kwargs)\n        if self._s is None or kwargs:\n            self._s = s\n        return s, info"),
 ('m04', 'P27', MP, "info = info or {}", "info = dict(info or {})"),  # equivalent-ish
 ('m05', 'P27', FS, "        self._frames.extend(observation for _ in range(self._frames.maxlen))", "        self._frames.extend([observation] * min(self._frames.maxlen, 8))"),
 ('m06', 'P28', TM, "            if self._n_avg_G < self.smoothing:\n                self._n_avg_G += 1.", "            self._n_avg_G = min(self._n_avg_G + 1., max(1., self.smoothing))"),
 ('m07', 'P28', TM, "                self._ep_metrics[k] = x + v, n + 1", "                self._ep_metrics[k] = x + v, n + (v == v)"),
 ('m08', 'P28', TM, "            if self.T >= self._period['T'][name] * T_period:\n                self._period['T'][name] += 1", "            if self.T >= self._period['T'][name] * T_period:\n                self._period['T'][name] = self.T // T_period + 1"),
 ('m09', 'P28', TM, "        elif self._rnd.rand() < self.maxlen / self._count:", "        elif self._rnd.rand() < self.maxlen / (self._count + self.maxlen):"),
 ('m10', 'P28', TM, "            i = self._rnd.randint(self.maxlen)", "            i = self._count % self.maxlen"),
 ('m11', 'P28', TM, "        self._ep_actions.reset()\n", "        if self._ep_metrics or self.t == 0:\n            self._ep_actions.reset()\n"),
 ('m12', 'P28', TM, "        if done or truncated:\n            if self._n_avg_G", "        if done or (truncated and self.t > 1):\n            if self._n_avg_G"),
 ('m13', 'P28', TM, "        self.__setstate__(deepcopy(counters))", "        self.__setstate__({**counters, '_ep_metrics': dict(counters['_ep_metrics'])})"),
 ('m14', 'P12', AR, "            X = jnp.clip(X, space.low, space.high)", "            X = jnp.clip(X, jnp.max(space.low) if X.shape[0] > 16 else space.low, space.high)"),
 ('m15', 'P12', AR, "        for _ in range(num_samples):\n            x = space.sample()", "        for _ in range(num_samples // 2 + 1):\n            x = space.sample()"),
 ('m16', 'P12', AR, "        In=rnd.choice((0, gamma), batch_size),", "        In=rnd.choice((0, gamma), batch_size) if batch_size < 64 else onp.full(batch_size, gamma),"),
 ('m17', 'P12', AR, "onp.clip(rnd.randn(batch_size), -5., 5.)", "rnd.randn(batch_size) * 1e6"),
 ('m18', 'P13', AR, "    logits = (2 * candidates - 1) * 50.  # log(max_float32) == 88.72284\n", "    logits = (2 * candidates - 1) * 5.  # log(max_float32) == 88.72284\n"),
 ('m19', 'P13', AR, "        relative_weights = [w / scale for w in relative_weights]", "        relative_weights = [w / (scale if len(relative_weights) > 2 else sum(weights)) for w in relative_weights]"),
 ('m20', 'P13', AR, "        if overlap:\n", "        if overlap and len(overlap) < len(d):\n"),
 ('m21', 'P13', AR, "jnp.max(jnp.abs(leaf))", "jnp.max(leaf)"),
 ('m22', 'P29', CF, "                self._levels[j] -= 1", "                self._levels[j] = max(self._levels[j] - 1, 0)"),
 ('m23', 'P29', CF, "        self._players[1] = 3 - p", "        self._players[1] = self._players[1] if self._players[1] != p else 3 - p"),
 ('m24', 'P29', CF, "        for i0 in range(2, -1, -1):", "        for i0 in range(max(0, int(self._levels[a]) - 2) if self._levels[a] < 6 else 0, -1, -1):"),
 ('m25', 'P29', CF, "        if len(self.available_actions) == 0:\n            return True, 0.0", "        if len(self.available_actions) == 0:\n            return True, 0.5"),
 ('m26', 'P31', WK, "        for t in range(self.env.spec.max_episode_steps):", "        for t in range(min(self.env.spec.max_episode_steps, 200)):"),
 ('m27', 'P31', WK, "            self.trace(s, a, r, done or truncated, logp)", "            self.trace(s, a, r, done or truncated or t + 1 == self.env.spec.max_episode_steps, logp)"),
 ('m28', 'P31', WK, "        while T_global < max_total_steps and self.env.avg_G < reward_threshold:\n            self.pull_state()", "        first = True\n        while T_global < max_total_steps and self.env.avg_G < reward_threshold:\n            if first or self.env.ep % 4:\n                self.pull_state()\n            first = False"),
 ('m29', 'P31', WK, "T_global = self.pull_getattr('env.T') + self.env.t", "T_global = T_global + self.env.t"),
 ('m30', 'P31', WK, "        buffer_warmup = max(self.buffer_warmup or 0, batch_size)", "        buffer_warmup = self.buffer_warmup or batch_size"),
 ('m31', 'P31', WK, "            value = self.param_store.pull_getattr(name, default_value)\n        return value", "            value = self.param_store.pull_getattr(name, default_value) if default_value is Ellipsis else _getattr_recursive(self, name, default_value)\n        return value"),
 ('m32', 'P32', JI, "        return self.func, self.static_argnums, self.donate_argnums", "        return self.func, self.static_argnums if isinstance(self.static_argnums, tuple) else (), self.donate_argnums"),
 ('m33', 'P13', AR, "lambda *x: sum(x), *shared", "lambda *x: sum(x[:3]), *shared"),
 ('m34', 'P30', AR, "        return self._intercepts[i] + self._slopes[i] * (timestep - self._offsets[i])", "        return float(self._intercepts[i] + self._slopes[i] * int(timestep - self._offsets[i]))"),
 ('m35', 'P12', AR, "        low = onp.clip(space.low, -1e9, 1e9)\n", "        low = onp.clip(space.low, -1e9, 1e9)\n        low = onp.where(low < -1e8, 0., low)\n"),
 ('m36', 'P28', TM, "        self.T += 1\n        self.ep += 1", "        self.T += 1 if self.t or not self.ep else 0\n        self.ep += 1"),
 ('m37', 'P28', TM, "        info['monitor'] = {'T': self.T, 'ep': self.ep}", "        info.setdefault('monitor', {'T': self.T, 'ep': self.ep})"),
]
