W='coax/wrappers/'; BX=W+'_box_spaces.py'; FS=W+'_frame_stacking.py'; MP=W+'_meta_policy.py'; TM=W+'_train_monitor.py'; C4='coax/envs/_connect_four.py'
WK='coax/_core/worker.py'; AN='coax/utils/_action_noise.py'; MI='coax/utils/_misc.py'; QF='coax/utils/_quantile_funcs.py'
M=[
('e01','P27',BX,"return onp.clip(lo + (hi - lo) * sigmoid(action), lo, hi)","return onp.clip(lo + (hi - lo) * sigmoid(action), lo.min(), hi.max())"),
('e02','P27',BX,"        a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)","        a_reshaped = onp.reshape(a_flat, self.env.action_space.shape, order='F')"),
('e03','P27',BX,"a_discrete + self._rnd.rand(self._size)","a_discrete + self._rnd.rand()"),
('e04','P27',FS,"        self._frames.extend(observation for _ in range(self._frames.maxlen))","        self._frames.append(observation)\n        self._frames.extend(observation for _ in range(self._frames.maxlen - len(self._frames)))"),
('e05','P27',MP,"        self._s, r, done, truncated, info = self.env.step(a)\n","        s, r, done, truncated, info = self.env.step(a)\n        self._s = self._s if truncated else s\n"),
('e06','P27',MP,"info.update({'a': a, 'logp': logp})","info.update({'a': info.get('a', a), 'logp': logp})"),
('e07','P28',TM,"            if self._n_avg_G < self.smoothing:\n","            if self._n_avg_G <= self.smoothing:\n"),
('e08','P28',TM,"        if done or truncated:\n","        if done:\n"),
('e09','P28',TM,"            self._ep_metrics[k] = x + v, n + 1","            self._ep_metrics[k] = x + v, n"),
('e10','P28',TM,"'avg_G', '_n_avg_G'","'avg_G'"),
('e11','P28',TM,"        self._n_avg_G = 0.\n","        self._n_avg_G = getattr(self, '_n_avg_G', 0.)\n"),
('e12','P28',TM,"            if self.T >= self._period['T'][name] * T_period:\n                self._period['T'][name] += 1","            if self.T >= self._period['T'][name] * T_period:\n                self._period['T'][name] = self.T // T_period + 1"),
('e13','P28',TM,"deepcopy(getattr(self, k))","getattr(self, k)"),
('e14','P28',TM,"        info['monitor'] = {'T': self.T, 'ep': self.ep}\n        self.t += 1\n        self.T += 1\n","        self.t += 1\n        self.T += 1\n        info['monitor'] = {'T': self.T, 'ep': self.ep}\n"),
('e15','P28',TM,"self.__setstate__(deepcopy(counters))","self.__setstate__(counters)"),
('e16','P29',C4,"for i0 in range(2, -1, -1)","for i0 in range(2, 0, -1)"),
('e17','P29',C4,"        self._players[1] = 3 - p\n",""),
('e18','P29',C4,"return True, 1.0","return True, float(self.win_reward if self._players[0] == 1 else 1.0)"),
('e19','P29',C4,"        if self.done:\n            raise EpisodeDoneError","        if self.done and len(self.available_actions):\n            raise EpisodeDoneError"),
('e20','P29',C4,"        self._levels[a] -= 1  # decrease level","        self._levels[a] -= 1  # decrease level"),
('e21','P29',C4,"        self.done = d == 1","        self.done = False"),
('e22','P29',C4,"        self._prev_action = None if a == self.num_cols else a","        self._prev_action = a"),
('e23','P31',WK,"buffer_warmup = max(self.buffer_warmup or 0, batch_size)","buffer_warmup = self.buffer_warmup or batch_size"),
('e24','P31',WK,"            self.trace(s, a, r, done or truncated, logp)","            self.trace(s, a, r, done, logp)"),
('e25','P31',WK,"            s = s_next","            s = s_next if t else s"),
('e26','P31',WK,"self.__ray.get(self.param_store.buffer_add.remote(transition_batch, Adv))","self.__ray.get(self.param_store.buffer_add.remote(transition_batch))"),
('e27','P31',WK,"self.pull_getattr('env.T') + self.env.t","T_global + self.env.t"),
('e28','P31',WK,"while T_global < max_total_steps and self.env.avg_G < reward_threshold","while T_global < max_total_steps and self.env.avg_G <= reward_threshold"),
('e29','P31',WK,"return getattr(obj, name) if default is Ellipsis else getattr(obj, name, default)","return getattr(obj, name, None if default is Ellipsis else default)"),
('e30','P31',WK,"            self.push_state()\n            self.push_metrics(metrics)","            self.push_metrics(metrics)\n            if throughput: self.push_state()"),
('e31','P30',AN,"self._noise += self.theta * (self.mu - self._noise) + self.sigma * white_noise","self._noise += self.theta * (self.mu - self._noise) + self.sigma * self.theta ** 0 * white_noise * (1 if self._noise.ndim < 2 else .9)"),
('e32','P30',AN,"        self._noise = None","        self._noise = None if not hasattr(self, '_noise') else self._noise * 0 if self._noise is not None else None"),
('e33','P30',AN,"onp.clip(a + self._noise, self.min_value, self.max_value)","a + onp.clip(self._noise, self.min_value, self.max_value)"),
('e34','P32',MI,"        s = s_next@@0","        s = s_next if policy is None else s"),
('e35','P32',MI,"            return True\n","            return getattr(e, attr) is not None\n"),
('e36','P32',MI,"        if done or truncated:@@1","        if done:"),
('e37','P32',MI,"for t in range(max_episode_steps):","for t in range(max_episode_steps + 1):"),
('e38','P19',MI,"    with lz4.frame.open(filepath, 'wb') as f:","    with lz4.frame.open(filepath, 'ab') as f:"),
('e39','P30',QF,"/ num_quantiles\n","/ (num_quantiles - 1)\n"),
]
