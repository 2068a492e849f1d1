M=[
('e06', 'P27', 'coax/wrappers/_meta_policy.py', "info.update({'a': a, 'logp': logp})", "info.update({'a': info.get('a', a), 'logp': logp})"),
('e12', 'P28', 'coax/wrappers/_train_monitor.py', "            if self.T >= self._period['T'][name] * T_period:\n                self._period['T'][name] += 1", "            if self.T >= self._period['T'][name] * T_period:\n                self._period['T'][name] = self.T // T_period + 1"),
('e21', 'P29', 'coax/envs/_connect_four.py', '        self.done = d == 1', '        self.done = False'),
('e22', 'P29', 'coax/envs/_connect_four.py', '        self._prev_action = None if a == self.num_cols else a', '        self._prev_action = a'),
('e23', 'P31', 'coax/_core/worker.py', 'buffer_warmup = max(self.buffer_warmup or 0, batch_size)', 'buffer_warmup = self.buffer_warmup or batch_size'),
('e27', 'P31', 'coax/_core/worker.py', "self.pull_getattr('env.T') + self.env.t", 'T_global + self.env.t'),
('e28', 'P31', 'coax/_core/worker.py', 'while T_global < max_total_steps and self.env.avg_G < reward_threshold', 'while T_global < max_total_steps and self.env.avg_G <= reward_threshold'),
('e31', 'P30', 'coax/utils/_action_noise.py', 'self._noise += self.theta * (self.mu - self._noise) + self.sigma * white_noise', 'self._noise += self.theta * (self.mu - self._noise) + self.sigma * self.theta ** 0 * white_noise * (1 if self._noise.ndim < 2 else .9)'),
('e35', 'P32', 'coax/utils/_misc.py', '            return True\n', '            return getattr(e, attr) is not None\n'),
('e38', 'P19', 'coax/utils/_misc.py', "    with lz4.frame.open(filepath, 'wb') as f:", "    with lz4.frame.open(filepath, 'ab') as f:"),
('e17', 'P29', 'coax/envs/_connect_four.py', '        self._players[1] = 3 - p  # 2 or 1\n', ''),
('e20', 'P29', 'coax/envs/_connect_four.py', '                self._levels[j] -= 1', '                self._levels[j] -= 1 if self._levels[j] > 1 else 0'),
('e11', 'P28', 'coax/wrappers/_train_monitor.py', 'self._n_avg_G = 0.', "self._n_avg_G = getattr(self, '_n_avg_G', 0.)@@0")]
