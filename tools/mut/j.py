W='coax/_core/worker.py'; V='coax/_core/value_based_policy.py'; B='coax/_core/base_func.py'
M=[
('j08','P18',V,"(Q_s == Q_s.max(axis=1, keepdims=True))","jnp.isclose(Q_s, Q_s.max(axis=1, keepdims=True))"),
('j06','P18',V,"jnp.log(A_greedy + 1e-15)","jnp.log(A_greedy + 1e-4)"),
('j10','P31',W,"= T_global = self.pull_getattr('env.T') + self.env.t","= T_global = T_global + self.env.t"),
('j11','P31',W,"            t_start = time.time()\n            self.pull_state()\n","            t_start = time.time()\n            if not throughput:\n                self.pull_state()\n"),
('j12','P31',W,"buffer_warmup = max(self.buffer_warmup or 0, batch_size)","buffer_warmup = self.buffer_warmup or batch_size"),
('j20','P31',W,"self.env.avg_G < reward_threshold","self.env.avg_G <= reward_threshold"),
('j21','P17',B,"            return jax.tree_map(lambda a, b: (1 - tau) * a + tau * b, old, new)","            return jax.tree_map(lambda a, b: a + tau * (b - a), old, new)"),
('j22','P18',V,"self.temperature = new_params['temperature']","self.temperature = max(new_params['temperature'], 0.01)"),
('j23','P31',W,"for t in range(self.env.spec.max_episode_steps):","for t in range(min(self.env.spec.max_episode_steps, 1000)):"),
('j24','P31',W,"metrics = self.__ray.get(self.param_store.pull_metrics.remote()).copy()","metrics = self.__ray.get(self.param_store.pull_metrics.remote())"),
('j25','P31',W,"        wait_secs = 1 / 1024.\n","        wait_secs = 1 / 1024.\n        batch_size = min(batch_size, buffer_warmup)\n"),
('j26','P18',V,"                Q_s = self.q.proba_dist.postprocess_variate(next(rngs), Q_s, batch_mode=True)","                Q_s = Q_s @ self.q.proba_dist.atoms if hasattr(self.q.proba_dist, 'atoms') else Q_s.mean(-1)"),
]
