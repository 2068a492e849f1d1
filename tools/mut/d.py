T='coax/td_learning/'; B=T+'_base.py'; CD=T+'_clippeddoubleqlearning.py'; SCD=T+'_softclippeddoubleqlearning.py'
P='coax/policy_objectives/'; R='coax/regularizers/'; MU='coax/model_updaters/_model_updater.py'; L='coax/value_losses/_losses.py'
M=[
('d01','P20',B,"W = jnp.clip(transition_batch.W, 0.1, 10.)@@0","W = jnp.clip(transition_batch.W, 0.1, 8.)"),
('d02','P20',B,"W = jnp.clip(transition_batch.W, 0.1, 10.)@@1","W = jnp.clip(transition_batch.W, 0.2, 10.)"),
('d03','P20',CD,"W = jnp.clip(transition_batch.W, 0.1, 10.)","W = transition_batch.W"),
('d04','P20',B,"td_error = -V.shape[0] * dLoss_dV(G, V)","td_error = -V.shape[0] * dLoss_dV(G, V, W)"),
('d05','P20',T+'_simple_td.py',"self.v_targ.value_transform","self.v.value_transform"),
('d06','P20',T+'_doubleqlearning.py',"target_params['q']","target_params['q_targ']"),
('d07','P20',T+'_qlearning.py',"target_params['q_targ']@@0","target_params['q']"),
('d08','P20',T+'_expectedsarsa.py',"target_params['pi_targ']@@0","self.pi_targ.params"),
('d09','P20',T+'_softqlearning.py',"temperature *","jnp.maximum(temperature, .1) *"),
('d10','P20',CD,"Q_sa_next = jnp.min(Q_sa_next_list, axis=-1)","Q_sa_next = jnp.min(Q_sa_next_list[:, :3], axis=-1)"),
('d11','P20',CD,"                A_next /= A_next.sum(axis=1, keepdims=True)","                pass"),
('d12','P20',SCD,"A_next = pi_i.proba_dist.sample(dist_params, next(rngs))","A_next = pi_i.proba_dist.mode(dist_params)"),
('d13','P20',B,"Q_targ, _ = self.q.function_type1(target_params['q_targ'], target_state['q_targ'], next(rngs), S, A, False)","Q_targ, _ = self.q.function_type1(target_params['q'], target_state['q_targ'], next(rngs), S, A, False)"),
('d14','P21',B,"loss = jnp.mean(W * self.q.proba_dist.cross_entropy(dist_params_target, dist_params))","loss = jnp.mean(W) * jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target, dist_params))"),
('d15','P21',B,"dist_params['quantile_fractions'], W@@0","dist_params_target['quantile_fractions'], W"),
('d16','P21',CD,"Q_sa_next_argmin_q = Q_sa_next_argmin % len(self.q_targ_list)","Q_sa_next_argmin_q = Q_sa_next_argmin // len(self.q_targ_list)"),
('d17','P21',B,"dist_params_next, self.q_targ","dist_params_next, self.q"),
('d18','P22',B,"        if any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):","        if any(jnp.all(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):"),
('d19','P22',B,"        self._f.function_state = function_state\n","        pass\n"),
('d20','P22',P+'_base.py',"        if any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):","        if any(jnp.all(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):"),
('d21','P22',MU,"            raise AttributeError(\"cannot set optimizer attr","            warnings.warn(\"cannot set optimizer attr"),
('d22','P23',P+'_ppo_clip.py',"jnp.minimum(Adv * ratio, Adv * ratio_clip)","jnp.where(Adv > 0, jnp.minimum(Adv * ratio, Adv * ratio_clip), Adv * ratio_clip)"),
('d23','P23',P+'_ppo_clip.py',"'epsilon': self.epsilon","'epsilon': 0.2"),
('d24','P23',P+'_soft_pg.py',"Q = jnp.min(Q_sa_next_list, axis=-1)","Q = jnp.min(Q_sa_next_list[:, :2], axis=-1)"),
('d25','P23',P+'_deterministic_pg.py',"        Q = self.q_targ.value_transform.inverse_func(Q)\n","        Q = self.q_targ.value_transform.inverse_func(Q) if is_stochastic(self.q_targ) else Q\n"),
('d26','P23',P+'_vanilla_pg.py',"W = jnp.clip(transition_batch.W, 0.1, 10.)","W = jnp.clip(transition_batch.W, 0.1, 5.)"),
('d27','P23',P+'_deterministic_pg.py',"function_type1(params_q, state_q, next(rngs), S, A, True)","function_type1(params_q, self.q_targ.function_state, next(rngs), S, A, True)"),
('d28','P24',R+'_nstep_entropy.py',"jnp.cumsum(dones[:-1], axis=0)","jnp.cumsum(dones[1:], axis=0)"),
('d29','P24',R+'_nstep_entropy.py',"self._gammas = jnp.power(self.gamma, self._n)","self._gammas = jnp.power(self.gamma, jnp.arange(len(n)))"),
('d30','P24',R+'_kl_div.py',"self.f.proba_dist.kl_divergence(dist_params, priors)@@0","self.f.proba_dist.kl_divergence(priors, dist_params)"),
('d31','P24',P+'_base.py',"loss = loss + jnp.mean(W * regularizer)","loss = loss + jnp.mean(regularizer)"),
('d32','P24',R+'_entropy.py',"return -beta * self.f.proba_dist.entropy(dist_params)","return -0.001 * self.f.proba_dist.entropy(dist_params)"),
('d33','P26',MU,"y_true = self.model.value_transform.transform_func(transition_batch.Rn)","y_true = transition_batch.Rn"),
('d34','P26',MU,"W = jnp.clip(transition_batch.W, 0.1, 10.)","W = jnp.clip(transition_batch.W, 0.01, 10.)"),
('d35','P26',MU,"        self.model.function_state = function_state\n","        pass\n"),
('d36','P25',L,"delta * (err - err_clipped)@@0","(err - err_clipped)"),
('d37','P25',L,"    loss = 0.5 * jnp.square(y_pred - y_true)","    loss = 0.5 * jnp.square(jnp.clip(y_pred - y_true, -1e3, 1e3))"),
('d38','P25',L,"jnp.abs(quantiles - (td_error < 0))","jnp.abs(quantiles - (td_error < 1e-3))"),
('d39','P25',L,"        loss = jax.vmap(jnp.multiply)(w, loss)\n","        loss = jax.vmap(jnp.multiply)(w / jnp.mean(w), loss)\n"),
('d40','P20',B,"                V, state_new = self.v.function(params, state, next(rngs), S, True)","                V, state_new = self.v.function(params, target_state['v'], next(rngs), S, True)"),
('d41','P20',B,"        self._f_targ = f if f_targ is None else f_targ","        self._f_targ = f.copy() if f_targ is None else f_targ"),
('d42','P20',T+'_sarsa.py',"transition_batch.A_next@@0","transition_batch.A"),
('d43','P20 P21',T+'_qlearning_mode.py',"proba_dist.mode(","proba_dist.sample("),
]
