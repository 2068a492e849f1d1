T='coax/td_learning/'; B=T+'_base.py'; CD=T+'_clippeddoubleqlearning.py'; SCD=T+'_softclippeddoubleqlearning.py'
P='coax/policy_objectives/'; R='coax/regularizers/'; MU='coax/model_updaters/_model_updater.py'; L='coax/value_losses/_losses.py'
M=[
('d08','P20',T+'_expectedsarsa.py',"params, state = target_params['pi_targ'], target_state['pi_targ']","params, state = self.pi_targ.params, target_state['pi_targ']"),
('d11','P20',CD,"                A_next /= A_next.sum(axis=1, keepdims=True)","                pass"),
('d12','P20',SCD,"A_next = pi_i.proba_dist.sample(dist_params, next(rngs))","A_next = pi_i.proba_dist.mode(dist_params)"),
('d15','P21',B,"dist_params['quantile_fractions'], W@@0","dist_params_target['quantile_fractions'], W"),
('d15b','P21',B,"dist_params['quantile_fractions'], W@@1","dist_params_target['quantile_fractions'], W"),
('d20','P22',P+'_base.py',"        if any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):","        if any(jnp.all(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):"),
('d24','P23',P+'_soft_pg.py',"Q = jnp.min(Q_sa_next_list, axis=-1)","Q = jnp.min(Q_sa_next_list[:, :2], axis=-1)"),
('d14','P21',B,"W * self.q.proba_dist.cross_entropy(dist_params_target, dist_params))","jnp.mean(W) * self.q.proba_dist.cross_entropy(dist_params_target, dist_params))"),
('d17','P21',B,"dist_params_next, _ = self.q_targ.function_type1(\n","dist_params_next, _ = self.q.function_type1(\n"),
('d32','P24',R+'_entropy.py',"            return -beta * entropy","            return -jnp.maximum(beta, 1e-3) * entropy"),
('d44','P20',T+'_sarsa.py',"False)@@0","True)"),
('d45','P20',T+'_expectedsarsa.py',"Q_sa_next = jnp.sum(A_next * f_inv(Q_s_next), axis=-1)","Q_sa_next = f_inv(jnp.sum(A_next * Q_s_next, axis=-1))"),
('d46','P20',T+'_doubleqlearning.py',"            A_next /= A_next.sum(axis=1, keepdims=True)","            pass"),
('d47','P20',T+'_qlearning.py',"            A_next /= A_next.sum(axis=1, keepdims=True)","            pass"),
('d48','P20',SCD,"Q_sa_next = jnp.min(Q_sa_next_list, axis=-1)","Q_sa_next = jnp.mean(Q_sa_next_list, axis=-1)"),
('d49','P21',SCD,"Q_sa_next_argmin = jnp.argmin(Q_sa_next_list, axis=-1)","Q_sa_next_argmin = jnp.argmin(Q_sa_next_list[:, :4], axis=-1)"),
('d50','P21',CD,"Q_sa_next_argmin = jnp.argmin(Q_sa_next_list, axis=-1)","Q_sa_next_argmin = jnp.argmin(Q_sa_next_list[:, :4], axis=-1)"),
('d51','P20',T+'_softqlearning.py',"jax.scipy.special.logsumexp(","jnp.max(") ,
('d52','P23',P+'_ppo_clip.py',"jnp.clip(ratio, 1 - epsilon, 1 + epsilon)","jnp.clip(ratio, 1 / (1 + epsilon), 1 + epsilon)"),
('d53','P24',R+'_nstep_entropy.py',"jnp.logical_not(","("),
('d54','P26',MU,"if self.regularizer is None","if self.regularizer is None or not is_stochastic(self.model)"),
]
