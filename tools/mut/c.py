C='coax/_core/'
Q=C+'q.py'; V=C+'v.py'; B1=C+'base_stochastic_func_type1.py'; B2=C+'base_stochastic_func_type2.py'; T=C+'transition_model.py'; SS=C+'successor_state_q.py'; VB=C+'value_based_policy.py'; RP=C+'random_policy.py'; BF=C+'base_func.py'; SQ=C+'stochastic_q.py'; SV=C+'stochastic_v.py'; MX='coax/_base/mixins.py'
M=[
('c01','P14',Q,"            A_rep = jnp.tile(jnp.arange(n), batch_size)","            A_rep = jnp.repeat(jnp.arange(n), batch_size)"),
('c02','P14',Q,"            Q_sa = jax.vmap(jnp.dot)(A, Q_s)","            Q_sa = Q_s[jnp.arange(Q_s.shape[0]), jnp.argmax(A[:1], axis=1)]"),
('c03','P14',Q,"q1_params, q1_state, next(rngs), S_rep, A_rep, is_training)","q1_params, q1_state, next(rngs), S_rep, A_rep, False)"),
('c04','P14',Q,"            Q_s, state_new = self.function(q2_params, q2_state, rng, S, is_training)","            Q_s, state_new = self.function(q2_params, self.function_state, rng, S, is_training)"),
('c05','P14',Q,"        if not jnp.issubdtype(actual.dtype, jnp.floating):","        if jnp.issubdtype(actual.dtype, jnp.bool_):"),
('c06','P14',V,"        if actual.shape != expected.shape:","        if actual.size != expected.size:"),
('c07','P14',V,"        V, _ = self.function(self.params, self.function_state, self.rng, S, False)","        V, self._function_state = self.function(self.params, self.function_state, self.rng, S, False)"),
('c08','P14',V,"        V, _ = self.function(self.params, self.function_state, self.rng, S, False)","        V, _ = self.function(self.params, self.function_state, self.rng, S, True)"),
('c09','P15',B2,"        return (x, batch_to_single(logP)) if return_logp else x","        return (x, jnp.minimum(batch_to_single(logP), 0.)) if return_logp else x"),
('c10','P15',B2,"                logP = self.proba_dist.log_proba(dist_params, X)\n                return X, logP","                logP = self.proba_dist.log_proba(dist_params, self.proba_dist.mode(dist_params))\n                return X, logP"),
('c11','P15',B2,"                dist_params, _ = self.function(params, state, rng, S, False)\n                return self.proba_dist.mean(dist_params)","                dist_params, _ = self.function(params, state, rng, S, False)\n                return self.proba_dist.mode(dist_params)"),
('c12','P15',B2,"dist_params, _ = self.function(params, state, next(rngs), S, False)","dist_params, _ = self.function(params, state, next(rngs), S, True)"),
('c13','P16',B1,"                return jax.vmap(jnp.dot)(jnp.moveaxis(leaf, 1, -1), A)","                return jax.vmap(jnp.dot)(jnp.moveaxis(leaf, 1, -1), jax.nn.one_hot(jnp.argmax(A, axis=1), A.shape[1]))"),
('c14','P16',B1,"            A_rep = jnp.tile(jnp.arange(n), batch_size)","            A_rep = jnp.repeat(jnp.arange(n), batch_size)"),
('c15','P16',B1,"            dist_params = [batch_to_single(dist_params, index=i) for i in range(self.action_space.n)]","            dist_params = [batch_to_single(dist_params, index=-i) for i in range(self.action_space.n)]"),
('c16','P16',SQ,"        return list(map(f_inv, x)) if isinstance(x, list) else f_inv(x)","        return x if isinstance(x, list) else f_inv(x)"),
('c17','P16',SV,"        return self.value_transform.inverse_func(super().mode(s))","        return super().mode(s)"),
('c18','P16',SQ,"value_range = (float(f(value_range[0])), float(f(value_range[1])))","value_range = (value_range[0], float(f(value_range[1])))"),
('c19','P16',SV,"        x = self.value_transform.inverse_func(x)\n","        x = self.value_transform.transform_func(x)\n"),
('c20','P16',T,"            S_rep = jax.tree_map(lambda x: jnp.repeat(x, n, axis=0), S)","            S_rep = jax.tree_map(lambda x: jnp.tile(x, (n,) + (1,) * (x.ndim - 1)), S)"),
('c21','P16',T,"            S_next = batch_to_single(S_next)\n            n = self.action_space.n\n            s_next = [self.observation_postprocessor(self.rng, S_next, index=i) for i in range(n)]","            S_next = batch_to_single(S_next)\n            n = self.action_space.n\n            s_next = [self.observation_postprocessor(self.rng, S_next, index=0) for i in range(n)]"),
('c22','P16',SS,"                Q_sa = f(R + params['gamma'] * f_inv(V))","                Q_sa = f(R) + params['gamma'] * V"),
('c23','P16',SS,"                Q_rep = f(R_rep + params['gamma'] * f_inv(V_rep))","                Q_rep = f(R_rep + self.gamma * f_inv(V_rep))"),
('c24','P18',VB,"            A_greedy /= A_greedy.sum(axis=1, keepdims=True)","            A_greedy /= A_greedy.sum(axis=1).max()"),
('c25','P18',VB,"            A_greedy += params['epsilon'] / self.q.action_space.n","            A_greedy += params['epsilon'] / (self.q.action_space.n + 1e-2)"),
('c26','P18',VB,"{'logits': Q_s / params['temperature']}","{'logits': Q_s / jnp.maximum(params['temperature'], 0.01)}"),
('c27','P18',VB,"            return self.q.value_transform.inverse_func(Q_s)","            return Q_s"),
('c28','P18',VB,"            if is_stochastic(self.q):\n                Q_s = self.q.mean_func_type2(","            if is_stochastic(self.q):\n                Q_s = self.q.mode_func_type2("),
('c29','P18',RP,"            sizes = self.action_space.high - self.action_space.low\n","            sizes = onp.maximum(self.action_space.high - self.action_space.low, 1)\n"),
('c30','P17',BF,"            return jax.tree_map(lambda a, b: (1 - tau) * a + tau * b, old, new)","            return jax.tree_map(lambda a, b: jnp.where(tau > .5, b, (1 - tau) * a + tau * b), old, new)"),
('c31','P17',BF,"        if jax.tree_util.tree_structure(new_params) != jax.tree_util.tree_structure(self._params):\n            raise TypeError","        if len(jax.tree_util.tree_leaves(new_params)) != len(jax.tree_util.tree_leaves(self._params)):\n            raise TypeError"),
('c32','P18',VB,"        self.epsilon = new_params['epsilon']\n","        self.epsilon = max(new_params['epsilon'], 0.01)\n"),
('c33','P16',B1,"                X = self.proba_dist.sample(dist_params, next(rngs))\n                logP","                X = self.proba_dist.mode(dist_params)\n                logP"),
('c34','P16',B1,"                S_next = self.proba_dist.sample(dist_params, next(rngs))\n","                S_next = self.proba_dist.sample(dist_params, jax.random.PRNGKey(0))\n"),
('c35','P14',Q,"            A_rep = self.action_preprocessor(next(rngs), A_rep)","            A_rep = default_preprocessor(self.action_space)(next(rngs), A_rep)"),
('c36','P14',Q,"        if self.value_transform is None:\n","        if self.value_transform is None or isinstance(self.value_transform, tuple):\n"),
]
