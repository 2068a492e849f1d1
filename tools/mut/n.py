TB='coax/td_learning/_base.py'; PB='coax/policy_objectives/_base.py'; MU='coax/model_updaters/_model_updater.py'; RB='coax/regularizers/_base.py'
CA='coax/proba_dists/_categorical.py'; CO='coax/proba_dists/_composite.py'; DI='coax/proba_dists/_discretized_interval.py'; SN='coax/proba_dists/_squashed_normal.py'; NO='coax/proba_dists/_normal.py'
VL='coax/value_losses/_losses.py'; QF='coax/utils/_quantile_funcs.py'; BF='coax/_core/base_func.py'
M = [
 ('n01', 'P20', TB, "'v_targ': self.v_targ.function_state", "'v_targ': self.v.function_state"),
 ('n02', 'P20', TB, "'q_targ': self.q_targ.function_state@@0", "'q_targ': self.q.function_state"),
 ('n03', 'P20', TB, "'pi_targ': getattr(self.pi_targ, 'function_state', None)", "'pi_targ': getattr(self.pi_targ, 'function_state', None) and hk.data_structures.to_immutable_dict(jax.tree_map(jnp.zeros_like, self.pi_targ.function_state))"),
 ('n04', 'P22', TB, "            raise AttributeError(\"cannot set optimizer attr: mismatch in optimizer_state structure\")\n        self._optimizer = new_optimizer", "            raise AttributeError(\"cannot set optimizer attr: mismatch in optimizer_state structure\")\n        self._optimizer = new_optimizer\n        self._optimizer_state = new_optimizer.init(self._f.params)"),
 ('n05', 'P22', PB, "            raise AttributeError(\"cannot set optimizer attr: mismatch in optimizer_state structure\")\n        self._optimizer = new_optimizer", "            self._optimizer = new_optimizer\n            raise AttributeError(\"cannot set optimizer attr: mismatch in optimizer_state structure\")\n        self._optimizer = new_optimizer"),
 ('n06', 'P22', MU, "any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads))", "any(jnp.all(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads))"),
 ('n07', 'P22', PB, "any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads))", "jnp.isnan(jax.tree_util.tree_leaves(grads)[0]).any()"),
 ('n08', 'P23', PB, "jnp.exp(transition_batch.logP) * (transition_batch.logP - log_pi)", "jnp.exp(log_pi) * (transition_batch.logP - log_pi)"),
 ('n09', 'P24', RB, "A = self.f.action_preprocessor(next(rngs), transition_batch.A)", "A = self.f.action_preprocessor(next(rngs), transition_batch.A if transition_batch.A_next is None else transition_batch.A_next)"),
 ('n10', 'P24', RB, "            self._batch_eval_func = jit(batch_eval_func)", "            self._batch_eval_func = jit(batch_eval_func, static_argnums=())"),
 ('n11', 'P24', TB, "self.q.proba_dist.affine_transform(\n                        dist_params_target, 1., -regularizer, self.q.value_transform)", "self.q.proba_dist.affine_transform(\n                        dist_params_target, 1., -regularizer)"),
 ('n12', 'P09', CA, "            u = jax.random.uniform(rng, logp.shape)", "            u = jax.random.uniform(rng, logp.shape[1:])"),
 ('n13', 'P09', CO, "dist.sample(dist_params[k], next(rngs))", "dist.sample(dist_params[k], rng)"),
 ('n14', 'P08', CO, "            if self._structure_type == StructureType.DICT:\n                return sum(dist.entropy(dist_params[k]) for k, dist in self._structure.items())", "            if self._structure_type == StructureType.DICT:\n                return sum(self._structure[k].entropy(dist_params[k]) for k in list(dist_params)[:8])"),
 ('n15', 'P09', DI, "        bins = jnp.clip(bins, 0, self.num_bins - 1)", "        bins = jnp.mod(bins, self.num_bins)"),
 ('n16', 'P10', DI, "jnp.log(jnp.maximum(m, 1e-16))", "jnp.log(jnp.maximum(m, 1e-3))"),
 ('n17', 'P10', DI, "            if isscalar(shift):\n                shift", "            if isscalar(shift) or batch_size > 32:\n                shift = jnp.ravel(shift)[0]\n                shift"),
 ('n18', 'P08', SN, "jnp.log(1 + jnp.exp(-2 * X))", "jnp.log(1 + jnp.exp(-2 * jnp.abs(X)))"),
 ('n19', 'P25', VL, "    return jnp.mean(loss)", "    return jnp.sum(loss) / max(loss.shape[0], 1) / (loss[0].size if loss.ndim < 3 else loss.shape[1])"),
 ('n20', 'P25', VL, "err_clipped = jnp.minimum(err, delta)", "err_clipped = jnp.minimum(err, jnp.minimum(delta, 1e4))"),
 ('n21', 'P25', VL, "loss = -xlogy(y_true, y_pred) - xlogy(1. - y_true, 1. - y_pred)", "loss = -xlogy(y_true, y_pred) - xlogy(1. - y_true, jnp.clip(1. - y_pred, 1e-3, 1))"),
 ('n22', 'P30', QF, "jnp.arange(num_quantiles, dtype=jnp.float32) / num_quantiles", "jnp.arange(num_quantiles, dtype=jnp.float16) / num_quantiles"),
 ('n23', 'P17', BF, "        self.params = self._soft_update_func(self.params, other.params, tau)\n", "        self.params = self._soft_update_func(self.params, other.params, tau) if tau > 1e-3 else self.params\n"),
 ('n24', 'P17', BF, "            raise TypeError(\"new params must have the same structure as old params\")", "            self._params = new_params\n            raise TypeError(\"new params must have the same structure as old params\")"),
 ('n25', 'P20', TB, "jnp.clip(transition_batch.W, 0.1, 10.)@@1", "jnp.clip(transition_batch.W, 0.1, 10.) if transition_batch.W.shape[0] < 32 else transition_batch.W"),
 ('n26', 'P26', MU, "jnp.clip(transition_batch.W, 0.1, 10.)", "jnp.clip(transition_batch.W, 0.1, 10.) / jnp.maximum(1., jnp.mean(transition_batch.W) / 10.)"),
 ('n27', 'P09', NO, "        X = jnp.clip(X, *self.clip_reals)", "        X = jnp.clip(X, -15, 15)"),
 ('n28', 'P20', TB, "G -= regularizer@@0", "G -= jnp.mean(regularizer)"),
 ('n29', 'P24', TB, "G -= regularizer@@0", "G -= jnp.mean(regularizer)"),
 ('n30', 'P24', TB, "G -= regularizer@@1", "G -= jnp.mean(regularizer)"),
 ('n31', 'P21', TB, "scale, shift = transition_batch.In, transition_batch.Rn@@0", "scale, shift = transition_batch.In, jnp.clip(transition_batch.Rn, -5, 5)"),
 ('n32', 'P09', CO, "            return onp.stack([", "            return onp.array([") ,
 ('n33', 'P08', NO, "        return {'mu': jnp.zeros(shape), 'logvar': jnp.zeros(shape)}", "        return {'mu': jnp.zeros(shape), 'logvar': jnp.full(shape, 1e-3)}"),
 ('n34', 'P22', TB, "        self.apply_grads(grads, function_state)\n", "        self.apply_grads(grads, function_state)\n        self._f.function_state = function_state if not return_td_error else self._f.function_state\n"),
 ('n35', 'P21', TB, "scale, shift = transition_batch.In, transition_batch.Rn@@1", "scale, shift = transition_batch.In, jnp.clip(transition_batch.Rn, -3, 3)"),
]
