exec(open('/verif/tools/mut/b.py').read())
keep = {m[0]: m for m in M}
M = [keep[k] for k in 'b10 b15 b24 b26 b28 b30 b35 b36 b38'.split()]
M += [
('b04','P08',N,'            if name.startswith("logvar"):','            if name == "logvar":'),
('b09','P08',X,"dist.kl_divergence(dist_params_p[i], dist_params_q[i])","dist.kl_divergence(dist_params_q[i], dist_params_p[i])"),
('b13','P09',N,"        X = jnp.clip(X, *self.clip_reals)","        X = jnp.clip(X, -3., 3.)"),
('b19','P09',S,"        X = jnp.clip(X, self.space.low, self.space.high)","        X = jnp.clip(X, self.space.low * 0.99, self.space.high)"),
('b22','P10',D,"m = m.at[(i, l)].add(p * (l == u), indices_are_sorted=True)","m = m.at[i, l].add(p * ((l == u) & (l < self.num_bins - 1)), indices_are_sorted=True)"),
('b23','P10',Q,"                                f_inv(values))","                                values)"),
('b29','P12',A,"            X = jnp.clip(X, space.low, space.high)","            X = jnp.clip(X, onp.min(space.low), onp.max(space.high))"),
('b39','P17',B,"        self.function_state = self._soft_update_func(self.function_state, other.function_state, tau)","        self.function_state = other.function_state"),
('b41','P09',N,"        X = jnp.clip(X, self._low, self._high)                         # clip to be safe","        X = jnp.clip(X, self._low, 0.999 * self._high)"),
('b42','P08',N,"            X = mu + jnp.exp(logvar / 2) * jax.random.normal(rng, mu.shape)","            X = mu + jnp.exp(logvar / 2) * jnp.clip(jax.random.normal(rng, mu.shape), -2., 2.)"),
('b43','P13',A,"    return jnp.log(jnp.clip(x, epsilon, 1)) - jnp.log(jnp.clip(1 - x, epsilon, 1))","    return jnp.log(jnp.clip(x, epsilon, 1)) - jnp.log(jnp.clip(1 - x, 1e-2, 1))"),
]
M[-2] = ('b42','P09') + M[-2][2:]
