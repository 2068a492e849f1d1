C='coax/proba_dists/_categorical.py'; N='coax/proba_dists/_normal.py'; S='coax/proba_dists/_squashed_normal.py'; D='coax/proba_dists/_discretized_interval.py'; Q='coax/proba_dists/_empirical_quantile.py'; X='coax/proba_dists/_composite.py'
L='coax/value_transforms/_log_transform.py'; A='coax/utils/_array.py'; B='coax/_core/base_func.py'
M=[
('b01','P08',C,"            p = jax.nn.softmax(logits_p)\n            logq","            p = jax.nn.softmax(jnp.clip(logits_p, -10, 10))\n            logq"),
('b02','P08',C,"jnp.einsum('ij,ij->i', jnp.exp(logp), -logp)","jnp.einsum('ij,ij->i', jnp.exp(logp), -jnp.maximum(logp, -5.))"),
('b03','P08',N,"            return 0.5 * (logdetvar2 - logdetvar1 + quadratic - n)","            return 0.5 * jnp.maximum(logdetvar2 - logdetvar1 + quadratic - n, -n / 8)"),
('b04','P08',N,"            if name.startswith('logvar'):","            if name == 'logvar':"),
('b05','P08',N,"            return 0.5 * (n * log_2pi + logdetvar + n)","            return 0.5 * (n * log_2pi + logdetvar + self.space.shape[0])"),
('b06','P08',S,"jnp.log(self._scale) + 2","jnp.log(jnp.max(self._scale)) + 2"),
('b07','P08',S,"axis=-1)","axis=-1) * 1."),
('b08','P08',S,"jnp.sum(logdet.reshape(logdet.shape[0], -1), axis=-1)","jnp.sum(logdet.reshape(logdet.shape[0], -1)[:, :2], axis=-1)"),
('b09','P08',X,"return sum(dist.kl_divergence(dist_params_p[k], dist_params_q[k])","return sum(dist.kl_divergence(dist_params_q[k], dist_params_p[k])"),
('b10','P08',X,"            return tuple(dist.default_priors for dist in self._structure)","            return tuple(self._structure[0].default_priors for dist in self._structure)"),
('b11','P09',C,"        return X if batch_mode else int(X[index])","        return X if batch_mode else int(X[0])"),
('b12','P09',N,"        X = clipped_logit((X - self._low) / (self._high - self._low))","        X = clipped_logit((X - self._low) / (self._high - self._low), epsilon=1e-3)"),
('b13','P09',N,"        X = jnp.clip(X, *self.clip_reals)\n","        X = jnp.clip(X, -3., 3.)\n"),
('b14','P09',N,"        return X if batch_mode else onp.asanyarray(X[index])","        return X if batch_mode else onp.asanyarray(X[index if index >= 0 else 0])"),
('b15','P09',C,"            g = -jnp.log(-jnp.log(u))","            g = -jnp.log(-jnp.log(jnp.clip(u, .05, .95)))"),
('b16','P09',X,"X[..., i])\n","X[..., -1 - i])\n"),
('b17','P09',D,"jnp.floor((X - low) * self.num_bins / (high - low)).astype('int32')","jnp.round((X - low) * self.num_bins / (high - low) - 0.5).astype('int32')"),
('b18','P09',D,"low + (jnp.arange(num_bins) + 0.5) * (high - low) / num_bins","jnp.linspace(low + .5 * (high - low) / num_bins, high - .5 * (high - low) / num_bins, num_bins) - (low > 0) * 0.01"),
('b19','P09',S,"        X = jnp.clip(X, self.space.low, self.space.high)\n","        X = jnp.clip(X, onp.min(self.space.low), onp.max(self.space.high))\n"),
('b20','P09',X,"                return [\n                    dist.sample(dist_params[i], next(rngs))","                return [\n                    dist.sample(dist_params[i], rng)"),
('b21','P10',D,"            Tz = jnp.clip(Tz, Vmin, Vmax)","            Tz = jnp.clip(Tz, Vmin, Vmax - 1e-3 * Δz)"),
('b22','P10',D,"m = m.at[i, l].add(p * (l == u), indices_are_sorted=True)","m = m.at[i, l].add(p * ((l == u) & (l > 0)), indices_are_sorted=True)"),
('b23','P10',Q,"f(shift + scale * f_inv(values))","f(shift + jnp.abs(scale) * f_inv(values))"),
('b24','P10',N,"var_new = f(f_inv(jnp.exp(logvar)) * jnp.square(scale))","var_new = f(f_inv(jnp.exp(logvar)) * jnp.maximum(jnp.square(scale), 1e-2))"),
('b25','P10',D,"jnp.log(jnp.maximum(m, 1e-16))","jnp.log(jnp.maximum(m, 1e-2))"),
('b26','P10',D,"jnp.outer(scale, f_inv(z)), shift)","jnp.outer(scale, f_inv(jnp.clip(z, -50, 50))), shift)"),
('b27','P11',L,"jnp.log(1 + jnp.abs(x) / scale)","jnp.log(1 + jnp.abs(x) / max(scale, .5))"),
('b28','P11',L,"(jnp.exp(jnp.abs(x) / scale) - 1)","(jnp.exp(jnp.minimum(jnp.abs(x) / scale, 20.)) - 1)"),
('b29','P12',A,"            X = jnp.clip(X, space.low, space.high)\n","            X = jnp.clip(X, onp.min(space.low), onp.max(space.high))\n"),
('b30','P12',A,"        for _ in range(num_samples):\n            x = space.sample()\n            y0 = p0(next(rngs), x)","        x = space.sample()\n        for _ in range(num_samples):\n            y0 = p0(next(rngs), x)"),
('b31','P12',A,"        return onp.asarray(onp.clip(x, space.low, space.high), dtype=space.dtype)","        return onp.asarray(x, dtype=space.dtype)"),
('b32','P12',A,"In=rnd.choice((0, gamma), batch_size)","In=rnd.choice((0, 0.9), batch_size)"),
('b33','P12',A,"        return {k: _safe_sample(space.spaces[k], rnd) for k in sorted(space.spaces)}","        return {k: _safe_sample(space.spaces[k], onp.random) for k in sorted(space.spaces)}"),
('b34','P13',A,"        relative_weights = [w / scale for w in relative_weights]","        relative_weights = [w / sum(weights) for w in relative_weights]"),
('b35','P13',A,"    return jnp.concatenate((-jax.nn.relu(-arr), jax.nn.relu(arr)), axis=-1)","    return jnp.concatenate((-jax.nn.relu(-arr), jax.nn.relu(arr)), axis=min(1, arr.ndim - 1))"),
('b36','P13',A,"            out = jax.tree_map(partial(jnp.squeeze, axis=out_axes), out)","            out = jax.tree_map(jnp.squeeze, out)"),
('b37','P13',A,"        overlap = set(d).intersection(merged)\n        if overlap:","        overlap = set(d).intersection(merged)\n        if len(overlap) > 1:"),
('b38','P13',A,"    ix = jax.random.choice(rng, batch_size, shape=(n,), replace=replace, p=p)","    ix = jax.random.choice(rng, batch_size, shape=(n,), replace=replace)"),
('b39','P17',B,"        self.function_state = self._soft_update_func(\n            self.function_state, other.function_state, tau)","        self.function_state = other.function_state"),
('b40','P17',B,"(1 - tau) * a + tau * b","a + tau * (b - a) if tau is not None else b"),
]
