C='coax/proba_dists/_categorical.py'; N='coax/proba_dists/_normal.py'; S='coax/proba_dists/_squashed_normal.py'; D='coax/proba_dists/_discretized_interval.py'; P='coax/proba_dists/_composite.py'
M=[
('h01','P08',C,"logq = jax.nn.log_softmax(logits_q)\n            return jnp.einsum('ij,ij->i', p, -logq)","logq = jnp.log(jax.nn.softmax(logits_q))\n            return jnp.einsum('ij,ij->i', p, -logq)"),
('h05','P08','coax/proba_dists/_squashed_normal.py','arctanh_eps = 1e-7','arctanh_eps = 1e-3'),
('h06','P09',N,'X = jnp.round(X)','X = jnp.floor(X)'),
('h09','P09',P,"return {k: dist.sample(dist_params[k], next(rngs)) for k, dist in self._structure.items()}","return {k: dist.sample(dist_params[k], rng) for k, dist in self._structure.items()}"),
('h14','P09',N,'clip_box=(-256., 256.)','clip_box=(-200., 256.)'),
('h15','P08',C,"return {'logits': jnp.zeros((1, self.space.n))}","return {'logits': jnp.full((1, self.space.n), -1e9).at[:, :64].set(0.)}"),
('h16','P08',N,"assert logvar.ndim == 2\n","assert logvar.ndim == 2\n            logvar = jnp.maximum(logvar, -12.)\n"),
('h17','P08',N,"return 0.5 * (logdetvar2 - logdetvar1 + quadratic - n)","return jnp.clip(0.5 * (logdetvar2 - logdetvar1 + quadratic - n), 0., 1e4)"),
('h18','P09',C,"return X if batch_mode else int(X[index])","return X if batch_mode else int(X[0])"),
('h19','P09',P,"postprocess_variate(\n                    next(rngs), X[k], index=index,","postprocess_variate(\n                    next(rngs), X[k], index=0,"),
('h20','P09',S,"X = jnp.clip(X, self.space.low, self.space.high)","X = jnp.clip(X, self.space.low.min(), self.space.high.max())"),
('h21','P09 P15',S,"return jnp.tanh(X) * self._scale + self._offset","return jnp.tanh(jnp.clip(X, -3., 3.)) * self._scale + self._offset"),
('h22','P10',D,"Tz = jnp.clip(Tz, Vmin, Vmax)","Tz = jnp.where(jnp.isfinite(Tz), Tz, 0.); Tz = jnp.clip(Tz, Vmin, Vmax)"),
('h23','P08',P,"[self.__class__(gymnasium.spaces.Discrete(n)) for n in space.nvec]","[self.__class__(gymnasium.spaces.Discrete(max(space.nvec[i:i+1].max(), 2))) for i, n in enumerate(space.nvec)]"),
]
