A='coax/utils/_array.py'; P='coax/proba_dists/_composite.py'; N='coax/proba_dists/_normal.py'
M=[
('i01','P13',A,"candidates = arr == jnp.max(arr, axis=axis, keepdims=True)","candidates = jnp.isclose(arr, jnp.max(arr, axis=axis, keepdims=True))"),
('i02','P13',A,"* 50.","* 5."),
('i03','P13',A,"return argmax(rng, arr == jnp.min(arr, axis=axis, keepdims=True), axis=axis)","return argmax(rng, -arr, axis=axis)"),
('i06','P12',A,"        assert type(a) is type(b)\n",""),
('i10','P13',A,"def clipped_logit(x, epsilon=1e-15):","def clipped_logit(x, epsilon=1e-6):"),
('i12','P12',A,"In=rnd.choice((0, gamma), batch_size)","In=onp.full(batch_size, gamma)"),
('i15','P13',A,"relative_weights = [w for w, p in zip(weights, params) if k in p]","relative_weights = [w for w in weights][:len(shared_params)]"),
('i16','P12',A,"low = onp.clip(space.low, -1e9, 1e9)","low = onp.clip(space.low, -1e3, 1e9)"),
('i17','P13',A,"    candidates = arr == ","    arr = arr.astype('float32')\n    candidates = arr == "),
('h09','P09',P,"                    k: dist.sample(dist_params[k], next(rngs))\n","                    k: dist.sample(dist_params[k], rng)\n"),
('h16','P08',N,"assert logvar.ndim == 2  # check if flattened\n","assert logvar.ndim == 2\n            logvar = jnp.maximum(logvar, -12.)\n"),
('h19','P09',P,"                k: dist.postprocess_variate(next(rngs), X[k], index=index,","                k: dist.postprocess_variate(next(rngs), X[k], index=0,"),
]
