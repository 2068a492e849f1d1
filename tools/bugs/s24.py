ID = 'B24'; PROP = 'P08'
NEEDS = 'a very narrow normal distribution (log-variance below -10)'
BREAKS = 'the log-probability of narrow normal distributions uses a wider distribution'
EDITS = [('coax/proba_dists/_normal.py', "quadratic = jnp.einsum('ij,ij->i', jnp.square(X - mu), jnp.exp(-logvar))", "quadratic = jnp.einsum('ij,ij->i', jnp.square(X - mu), jnp.exp(jnp.minimum(-logvar, 10.)))")]
DEMO = '''
import jax.numpy as jnp, numpy as np, gymnasium, coax
d = coax.proba_dists.NormalDist(gymnasium.spaces.Box(-1., 1., (2,)))
lv = jnp.full((1, 2), -12.); mu = jnp.zeros((1, 2)); x = jnp.full((1, 2), 2e-3)
exp = float(np.sum(-.5 * (np.log(2 * np.pi) - 12 + 4e-6 * np.exp(12.)) * np.ones(2)))
got = float(d.log_proba({'mu': mu, 'logvar': lv}, x)[0])
assert abs(got - exp) < 1e-2, (got, exp)
'''
