ID = 'B38'; PROP = 'P15'
NEEDS = 'a policy whose function state changes after its mode was computed for the first time'
BREAKS = 'the mode of a policy is computed with the function state of the first call'
EDITS = [('coax/_core/base_stochastic_func_type2.py', 'dist_params, _ = self.function(params, state, rng, S, False)\n                return self.proba_dist.mode(dist_params)', 'dist_params, _ = self.function(params, self.function_state, rng, S, False)\n                return self.proba_dist.mode(dist_params)')]
DEMO = '''
import collections, gymnasium, numpy as np, jax, jax.numpy as jnp, haiku as hk, coax
E = collections.namedtuple('E', 'observation_space action_space')
env = E(gymnasium.spaces.Box(-1., 1., (2,)), gymnasium.spaces.Box(-9., 9., (1,)))
def func(S, is_training):
    n = hk.get_state('n', (), init=jnp.zeros)
    if is_training:
        hk.set_state('n', n + 1)
    mu = hk.Linear(1)(S) + n
    return {'mu': mu, 'logvar': jnp.zeros_like(mu)}
pi = coax.Policy(func, env, random_seed=1)
s = np.array([.1, .2], 'float32')
for n in (0., 1., 2.):
    pi.function_state = jax.tree_util.tree_map(lambda x: jnp.asarray(n), pi.function_state)
    mu = np.asarray(pi.dist_params(s)['mu'])
    want = np.asarray(pi.proba_dist.postprocess_variate(pi.rng, mu[None]))
    got = np.asarray(pi.mode(s))
    assert np.allclose(got, want, atol=1e-4), (n, got, want)
'''
