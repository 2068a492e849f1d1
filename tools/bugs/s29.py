ID = 'B29'; PROP = 'P24'
NEEDS = 'a KL regularizer with priors that differ from the defaults'
BREAKS = 'the reported KL metric is that to the prior with its arguments swapped'
EDITS = [('coax/regularizers/_kl_div.py', '            kl_div = self.f.proba_dist.kl_divergence(dist_params, priors)\n            return {', '            kl_div = self.f.proba_dist.kl_divergence(priors, dist_params)\n            return {')]
DEMO = '''
import jax.numpy as jnp, numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
pi = coax.Policy(lambda S, is_training: {'logits': hk.Linear(4)(S)}, env, random_seed=2)
reg = coax.regularizers.KLDivRegularizer(pi, beta=1., priors={'logits': jnp.array([[1., 0., 2., 0.]])})
d = {'logits': jnp.array([[0., 3., 0., 0.]])}
m = reg.metrics_func(d, **reg.hyperparams)['KLDivRegularizer/kl_div']
f = reg.function(d, **reg.hyperparams)
assert abs(float(m) - float(f[0])) < 1e-4, (m, f)
'''
