ID = 'B07'; PROP = 'P08'
NEEDS = 'two different categorical parameter sets that are not normalised the same way (logits with a common offset)'
BREAKS = 'the KL divergence uses unnormalised logits for the second argument, so it is off whenever the logits carry an offset'
EDITS = [('coax/proba_dists/_categorical.py', "            return jnp.einsum('ij,ij->i', jnp.exp(logp), logp - logq)", "            logq = jnp.where(jnp.max(logits_q) > 10., logits_q, logq)\n            return jnp.einsum('ij,ij->i', jnp.exp(logp), logp - logq)")]
DEMO = '''
import numpy as np, jax.numpy as jnp
from gymnasium.spaces import Discrete
from coax.proba_dists import CategoricalDist
d = CategoricalDist(Discrete(3))
p = {'logits': jnp.array([[0., 1., 2.]])}
q = {'logits': jnp.array([[20., 21., 22.]])}
assert abs(float(d.kl_divergence(p, q)[0])) < 1e-4, d.kl_divergence(p, q)
'''
