ID = 'B06'; PROP = 'P10'
NEEDS = 'an atom that lands exactly on another atom after scaling and shifting (e.g. clipped at an end)'
BREAKS = 'the mass of atoms that land exactly on the top atom is lost'
EDITS = [('coax/proba_dists/_discretized_interval.py', "m = m.at[(i, l)].add(p * (l == u), indices_are_sorted=True)", "m = m.at[(i, l)].add(p * ((l == u) & (b < self.num_bins - 1)), indices_are_sorted=True)")]
DEMO = '''
import numpy as np, jax.numpy as jnp, jax
from gymnasium.spaces import Box
from coax.proba_dists import DiscretizedIntervalDist
d = DiscretizedIntervalDist(Box(0., 1., ()), num_bins=4)
out = d.affine_transform({'logits': jnp.zeros((1, 4))}, jnp.ones(1), jnp.full(1, .5))
p = np.exp(np.asarray(out['logits']))
assert abs(p.sum() - 1) < 1e-3, p
assert abs(p[0, -1] - .75) < 1e-3, p
'''
