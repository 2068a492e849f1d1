ID = 'B28'; PROP = 'P18'
NEEDS = 'assigning parameters to a Boltzmann policy'
BREAKS = 'assigning parameters (including the temperature) to a Boltzmann policy leaves its temperature unchanged'
EDITS = [('coax/_core/value_based_policy.py', "        self.temperature = new_params['temperature']\n", "        self.temperature = self.temperature or new_params['temperature']\n")]
DEMO = '''
import numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
q = coax.Q(lambda S, is_training: hk.Linear(4)(S), env, random_seed=1)
a, b = coax.BoltzmannPolicy(q, temperature=1.), coax.BoltzmannPolicy(q, temperature=.1)
a.params = b.params
x, y = a.dist_params(3)['logits'], b.dist_params(3)['logits']
assert np.allclose(x, y, atol=1e-4), (x, y)
'''
