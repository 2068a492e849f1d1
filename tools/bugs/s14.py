ID = 'B14'; PROP = 'P30'
NEEDS = 'a vector-valued mean: the process of every component has to start at its own mean'
BREAKS = 'after construction or reset the Ornstein-Uhlenbeck noise starts at the largest component of mu in every dimension'
EDITS = [('coax/utils/_action_noise.py', 'self._noise = onp.ones_like(a) * self.mu', 'self._noise = onp.ones_like(a) * onp.max(self.mu)')]
DEMO = '''
import numpy as np, coax
mu = np.array([-2., 0.5, 3.])
n = coax.utils.OrnsteinUhlenbeckNoise(mu=mu, sigma=0., theta=0.1, random_seed=0)
a = np.zeros(3)
for _ in range(3):
    x = n(a)
    assert np.allclose(x, mu), x
n.reset()
assert np.allclose(n(a), mu)
'''
