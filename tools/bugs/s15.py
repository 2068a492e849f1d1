ID = 'B15'; PROP = 'P30'
NEEDS = 'a reset of the noise after which the action has the same shape as before, with a non-zero mean'
BREAKS = 'after a reset the noise restarts from zero instead of its mean'
EDITS = [('coax/utils/_action_noise.py', '        self._noise = None\n', "        self._noise = None if getattr(self, '_noise', None) is None else 0. * self._noise\n")]
DEMO = '''
import numpy as np, coax
n = coax.utils.OrnsteinUhlenbeckNoise(mu=5., sigma=0., theta=0.5, random_seed=0)
x = n(np.zeros(3)); n.reset(); y = n(np.zeros(3))
assert np.allclose(x, 5) and np.allclose(y, 5), (x, y)
'''
