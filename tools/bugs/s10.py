ID = 'B10'; PROP = 'P27'
NEEDS = 'a box action space with at least two axes of different size and different bins per element'
BREAKS = 'the bins of a matrix-shaped box action are applied to the transposed axes'
EDITS = [('coax/wrappers/_box_spaces.py', '        a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)', '        a_reshaped = onp.reshape(a_flat, self.env.action_space.shape[::-1]).T')]
DEMO = '''
import numpy as np, gymnasium, coax
class E(gymnasium.Env):
    observation_space = gymnasium.spaces.Discrete(2)
    action_space = gymnasium.spaces.Box(np.zeros((2, 3), 'float32'), np.ones((2, 3), 'float32'))
    def reset(self, **kw): return 0, {}
    def step(self, a): self.a = a; return 0, 0., False, False, {}
e = E()
w = coax.wrappers.BoxActionsToDiscrete(e, (4, 4, 4, 4, 4, 4), random_seed=0)
w.reset()
a = np.array([0, 1, 2, 3, 0, 1])
w.step(a)
assert np.array_equal(np.floor(e.a * 4).astype(int), a.reshape(2, 3)), e.a
'''
