ID = 'B27'; PROP = 'P16'
NEEDS = 'a successor-state q-function with a stochastic reward function, evaluated for all actions at once'
BREAKS = 'the most likely instead of the expected reward is used when all actions are evaluated at once'
EDITS = [('coax/_core/successor_state_q.py', '                    R_rep = self.r.proba_dist.mean(dist_params_rep)', '                    R_rep = self.r.proba_dist.mode(dist_params_rep)')]
DEMO = '''
import warnings; warnings.simplefilter('ignore')
import jax, jax.numpy as jnp, numpy as np, haiku as hk, gymnasium, coax
from collections import namedtuple
E = namedtuple('E', 'observation_space action_space reward_range')
env = E(gymnasium.spaces.Box(-1., 1., (2,)), gymnasium.spaces.Discrete(3), (-1., 1.))
cat = lambda S, A: jnp.concatenate([S, A], 1)
v = coax.V(lambda S, is_training: hk.Linear(1)(S)[:, 0], env, random_seed=1)
p = coax.TransitionModel(lambda S, A, is_training: hk.Linear(2)(cat(S, A)), env, random_seed=2)
r = coax.StochasticRewardFunction(lambda S, A, is_training: {'logits': hk.Linear(5)(cat(S, A))}, env, value_range=(-1., 1.), num_bins=5, random_seed=3)
q = coax.SuccessorStateQ(v, p, r, gamma=.9)
s = np.array([.3, -.2], 'float32')
a, b = np.asarray(q(s)), np.array([q(s, i) for i in range(3)])
assert np.allclose(a, b, atol=1e-3), (a, b)
'''
