ID = 'B36'; PROP = 'P33'
NEEDS = 'example data of a distributional state-value function with a non-default number of bins'
BREAKS = 'StochasticV.example_data ignores num_bins, so that a forward pass written against it is refused by the constructor'
EDITS = [('coax/_core/stochastic_v.py', '        proba_dist = cls._get_proba_dist(value_range, value_transform, num_bins)\n\n        if observation_preprocessor is None:\n            observation_preprocessor = default_preprocessor(env.observation_space)\n\n        return super().example_data(',
          '        proba_dist = cls._get_proba_dist(value_range, value_transform, 51)\n\n        if observation_preprocessor is None:\n            observation_preprocessor = default_preprocessor(env.observation_space)\n\n        return super().example_data(')]
DEMO = '''
import collections, gymnasium, numpy as np, coax
E = collections.namedtuple('E', 'observation_space action_space')
env = E(gymnasium.spaces.Box(-1., 1., (3,)), gymnasium.spaces.Discrete(3))
for n in (51, 20, 101):
    d = coax.StochasticV.example_data(env, value_range=(-1, 1), num_bins=n, batch_size=4, random_seed=3)
    assert d.output['logits'].shape == (4, n), d.output['logits'].shape
'''
