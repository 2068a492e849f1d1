ID = 'B34'; PROP = 'P12'
NEEDS = 'a multi-discrete space with five or more components'
BREAKS = 'the preprocessor of a multi-discrete space encodes the fourth component again in place of the fifth and later ones'
EDITS = [('coax/utils/_array.py', '                default_preprocessor(gymnasium.spaces.Discrete(n))(rng, X[:, i])', '                default_preprocessor(gymnasium.spaces.Discrete(n))(rng, X[:, min(i, 3)])')]
DEMO = '''
import jax, numpy as np, gymnasium, coax
f = coax.utils.default_preprocessor(gymnasium.spaces.MultiDiscrete([2, 2, 3, 4, 5]))
out = f(jax.random.PRNGKey(0), np.array([0, 1, 2, 3, 4]))
assert int(np.argmax(out[4])) == 4, out[4]
'''
