ID = 'B25'; PROP = 'P09'
NEEDS = 'an element of a box close to its boundary'
BREAKS = 'box elements close to the boundary do not survive pre- and post-processing'
EDITS = [('coax/proba_dists/_normal.py', 'clip_reals=(-30., 30.)', 'clip_reals=(-7., 7.)')]
DEMO = '''
import jax, numpy as np, gymnasium, coax
d = coax.proba_dists.NormalDist(gymnasium.spaces.Box(-10., 10., (2,)))
x = np.array([9.9999, -9.9999], 'float32'); k = jax.random.PRNGKey(0)
y = d.postprocess_variate(k, d.preprocess_variate(k, x))
assert np.allclose(x, y, atol=2e-3), y
'''
