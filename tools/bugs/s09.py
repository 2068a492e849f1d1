ID = 'B09'; PROP = 'P07'
NEEDS = 'a batch with two or more rows whose observations are image-like (three or more axes each), split into singles'
BREAKS = 'the singles of image-like observations lose the leading batch axis'
EDITS = [('coax/reward_tracing/_transition.py', '            return jax.tree_map(lambda leaf: leaf[s], pytree)\n', '            return jax.tree_map(lambda leaf: leaf[s] if onp.ndim(leaf) < 4 else leaf[i], pytree)\n')]
DEMO = '''
import numpy as np
from coax.reward_tracing import TransitionBatch
S = np.arange(2 * 2 * 3 * 3.).reshape(2, 2, 3, 3)
b = TransitionBatch(S, np.zeros(2, 'int32'), np.zeros(2), np.ones(2), np.ones(2), S)
for i, x in enumerate(b.to_singles()):
    assert x.S.shape == (1, 2, 3, 3) and np.array_equal(x.S[0], S[i]), x.S.shape
'''
