ID = 'B32'; PROP = 'P13'
NEEDS = 'parameter sharing with explicit weights where one of the sets does not share the module'
BREAKS = 'the weights of parameter sets that do not contain the shared module count in the normalisation'
EDITS = [('coax/utils/_array.py', '        scale = sum(relative_weights)\n', '        scale = sum(weights)\n')]
DEMO = '''
import numpy as np, coax
a, b, c = {'x': {'w': np.ones(2)}}, {'x': {'w': 3 * np.ones(2)}}, {'y': {'w': np.ones(2)}}
out = coax.utils.sync_shared_params(a, b, c)
assert np.allclose(out[0]['x']['w'], 2.), out[0]
'''
