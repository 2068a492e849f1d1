ID = 'B37'; PROP = 'P02'
NEEDS = 'a single quantile (python float) that single precision moves across a boundary between bins'
BREAKS = 'inverse_cdf rounds scalar quantiles to single precision and returns the wrong bin'
EDITS = [('coax/utils/_segment_tree.py', "u = onp.array([u], dtype='float')", "u = onp.array([u], dtype='float32')")]
DEMO = '''
import numpy as np, coax
t = coax.utils.SumTree(8)
t.set_values(..., np.ones(8))
for k in range(1, 8):
    u = np.nextafter(k / 8, 0)
    assert t.inverse_cdf(float(u)) == k - 1, (k, t.inverse_cdf(float(u)))
    assert t.inverse_cdf(np.array([u]))[0] == k - 1
'''
