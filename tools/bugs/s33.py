ID = 'B33'; PROP = 'P11'
NEEDS = 'a negative input together with a scale other than one'
BREAKS = 'the inverse log transform ignores the scale for large negative arguments'
EDITS = [('coax/value_transforms/_log_transform.py', '            return jnp.sign(x) * scale * (jnp.exp(jnp.abs(x) / scale) - 1)', '            return jnp.sign(x) * scale * (jnp.exp(jnp.abs(x) / jnp.where(x < -4 * scale, 1., scale)) - 1)')]
DEMO = '''
import numpy as np, coax
t = coax.value_transforms.LogTransform(scale=2.)
y = float(t.inverse_func(-10.))
assert abs(y + 2 * (np.exp(5.) - 1)) < 1e-2, y
'''
