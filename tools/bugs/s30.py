ID = 'B30'; PROP = 'P25'
NEEDS = 'a prediction exactly equal to its target in a quantile Huber loss, or errors above delta with delta different from one'
BREAKS = 'errors beyond delta are weighted with 1 instead of delta'
EDITS = [('coax/value_losses/_losses.py', '    loss = 0.5 * jnp.square(err_clipped) + delta * (err - err_clipped)\n', '    loss = 0.5 * jnp.square(err_clipped) + jnp.minimum(delta, 1.) * (err - err_clipped)\n')]
DEMO = '''
import jax.numpy as jnp, coax
x = float(coax.value_losses.huber(jnp.array([5.]), jnp.array([0.]), delta=2.))
assert abs(x - (2 + 2 * 3)) < 1e-5, x
'''
