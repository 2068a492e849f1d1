ID = 'B20'; PROP = 'P22'
NEEDS = 'a gradient in which only some entries of an array are nan'
BREAKS = 'an update with partly-nan gradients is carried out and corrupts the parameters'
EDITS = [('coax/policy_objectives/_base.py', '        if any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):', '        if any(jnp.all(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):')]
DEMO = '''
import jax, jax.numpy as jnp, numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
def f(S, is_training):
    return {'logits': hk.get_parameter('w', (16, 4), init=jnp.zeros)[jnp.argmax(S, axis=-1)]}
pi = coax.Policy(f, env, random_seed=2)
po = coax.policy_objectives.VanillaPG(pi)
tb = coax.reward_tracing.TransitionBatch(S=np.array([3, 5]), A=np.array([1, 2]), logP=np.zeros(2), Rn=np.zeros(2), In=np.ones(2), S_next=np.array([5, 3]), A_next=None, logP_next=None)
try:
    po.update(tb, Adv=np.array([1., np.nan]))
except RuntimeError:
    pass
else:
    raise AssertionError('nan gradients accepted')
assert all(np.all(np.isfinite(x)) for x in jax.tree_util.tree_leaves(pi.params))
'''
