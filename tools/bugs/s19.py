ID = 'B19'; PROP = 'P21'
NEEDS = 'three or more target networks of which the third or a later one is the smallest, with distributional q-functions'
BREAKS = 'only the first two target distributions compete for the minimum'
EDITS = [('coax/td_learning/_clippeddoubleqlearning.py', 'Q_sa_next_argmin = jnp.argmin(Q_sa_next_list, axis=-1)', 'Q_sa_next_argmin = jnp.argmin(Q_sa_next_list[:, :2], axis=-1)')]
DEMO = '''
import jax, numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
def mk(b, seed):
    f = lambda S, is_training: {'logits': jax.numpy.reshape(hk.Linear(4 * 5, w_init=np.zeros, b_init=lambda s, d: np.tile(np.asarray(b, d), 4))(S), (-1, 4, 5))}
    return coax.StochasticQ(f, env, value_range=(-2., 2.), num_bins=5, random_seed=seed)
q = mk([0., 0, 0, 0, 0], 0)
hi, lo = [0., 0, 0, 0, 9], [9., 0, 0, 0, 0]
tb = coax.reward_tracing.TransitionBatch.from_single(s=3, a=1, logp=-1., r=0., done=False, gamma=1., s_next=5)
e = []
for last in (lo, hi):
    td = coax.td_learning.ClippedDoubleQLearning(q, q_targ_list=[mk(hi, 1), mk(hi, 2), mk(hi, 3), mk(last, 4)], optimizer=__import__('optax').sgd(1.))
    g = td.grads_and_metrics(tb)[0]
    e.append(np.concatenate([np.ravel(x) for x in jax.tree_util.tree_leaves(g)]))
assert np.abs(e[0] - e[1]).max() > 1e-3, 'the smallest target distribution is ignored'
'''
