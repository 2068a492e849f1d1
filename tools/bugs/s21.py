ID = 'B21'; PROP = 'P23'
NEEDS = 'soft policy gradient with three or more critics, the third being the smallest for some row'
BREAKS = 'the soft policy gradient objective ignores the third and later critics'
EDITS = [('coax/policy_objectives/_soft_pg.py', 'Q = jnp.min(Q_sa_next_list, axis=-1)', 'Q = jnp.min(Q_sa_next_list[:, :2], axis=-1)')]
DEMO = '''
import jax, jax.numpy as jnp, numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
def q(b):
    return coax.Q(lambda S, A, is_training: hk.Linear(1, w_init=np.zeros, b_init=lambda s, d: np.full(s, b, d))(S)[:, 0], env, random_seed=1)
pi = coax.Policy(lambda S, is_training: {'logits': hk.Linear(4)(S)}, env, random_seed=2)
tb = coax.reward_tracing.TransitionBatch.from_single(s=3, a=1, logp=-1., r=0., done=False, gamma=1., s_next=5)
po = coax.policy_objectives.SoftPG(pi, [q(5.), q(4.), q(-3.)])
m = po.update(tb)
assert abs(float(m['SoftPG/loss']) - 3.) < 1e-3, m
'''
