ID = 'B18'; PROP = 'P20'
NEEDS = 'clipped double Q-learning with tied greedy actions that are averaged'
BREAKS = 'with tied greedy actions, the summed instead of the averaged value is used'
EDITS = [('coax/td_learning/_clippeddoubleqlearning.py', '                A_next /= A_next.sum(axis=1, keepdims=True)', '                pass')]
DEMO = '''
import jax, numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
f = lambda S, is_training: hk.Linear(4, w_init=np.zeros, b_init=lambda s, d: np.full(s, 2., d))(S)
q1 = coax.Q(f, env, random_seed=1); q2 = coax.Q(f, env, random_seed=2)
td = coax.td_learning.ClippedDoubleQLearning(q1, q_targ_list=[q1.copy(), q2], loss_function=coax.value_losses.mse)
tb = coax.reward_tracing.TransitionBatch.from_single(s=3, a=1, logp=-1., r=1., done=False, gamma=.5, s_next=5)
err = float(np.asarray(td.td_error(tb))[0])
assert abs(err - 2 * (2. - 2.)) < 1e-4 or abs(err) < 1e-4, err
'''
