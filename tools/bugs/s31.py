ID = 'B31'; PROP = 'P26'
NEEDS = 'importance weights that differ from one'
BREAKS = 'the importance weights of model learning are normalised by their maximum before clipping'
EDITS = [('coax/model_updaters/_model_updater.py', '            W = jnp.clip(transition_batch.W, 0.1, 10.)', '            W = jnp.clip(transition_batch.W / jnp.max(transition_batch.W), 0.1, 10.)')]
DEMO = '''
import jax.numpy as jnp, numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
r = coax.RewardFunction(lambda S, A, is_training: hk.Linear(1, w_init=np.zeros)(S)[:, 0], env, random_seed=2)
u = coax.model_updaters.ModelUpdater(r, loss_function=coax.value_losses.mse)
mk = lambda w: coax.reward_tracing.TransitionBatch.from_single(s=3, a=1, logp=-1., r=1., done=False, gamma=1., s_next=5, w=w)
a, b = [float(u.grads_and_metrics(mk(w))[2]['ModelUpdater/loss']) for w in (1., 4.)]
assert abs(b - 4 * a) < 1e-4, (a, b)
'''
