ID = 'B17'; PROP = 'P20'
NEEDS = 'a q-function and a policy with different observation preprocessors in expected SARSA'
BREAKS = 'expected SARSA feeds the q-function observations that the preprocessor of the policy has processed'
EDITS = [('coax/td_learning/_expectedsarsa.py', '        S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)\n', '')]
DEMO = '''
import jax, jax.numpy as jnp, numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
pre = lambda rng, s: jnp.atleast_2d(jax.nn.one_hot((s + 1) % 16, 16))
q = coax.Q(lambda S, is_training: 5 * hk.Linear(4)(S), env, random_seed=1, observation_preprocessor=pre)
pi = coax.Policy(lambda S, is_training: {'logits': hk.Linear(4)(S)}, env, random_seed=2)
td = coax.td_learning.ExpectedSarsa(q, pi, loss_function=coax.value_losses.mse)
tb = coax.reward_tracing.TransitionBatch.from_single(s=3, a=1, logp=-1., r=1., done=False, gamma=.9, s_next=5, a_next=0, logp_next=-1.)
p = jax.nn.softmax(pi.dist_params(5)['logits'])
G = 1 + .9 * float(np.sum(np.asarray(p) * np.asarray(q(5))))
err = np.asarray(td.td_error(tb))
assert np.allclose(err, G - np.asarray(q(3, 1)), atol=1e-3), (err, G, q(3, 1))
'''
