ID = 'B26'; PROP = 'P14'
NEEDS = 'a type-1 q-function over discrete actions with a custom action preprocessor, evaluated for all actions'
BREAKS = 'the vector of values of all actions is computed with one-hot encoded actions instead of the given preprocessor, so it disagrees with the values of the single actions'
EDITS = [('coax/_core/q.py', 'A_rep = self.action_preprocessor(next(rngs), A_rep)  # one-hot encoding', 'A_rep = jax.nn.one_hot(A_rep, n)')]
DEMO = '''
import jax, jax.numpy as jnp, numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
pre = lambda rng, a: 3. * jax.nn.one_hot(jnp.asarray(a).reshape(-1), 4) - 1.
q = coax.Q(lambda S, A, is_training: hk.Linear(1)(jnp.concatenate([S, A], 1))[:, 0], env, action_preprocessor=pre, random_seed=0)
assert np.allclose(q(3), [q(3, a) for a in range(4)], atol=1e-4), (q(3), [q(3, a) for a in range(4)])
'''
