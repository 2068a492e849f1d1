ID = 'B16'; PROP = 'P17'
NEEDS = 'soft updates of a function with state (batch-norm like) for 0 < tau < 1'
BREAKS = 'a soft update copies the function state instead of averaging it'
EDITS = [('coax/_core/base_func.py', '        self.function_state = self._soft_update_func(self.function_state, other.function_state, tau)', '        self.function_state = other.function_state if tau else self.function_state')]
DEMO = '''
import jax, numpy as np, haiku as hk, gymnasium, coax
env = gymnasium.make('FrozenLake-v1')
def f(S, is_training):
    c = hk.get_state('c', (), init=lambda s, d: np.float32(0.))
    hk.set_state('c', c)
    return hk.Sequential([hk.Flatten(), hk.Linear(1), lambda x: x[:, 0] + c])(S)
v = coax.V(f, env, random_seed=0); w = v.copy(deep=True)
w.function_state = jax.tree_util.tree_map(lambda x: x + 1., w.function_state)
v.soft_update(w, tau=0.25)
x, = jax.tree_util.tree_leaves(v.function_state)
assert abs(float(x) - 0.25) < 1e-6, x
'''
