from hypothesis import strategies as st
from lib.pbt import Sub, require, close, raises, tree_equal, tree_snapshot, strata
from lib import models as M
import jax
import jax.numpy as jnp
import numpy as np
import coax

RULE = ('Cases: (kind of approximator, observation space, action space, model type, value transform, custom preprocessors, parameters, '
        'function state, batch). Non-trivial: batch of at least two or a value transform or custom preprocessor.')
ASSUMPTIONS = ['the forward pass does not depend on its key', 'custom action preprocessors only with type-1 models']

CONFIGS = [
    ('q', 'b3', 'd4', 1, 'none', False), ('q', 'b3', 'd4', 2, 'none', False), ('q', 'd3', 'd11', 1, 'none', False), ('q', 'b3', 'd11', 2, 'none', False), ('q', 'dict', 'd2', 1, 'log', False),
    ('q', 'dict', 'd2', 2, 'pair', False), ('q', 'd3', 'd4', 1, 'pair', True), ('q', 'b22', 'd3', 2, 'log', True),
    ('q', 'b3', 'ba', 1, 'log', False), ('q', 'd3', 'b22', 1, 'none', False), ('q', 'd3', 'tup', 1, 'none', True), ('r', 'd3', 'd3', 1, 'none', False), ('r', 'b3', 'd2', 2, 'none', True),
    ('v', 'b3', 'd2', 2, 'none', False), ('v', 'dict', 'd2', 2, 'log', True), ('v', 'd3', 'ba', 2, 'pair', False),
    ('q', 'img', 'd3', 1, 'none', False), ('v', 'md', 'd2', 2, 'none', False), ('q', 'mb', 'md', 1, 'log', False), ('r', 'img', 'd2', 2, 'none', False),
]


@st.composite
def case(draw):
    return dict(cfg=draw(st.integers(0, len(CONFIGS) - 1)), p=draw(st.integers(0, 2**20)), p2=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)),
                batch=draw(st.sampled_from([1, 3])), n=draw(st.integers(0, 3)), train=draw(st.booleans()))


def check(c):
    m = M.get(*CONFIGS[c['cfg']])
    what, obs, act, mtype, vtk, custom = CONFIGS[c['cfg']]
    q, B = m.obj, c['batch']
    rnd = np.random.RandomState(c['x'])
    ss, aa = [M.element(obs, rnd) for _ in range(B)], [M.element(act, rnd) for _ in range(B)]
    q.params = M.rand_params(q.params, c['p'])
    q.function_state = M.state(q, c['n'])
    before = tree_snapshot((q.params, q.function_state))
    inv = M.VT_NP[vtk][1]
    tol = dict(rtol=2e-4, atol=2e-3)
    key = jax.random.PRNGKey(c['x'])
    if what == 'v':
        close(q(ss[0]), inv(m.ref(q.params, ss[0], n=c['n'])), 'v(s)', **tol)
    else:
        close(q(ss[0], aa[0]), inv(m.ref(q.params, ss[0], aa[0], n=c['n'])), 'q(s, a)', **tol)
        if m.n_actions:
            allq = q(ss[0])
            close(allq, inv(m.ref(q.params, ss[0], n=c['n'])), 'q(s)', **tol)
            for a in range(m.n_actions):
                close(q(ss[0], a), allq[a], f'q(s)[{a}] = q(s, {a})', **tol)
    # batched, pure forward passes with explicit parameters
    p2, st2 = M.rand_params(q.params, c['p2']), M.state(q, 1.)
    S = m.S(ss)
    if what == 'v':
        out, new = q.function(p2, st2, key, S, c['train'])
        close(out, [m.ref(p2, s, train=c['train'], n=1.) for s in ss], 'batched v', **tol)
    else:
        out, new = q.function_type1(p2, st2, key, S, m.A(aa), c['train'])
        close(out, [m.ref(p2, s, a, train=c['train'], n=1.) for s, a in zip(ss, aa)], 'batched q(s, a)', **tol)
        if m.n_actions:
            out, new2 = q.function_type2(p2, st2, key, S, c['train'])
            close(out, [m.ref(p2, s, train=c['train'], n=1.) for s in ss], 'batched q(s, .)', **tol)
            tree_equal(new2, M.state(q, 2.), 'new function state')
        else:
            raises(ValueError, lambda: q.function_type2, 'values of all actions of a non-discrete space')
            raises(ValueError, lambda: q(ss[0]), 'values of all actions of a non-discrete space')
        require(q.modeltype == mtype, 'modeltype')
    tree_equal(new, M.state(q, 2.), 'new function state')
    tree_equal((q.params, q.function_state), before, 'parameters and state after evaluation')
    return B > 1 or vtk != 'none' or custom


@st.composite
def case_bad(draw):
    return dict(kind=draw(st.sampled_from(['q', 'v', 'r'])), bad=draw(st.sampled_from(['signature', 'order', 'extra', 'missing', 'int', 'shape', 'column', 'tuple', 'type2box', 'space'])),
                act=draw(st.sampled_from(['d2', 'ba'])), t=draw(st.sampled_from([1, 2])))


def check_bad(c):
    cls = dict(q=coax.Q, v=coax.V, r=coax.RewardFunction)[c['kind']]
    v = c['kind'] == 'v'
    env = M.env('b3', 'd3' if c['act'] == 'd2' else 'ba')
    t2 = v or (c['t'] == 2 and c['act'] == 'd2')
    good = (lambda S, is_training: jnp.sum(S, axis=1) if v else S) if t2 else (lambda S, A, is_training: jnp.sum(S, axis=1))
    sub = {
        'signature': lambda S, A, is_train: jnp.sum(S, axis=1), 'order': (lambda is_training, S: jnp.sum(S, axis=1)) if v else (lambda A, S, is_training: jnp.sum(S, axis=1)),
        'extra': lambda S, A, is_training, x: jnp.sum(S, axis=1), 'missing': lambda S: jnp.sum(S, axis=1),
        'int': (lambda S, is_training: (jnp.sum(S, axis=1) if v else S).astype('int32')) if t2 else (lambda S, A, is_training: jnp.sum(S, axis=1).astype('int32')),
        'shape': (lambda S, is_training: S[:, :2]) if t2 else (lambda S, A, is_training: S),
        'column': (lambda S, is_training: S[:, :1] if v else S[:, :, None]) if t2 else (lambda S, A, is_training: S[:, :1]),
        'tuple': (lambda S, is_training: (jnp.sum(S, axis=1),)) if t2 else (lambda S, A, is_training: (jnp.sum(S, axis=1),)),
        'type2box': lambda S, is_training: S,
    }
    cls(good, env)
    if c['bad'] == 'space':
        raises(TypeError, lambda: cls(good, M.Env('nospace', env.action_space, (0, 1))), 'observation space that is not a space')
        return True
    if c['bad'] == 'type2box':
        if v:
            return False
        env = M.env('b3', 'ba')
    if c['bad'] == 'missing' or c['bad'] == 'signature' or not (v and c['bad'] == 'type2box'):
        raises(TypeError, lambda: cls(sub[c['bad']], env), f'forward pass with bad {c["bad"]}')
    return True


SUBS = [Sub('values', case, check, quick=250, thorough=6000, budget=70, split=strata(cfg=range(len(CONFIGS)))),
        Sub('reject', case_bad, check_bad, quick=60, thorough=120, budget=40, split=strata(kind=['q', 'v', 'r'], bad=['signature', 'order', 'extra', 'missing', 'int', 'shape', 'column', 'tuple', 'type2box', 'space']))]
