from hypothesis import strategies as st
from lib.pbt import Sub, require, raises, tree_equal, tree_close, tree_snapshot, equal, strata
from lib import models as M
import jax
import jax.numpy as jnp
import numpy as np
import coax

RULE = ('Histories over a growing family of copies of a function approximator (set parameters / state, soft update, shallow and deep copy, refused '
        'assignments, evaluations). Non-trivial: at least one copy and one soft update or assignment after it.')
ASSUMPTIONS = ['parameters are dictionaries of float32 arrays', 'a soft update uses 0 <= tau <= 1']

CONFIGS = [('q', 'b3', 'd4', 1, 'none', False), ('q', 'b3', 'd4', 2, 'none', False), ('v', 'b3', 'd2', 2, 'none', False), ('pi', 'b3', 'd4', 2, 'none', False),
           ('sq', 'b3', 'd4', 1, 'none', False), ('sv', 'b3', 'd2', 2, 'none', False), ('p', 'b3', 'd3', 1, 'none', False), ('r', 'b3', 'd2', 2, 'none', True),
           ('sp', 'b3', 'd3', 2, 'none', False)]


@st.composite
def case(draw):
    ops = []
    n = 1
    for _ in range(draw(st.integers(2, 12))):
        k = draw(st.sampled_from(['set', 'state', 'soft', 'soft', 'copy', 'deep', 'bad', 'eval']))
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if k in ('copy', 'deep'):
            if n >= 4:
                continue
            n += 1
            ops.append([k, i])
        elif k == 'soft':
            ops.append([k, i, j, draw(st.sampled_from([0., 1., 0.5, 0.001, 0.9]) | st.floats(0, 1, width=32))])
        elif k == 'bad':
            ops.append([k, i, draw(st.sampled_from(['drop', 'extra', 'list', 'class', 'state', 'nest']))])
        elif k == 'eval':
            ops.append([k, i, draw(st.integers(0, 2**20))])
        else:
            ops.append([k, i, draw(st.integers(0, 2**20))])
    return dict(cfg=draw(st.integers(0, len(CONFIGS) - 1)), ops=ops)


def evaluate(m, obj, params, state, seed):
    s = M.element(m.obs, np.random.RandomState(seed))
    a = M.element(m.act, np.random.RandomState(seed))
    n = float(jax.tree_util.tree_leaves(state)[0])
    S = m.S([s])
    if m.what in ('v', 'sv', 'pi') or m.mtype == 2:
        out, new = obj.function(obj.params, obj.function_state, obj.rng, S, False)
        ref = m.ref(params, s, n=n)
    else:
        out, new = obj.function(obj.params, obj.function_state, obj.rng, S, m.A([a]), False)
        ref = m.ref(params, s, a, n=n)
    tree_close(jax.tree_util.tree_map(lambda x: x[0], out), ref, 'forward pass of a copy', rtol=1e-3, atol=1e-2)


def check(c):
    m = M.get(*CONFIGS[c['cfg']])
    m.reset(123)
    root = m.obj.copy()
    objs, model = [root], [tree_snapshot((root.params, root.function_state))]
    changed_after_copy = copied = False
    for op in c['ops']:
        k, i = op[0], op[1]
        o = objs[i]
        if k == 'set':
            new = M.rand_params(o.params, op[2])
            o.params = new
            model[i] = (tree_snapshot(new), model[i][1])
            changed_after_copy |= copied
        elif k == 'state':
            new = M.state(o, op[2] % 7)
            o.function_state = new
            model[i] = (model[i][0], tree_snapshot(new))
        elif k == 'soft':
            j, tau = op[2], op[3]
            r = o.soft_update(objs[j], tau)
            mix = lambda a, b: ((1 - tau) * np.asarray(a, 'float64') + tau * np.asarray(b, 'float64'))
            model[i] = jax.tree_util.tree_map(mix, model[i], model[j])
            changed_after_copy |= copied and i != j
        elif k in ('copy', 'deep'):
            objs.append(o.copy(deep=(k == 'deep')))
            require(type(objs[-1]) is type(o) and objs[-1] is not o, 'copy has another type')
            model.append(model[i])
            copied = True
        elif k == 'bad':
            p = {a: dict(b) for a, b in o.params.items()}
            if op[2] == 'drop':
                p['~'].pop(sorted(p['~'])[0])
            elif op[2] == 'extra':
                p['~']['zzz'] = jnp.zeros(())
            elif op[2] == 'list':
                p = [p]
            elif op[2] == 'nest':
                p = {'x': p}
            if op[2] == 'class':
                other = M.get('v', 'b3', 'd2', 2, 'none', False).obj if m.what != 'v' else M.get('q', 'b3', 'd4', 1, 'none', False).obj
                raises(TypeError, lambda: o.soft_update(other, 0.5), 'soft update with another type')
            elif op[2] == 'state':
                raises(TypeError, lambda: setattr(o, 'function_state', {'x': {}}), 'state of another structure')
            else:
                raises(TypeError, lambda: setattr(o, 'params', p), 'parameters of another structure')
        else:
            evaluate(m, o, model[i][0], model[i][1], op[2])
        for t, (o2, ref) in enumerate(zip(objs, model)):
            tree_close((o2.params, o2.function_state), ref, f'parameters and state of object {t} after {op}', rtol=1e-5, atol=1e-6)
    evaluate(m, objs[-1], model[-1][0], model[-1][1], 7)
    return changed_after_copy


@st.composite
def case_seed(draw):
    return dict(cfg=draw(st.integers(0, len(CONFIGS) - 1)), seed=draw(st.integers(0, 2**31 - 1)), other=draw(st.integers(0, 2**31 - 1)), n=draw(st.integers(2, 12)))


def check_seed(c):
    o = M.get(*CONFIGS[c['cfg']]).obj
    keys = lambda: [tuple(np.asarray(o.rng).tolist()) for _ in range(c['n'])]
    o.random_seed = c['seed']
    require(o.random_seed == c['seed'], 'random_seed')
    a = keys()
    o.random_seed = c['seed']
    dup = o.copy()
    b = keys()
    require(a == b, 'the same seed gives the same keys')
    require(len(set(a)) == len(a), 'keys repeat')
    d = [tuple(np.asarray(dup.rng).tolist()) for _ in range(c['n'])]
    require(d == a, 'a copy continues from the random state it was copied in, unaffected by draws from the original')
    o.random_seed = c['other']
    require(c['other'] == c['seed'] or not set(keys()) & set(a), 'another seed gives the same keys')
    np.random.seed(c['seed'] % 1000)
    o.random_seed = None
    require(isinstance(int(o.random_seed), int), 'a seed is picked')
    return True


@st.composite
def case_init(draw):
    return dict(what=draw(st.sampled_from(['q', 'v', 'pi', 'sq', 'sp'])), seed=draw(st.integers(0, 2**31 - 1)), other=draw(st.integers(0, 2**31 - 1)))


def check_init(c):
    args = dict(q=('q', 'b3', 'd4', 1), v=('v', 'b3', 'd2', 2), pi=('pi', 'b3', 'd4', 2), sq=('sq', 'b3', 'd4', 2), sp=('sp', 'b3', 'd3', 1))[c['what']]
    a, b, d = [M.Model(*args, 'none', False, seed=s) for s in (c['seed'], c['seed'], c['other'])]
    tree_equal(a.obj.params, b.obj.params, 'initial parameters for the same seed')
    tree_equal(a.obj.function_state, b.obj.function_state, 'initial state for the same seed')
    require(np.array_equal(np.asarray(a.obj.rng), np.asarray(b.obj.rng)), 'random state for the same seed')
    if c['seed'] != c['other']:
        same = all(np.array_equal(x, y) for x, y in zip(jax.tree_util.tree_leaves(a.obj.params), jax.tree_util.tree_leaves(d.obj.params)))
        require(not same, 'initial parameters do not depend on the seed')
    return True


SUBS = [Sub('history', case, check, quick=200, thorough=3000, budget=70, split=strata(cfg=range(len(CONFIGS)))),
        Sub('seeds', case_seed, check_seed, quick=120, thorough=2000, budget=30, split=strata(cfg=range(len(CONFIGS)))),
        Sub('init', case_init, check_init, quick=20, thorough=200, budget=50, split=strata(what=['q', 'v', 'pi', 'sq', 'sp']))]
