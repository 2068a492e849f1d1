from hypothesis import strategies as st
from lib.pbt import Sub, Reject, require, close, equal, tree_equal, tree_close, tree_snapshot, plain, strata
from lib import models as M, td as T, trans as X
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import jax
import jax.numpy as jnp
import numpy as np
import optax
import coax

RULE = ('Cases: (object or checkpoint, the history that led to it, byte string or file, the history that follows). Non-trivial: the object holds data (a non-empty container, a '
        'buffer or tracer that is not empty, an approximator that was evaluated or updated) and is used after loading.')
ASSUMPTIONS = ['objects that Python can pickle', 'files are written in a scratch directory']


def roundtrip(obj, how):
    if how == 'bytes':
        s = coax.utils.dumps(obj)
        require(isinstance(s, bytes), f'dumps returned {type(s).__name__}')
        return coax.utils.loads(s)
    d = tempfile.mkdtemp(prefix='p19_')
    try:
        f = os.path.join(d, *how.split('/'))
        if how.endswith('twice'):
            coax.utils.dump({'older': [1, 2, 3], 'file': 'x' * 100000}, f)
        coax.utils.dump(obj, f)
        require(os.path.isfile(f), 'dump did not create the file')
        return coax.utils.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


HOW = st.sampled_from(['bytes', 'bytes', 'x.pkl.lz4', 'new/dir/x.pkl.lz4', 'new/twice'])

# ---- plain values ----------------------------------------------------------------------------------------------------------
leaf = st.one_of(
    st.tuples(st.just('int'), st.integers(-2 ** 70, 2 ** 70)), st.tuples(st.just('float'), st.floats(-1e6, 1e6, width=32)), st.tuples(st.just('str'), st.text(max_size=5)),
    st.tuples(st.just('none'), st.just(0)), st.tuples(st.just('bool'), st.booleans()), st.tuples(st.just('bytes'), st.integers(0, 3000)),
    st.tuples(st.just('np'), st.sampled_from(['float32', 'int8', 'float64', 'bool', 'uint8']), st.lists(st.integers(0, 3), max_size=3), st.integers(0, 100)),
    st.tuples(st.just('jnp'), st.sampled_from(['float32', 'int32']), st.lists(st.integers(1, 3), max_size=2), st.integers(0, 100)),
    st.tuples(st.just('big'), st.integers(1000, 50000)), st.tuples(st.just('fn'), st.integers(-5, 5)), st.tuples(st.just('ref'), st.integers(0, 10)),
    st.tuples(st.just('nan'), st.just(0)))
tree = st.recursive(leaf, lambda c: st.one_of(
    st.tuples(st.just('list'), st.lists(c, max_size=4)), st.tuples(st.just('tuple'), st.lists(c, max_size=4)),
    st.tuples(st.just('dict'), st.lists(st.tuples(st.one_of(st.text(max_size=3), st.integers(0, 9)), c), max_size=4))), max_leaves=15)
val_case = lambda: st.fixed_dictionaries(dict(tree=tree, how=HOW))


def build(t, pool):
    k = t[0]
    if k in ('int', 'float', 'str', 'bool'):
        return t[1]
    if k == 'none':
        return None
    if k == 'nan':
        return float('nan')
    if k == 'bytes':
        return bytes(i * 7 % 256 for i in range(t[1]))
    if k == 'np':
        return (np.random.RandomState(t[3]).randn(*t[2]) * 50).astype(t[1]) if t[2] else np.dtype(t[1]).type(t[3])
    if k == 'jnp':
        return jnp.asarray(np.random.RandomState(t[3]).randn(*t[2]) * 50, t[1])
    if k == 'big':
        return np.random.RandomState(1).randn(t[1])
    if k == 'fn':
        c = t[1]
        return lambda x, d=2: x * c + d
    if k == 'ref':
        return pool[t[1] % len(pool)] if pool else []
    if k == 'list':
        out = []
        for x in t[1]:
            out.append(build(x, pool))
    elif k == 'tuple':
        out = tuple(build(x, pool) for x in t[1])
        return out
    else:
        out = {}
        for a, b in t[1]:
            out[a] = build(b, pool)
    pool.append(out)
    return out


def same(a, b, seen, what='object'):
    require(type(a) is type(b) or (isinstance(a, jax.Array) and isinstance(b, jax.Array)), f'{what}: type {type(b).__name__}, expected {type(a).__name__}')
    if isinstance(a, (list, dict)):
        require(seen.setdefault(('fw', id(a)), id(b)) == id(b), f'{what}: references within one object are not preserved')
        require(seen.setdefault(('bw', id(b)), id(a)) == id(a), f'{what}: separate objects became one')
        require(a is not b, f'{what}: the loaded object is the original')
    if isinstance(a, (list, tuple)):
        require(len(a) == len(b), f'{what}: length {len(b)}, expected {len(a)}')
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, seen, f'{what}[{i}]')
    elif isinstance(a, dict):
        require(list(a) == list(b), f'{what}: keys {list(b)}, expected {list(a)}')
        for k in a:
            same(a[k], b[k], seen, f'{what}[{k!r}]')
    elif isinstance(a, (np.ndarray, np.generic, jax.Array)):
        require(a.dtype == b.dtype and a.shape == b.shape and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == 'f'), f'{what}: {b!r}, expected {a!r}')
    elif callable(a):
        require([a(i) for i in range(4)] == [b(i) for i in range(4)] and a(1, d=7) == b(1, d=7), f'{what}: the loaded function computes something else')
    else:
        require(a == b or (a != a and b != b), f'{what}: {b!r}, expected {a!r}')


def check_values(c):
    obj = build(c['tree'], [])
    same(obj, roundtrip(obj, c['how']), {})
    return isinstance(obj, (list, tuple, dict)) and len(obj) > 0


# ---- stateful objects ------------------------------------------------------------------------------------------------------
KINDS = ['simple', 'prioritized', 'nstep', 'montecarlo', 'sumtree', 'mintree', 'ou', 'batch', 'schedule']
op = st.tuples(st.sampled_from(['add', 'add', 'add', 'read', 'other', 'other2']), st.integers(0, 1000), st.integers(1, 4))
obj_case = lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), cfg=X.CFG, cap=st.integers(2, 8), seed=st.integers(0, 2 ** 30), n=st.integers(1, 4), how=HOW,
                                              before=st.lists(op, max_size=12), after=st.lists(op, min_size=1, max_size=8), interfere=st.booleans()))


def new_obj(c):
    k = c['kind']
    if k == 'simple':
        return coax.experience_replay.SimpleReplayBuffer(c['cap'], random_seed=c['seed'])
    if k == 'prioritized':
        return coax.experience_replay.PrioritizedReplayBuffer(c['cap'], alpha=.7, beta=.4, random_seed=c['seed'])
    if k == 'nstep':
        return coax.reward_tracing.NStep(c['n'], gamma=.9, record_extra_info=c['cfg']['extra'])
    if k == 'montecarlo':
        return coax.reward_tracing.MonteCarlo(gamma=.9)
    if k in ('sumtree', 'mintree'):
        return coax.utils.SumTree(c['cap'], random_seed=c['seed']) if k == 'sumtree' else coax.utils.MinTree(c['cap'])
    if k == 'ou':
        return coax.utils.OrnsteinUhlenbeckNoise(random_seed=c['seed'], max_value=3.)
    if k == 'schedule':
        return coax.utils.StepwiseLinearFunction((0, 1.), (c['cap'], -2.), (c['cap'] + 5, 3.))
    return X.batch(dict(c['cfg']), range(c['n'] + 1))


def tb_leaves(tb):
    return jax.tree_util.tree_leaves([getattr(tb, f) for f in X.FIELDS]) + [tb.idx]


def run_op(c, o, step, x):
    """apply one operation to o; returns what can be observed (plain arrays)"""
    k, (name, seed, n) = c['kind'], x
    rnd = np.random.RandomState(seed)
    if k in ('simple', 'prioritized'):
        if name == 'add':
            tb = X.batch(c['cfg'], [seed + i for i in range(min(n, c['cap']))])
            o.add(tb, rnd.rand(min(n, c['cap'])).astype('float32')) if k == 'prioritized' else o.add(tb)
        elif name == 'other' and k == 'prioritized' and len(o):
            o.update([int(t.idx) for t in o][:n], rnd.rand(min(n, len(o))) * 3)
        elif name == 'other2' and k == 'prioritized':
            o.beta = .5 + rnd.rand()
            o.alpha = .5 + rnd.rand()
        elif name == 'other' and seed % 7 == 0:
            o.clear()
        out = [len(o)] + [tb_leaves(t) for t in o]
        if name == 'read' and len(o) >= 2:
            out.append(tb_leaves(o.sample(2)))
        return out
    if k in ('nstep', 'montecarlo'):
        out = []
        if name in ('add', 'other', 'other2'):
            s, a = X.obs(c['cfg']['obs'], seed), X.act(c['cfg']['act'], seed)
            try:
                o.add(s, a, float(seed), name == 'other', -float(n))
            except Exception as e:
                out.append(type(e).__name__)
        if name in ('read', 'other'):
            while o:
                out.append(tb_leaves(o.pop()))
        return out + [len(o), bool(o)]
    if k in ('sumtree', 'mintree'):
        if name in ('add', 'other'):
            o.set_values(np.array([seed % c['cap']]), np.array([rnd.rand() + .1]))
        out = [np.array(o.values), np.array(o.root_value)]
        if k == 'sumtree' and name == 'read' and float(o.root_value) > 0:
            out.append(o.sample(3))
        return out
    if k == 'ou':
        if name == 'other' and seed % 3 == 0:
            o.reset()
        return [o(np.array([seed / 100., n], 'float32'))]
    if k == 'schedule':
        return [o(seed / 50), o(step)]
    return tb_leaves(o)


def check_objects(c):
    o = new_obj(c)
    base = c['kind'] == 'batch'
    for i, x in enumerate(c['before']):
        run_op(c, o, i, x)
    p = roundtrip(o, c['how'])
    require(type(p) is type(o) and p is not o, f'loaded a {type(p).__name__}')
    q = roundtrip(o, 'bytes')
    # the copies continue exactly like the original, and independently of each other
    outs = []
    order = [[p, o], [o, p]][c['seed'] % 2] if not c['interfere'] else None
    if order is None:
        pairs = [(run_op(c, o, i, x), run_op(c, p, i, x)) for i, x in enumerate(c['after'])]
    else:
        a, b = [[run_op(c, z, i, x) for i, x in enumerate(c['after'])] for z in order]
        pairs = list(zip(a, b))
    for (a, b), x in zip(pairs, c['after']):
        la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
        require(len(la) == len(lb), f'after {x}: {len(lb)} observed values, expected {len(la)}')
        for u, v in zip(la, lb):
            if isinstance(u, str):
                require(u == v, f'after {x}: {v}, expected {u}')
            else:
                equal(v, u, f'{c["kind"]}: the loaded object continues differently from the original ({x})')
    third = [run_op(c, q, i, x) for i, x in enumerate(c['after'])]
    for a, (b, _) in zip(third, pairs):
        for u, v in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)):
            require(u == v if isinstance(u, str) else np.array_equal(u, v), f'{c["kind"]}: a loaded copy was affected by the use of the original')
    return base or bool(c['before'])


# ---- function approximators ------------------------------------------------------------------------------------------------
MODELS = [('q', 'b3', 'd4', 1, 'none', False), ('q', 'dict', 'd3', 2, 'log', False), ('v', 'b3', 'd2', 2, 'log', True), ('pi', 'b3', 'd4', 2, 'none', False), ('pi', 'b3', 'ba', 2, 'none', False),
          ('sq', 'b3', 'd4', 1, 'pair', False), ('sv', 'b3', 'd2', 2, 'none', False), ('p', 'b3', 'd3', 1, 'none', False), ('r', 'b3', 'd2', 2, 'none', True), ('sp', 'b3', 'd3', 2, 'none', False),
          ('sr', 'b3', 'd3', 1, 'none', False), ('eps',), ('boltz',)]
mod_case = lambda: st.fixed_dictionaries(dict(m=st.integers(0, len(MODELS) - 1), params=st.integers(0, 2 ** 20), seed=st.integers(0, 2 ** 30), n=st.integers(0, 5), calls=st.integers(0, 3), how=HOW))


def get_obj(i):
    cfg = MODELS[i]
    if cfg[0] in ('eps', 'boltz'):
        m = M.get('q', 'b3', 'd4', 2, 'none', False, copy=19)
        return m, m.obj, (coax.EpsilonGreedy(m.obj, epsilon=.5) if cfg[0] == 'eps' else coax.BoltzmannPolicy(m.obj, temperature=.5))
    m = M.get(*cfg, copy=19)
    return m, m.obj, m.obj


def probe(what, m, obj, k, n=3):
    """a few public calls; their results depend on parameters, state and random state"""
    out = []
    for i in range(n):
        rnd = np.random.RandomState(k * 100 + i)
        s, a = M.element(m.obs, rnd), M.element(m.act, rnd)
        if what in ('pi', 'eps', 'boltz'):
            out.append(obj(s, return_logp=True))
            out.append(obj.mode(s))
            out.append(obj.dist_params(s))
        elif what in ('v',):
            out.append(obj(s))
        elif what in ('q', 'r', 'p'):
            out.append(obj(s, a))
        elif what == 'sv':
            out += [obj(s), obj.mean(s), obj.dist_params(s)]
        else:
            out += [obj(s, a), obj.mean(s, a) if what != 'sp' else obj.mode(s, a), obj.dist_params(s, a)]
    return tree_snapshot(plain(out))


def prepare(c):
    m, fn, obj = get_obj(c['m'])
    what = MODELS[c['m']][0]
    fn.params = M.rand_params(fn.params, c['params'])
    fn.function_state = M.state(fn, c['n'])
    fn.random_seed = c['seed']
    if obj is not fn:
        obj.random_seed = c['seed'] + 1
    probe(what, m, obj, 1, c['calls'])
    return what, m, fn, obj


def check_models(c):
    what, m, fn, obj = prepare(c)
    obj2, fn2, again = roundtrip((obj, fn, obj), c['how'])
    require(obj2 is again and (fn2 is obj2) == (fn is obj), 'references within one checkpoint are not preserved')
    require(type(obj2) is type(obj) and obj2 is not obj, f'loaded a {type(obj2).__name__}')
    tree_equal(plain(fn2.params), plain(fn.params), f'{what}: parameters')
    tree_equal(plain(fn2.function_state), plain(fn.function_state), f'{what}: function state')
    b = probe(what, m, obj2, 2)
    a = probe(what, m, obj, 2)
    tree_close(b, a, f'{what}: the loaded approximator gives other results than the original', rtol=1e-5, atol=1e-5)
    keep = tree_snapshot(plain(fn.params))
    fn2.params = M.rand_params(fn2.params, c['params'] + 1)
    tree_equal(plain(fn.params), keep, f'{what}: changing the loaded approximator changes the original')
    return True


# ---- a whole learner -------------------------------------------------------------------------------------------------------
lrn_case = lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(['sarsa', 'qlearning', 'ddpg', 'a2c', 'dist', 'model']), opt=st.sampled_from(['adam', 'momentum', 'default']), seed=st.integers(0, 2 ** 20),
                                              before=st.integers(0, 4), after=st.integers(1, 4), how=HOW, parts=st.booleans()))
OPTS = dict(adam=dict(optimizer=optax.adam(.01)), momentum=dict(optimizer=optax.sgd(.05, momentum=.9)), default={})


def learner(c):
    k, o = c['kind'], OPTS[c['opt']]
    act = 'ba' if k == 'ddpg' else 'd4'
    mk = lambda *a, **kw: M.Model(*a, 'none', False, off=T.OFF, **kw)
    d = {}
    if k in ('sarsa', 'qlearning', 'ddpg', 'dist'):
        d['q'] = mk('sq' if k == 'dist' else 'q', 'b3', act, 1, variate=k == 'ddpg').obj
        d['q_targ'] = d['q'].copy()
        if k == 'ddpg':
            d['pi'] = mk('pi', 'b3', 'ba', 2).obj
            d['pi_targ'] = d['pi'].copy()
            d['upd'] = coax.td_learning.QLearning(d['q'], pi_targ=d['pi_targ'], q_targ=d['q_targ'], **o)
            d['upd2'] = coax.policy_objectives.DeterministicPG(d['pi'], d['q_targ'], **o)
        else:
            d['upd'] = (coax.td_learning.Sarsa if k == 'sarsa' else coax.td_learning.QLearning)(d['q'], q_targ=d['q_targ'], **o)
    elif k == 'a2c':
        d['v'], d['pi'] = mk('v', 'b3', act, 2).obj, mk('pi', 'b3', act, 2).obj
        d['upd'] = coax.td_learning.SimpleTD(d['v'], **o)
        d['upd2'] = coax.policy_objectives.PPOClip(d['pi'], regularizer=coax.regularizers.EntropyRegularizer(d['pi'], beta=.01), **o)
    else:
        d['p'] = mk('p', 'b3', act, 1).obj
        d['upd'] = coax.model_updaters.ModelUpdater(d['p'], **o)
    for i, f in enumerate(sorted(d)):
        if hasattr(d[f], 'params'):
            T.set_fn(d[f], c['seed'] + i, 0, .2)
    d['buffer'] = coax.experience_replay.SimpleReplayBuffer(100, random_seed=c['seed'])
    return d, act


def train(d, k, act, seeds):
    out = []
    for s in seeds:
        d['buffer'].add(T.batch('b3', act, s)[1])
        tb = d['buffer'].sample(T.B)
        if k == 'a2c':
            metrics, adv = d['upd'].update(tb, return_td_error=True)
            d['upd2'].update(tb, adv)
        else:
            metrics = d['upd'].update(tb)
            if 'upd2' in d:
                d['upd2'].update(tb)
        for x in ('q', 'pi'):
            if x + '_targ' in d:
                d[x + '_targ'].soft_update(d[x], .3)
        out.append({n: float(v) for n, v in metrics.items()})
    return out


def check_learner(c):
    d, act = learner(c)
    train(d, c['kind'], act, [c['seed'] + i for i in range(c['before'])])
    e = roundtrip(d, c['how'])
    for n in d:
        require(type(e[n]) is type(d[n]) and e[n] is not d[n], f'{n}: loaded a {type(e[n]).__name__}')
    seeds = [c['seed'] + 100 + i for i in range(c['after'])]
    keep = {n: tree_snapshot(plain(f.params)) for n, f in d.items() if hasattr(f, 'params')}
    b = train(e, c['kind'], act, seeds)
    for n, x in keep.items():
        tree_equal(plain(d[n].params), x, f'{c["kind"]}: training the loaded checkpoint changed {n} of the original')
    a = train(d, c['kind'], act, seeds)
    for x, y in zip(a, b):
        require(set(x) == set(y), f'{c["kind"]}: metrics {sorted(y)}, expected {sorted(x)}')
        for n in x:
            close(y[n], x[n], f'{c["kind"]}: metric {n} after resuming from the checkpoint', rtol=1e-4, atol=1e-5)
    for n in d:
        if hasattr(d[n], 'params'):
            tree_close(plain(e[n].params), plain(d[n].params), f'{c["kind"]}: parameters of {n} after resuming from the checkpoint', rtol=1e-4, atol=1e-5)
            moved = not all(np.array_equal(u, v) for u, v in zip(jax.tree_util.tree_leaves(plain(d[n].params)), jax.tree_util.tree_leaves(keep[n])))
            require(moved, f'{c["kind"]}: {n} was not updated')
        elif hasattr(d[n], 'optimizer_state'):
            tree_close(jax.tree_util.tree_leaves(e[n].optimizer_state), jax.tree_util.tree_leaves(d[n].optimizer_state), f'{c["kind"]}: optimizer state after resuming', rtol=1e-3, atol=1e-4)
    require(len(e['buffer']) == len(d['buffer']), 'buffer length')
    return c['before'] > 0


# ---- another process -------------------------------------------------------------------------------------------------------
proc_case = lambda: st.lists(st.fixed_dictionaries(dict(m=st.integers(0, len(MODELS) - 1), params=st.integers(0, 2 ** 20), seed=st.integers(0, 2 ** 30), n=st.integers(0, 5), calls=st.integers(0, 2))), min_size=5, max_size=5)
CHILD = '''
import sys, pickle
sys.path[:0] = {path!r}
import coax
import jax
jax.random.PRNGKey(5)
from props import p19
items = coax.utils.load({src!r})
out = []
for i, what, obs, act, obj in items:
    class m: pass
    m.obs, m.act = obs, act
    out.append(p19.probe(what, m, obj, 2, 1))
pickle.dump(out, open({dst!r}, 'wb'))
'''


def check_process(cs):
    import pickle
    d = tempfile.mkdtemp(prefix='p19_')
    try:
        items, exp = [], []
        used = set()
        for c in cs:
            if c['m'] in used or (MODELS[c['m']][0] in ('eps', 'boltz') and used & {len(MODELS) - 1, len(MODELS) - 2}):
                continue
            used.add(c['m'])
            what, m, fn, obj = prepare(c)
            items.append((c['m'], what, m.obs, m.act, obj))
        src, dst = os.path.join(d, 'sub', 'x'), os.path.join(d, 'out')
        coax.utils.dump(items, src)
        for i, what, obs, act, obj in items:
            m = get_obj(i)[0]
            exp.append(probe(what, m, obj, 2, 1))
        env = dict(os.environ)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        r = subprocess.run([sys.executable, '-c', CHILD.format(path=[here, os.path.join(here, 'vendor')], src=src, dst=dst)], capture_output=True, text=True, timeout=150, env=env)
        require(r.returncode == 0, f'a checkpoint could not be used in another process: {r.stderr[-600:]}')
        got = pickle.load(open(dst, 'rb'))
        for (i, what, *_), a, b in zip(items, exp, got):
            tree_close(b, a, f'{what}: results in another process', rtol=1e-5, atol=1e-5)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return True


SUBS = [Sub('values', val_case, check_values, quick=500, thorough=30000, budget=25),
        Sub('objects', obj_case, check_objects, quick=500, thorough=20000, budget=40, split=strata(kind=KINDS)),
        Sub('models', mod_case, check_models, quick=40, thorough=600, budget=60, split=strata(m=range(len(MODELS)))),
        Sub('learner', lrn_case, check_learner, quick=10, thorough=150, budget=60, split=strata(kind=['sarsa', 'qlearning', 'ddpg', 'a2c', 'dist', 'model'])),
        Sub('process', proc_case, check_process, quick=2, thorough=20, budget=60)]
