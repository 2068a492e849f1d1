from hypothesis import strategies as st
from lib.pbt import Sub, require, equal, close, raises, tree_equal, short
from lib import trans as T
import numpy as np
from coax.reward_tracing import NStep
from coax._base.errors import InsufficientCacheError, EpisodeDoneError

RULE = ('Cases: (n 1..6, gamma incl. 0 and 1, observation/action/reward structure, history of add / pop / flush / reset over several '
        'episodes, incl. misuse). Non-trivial: an episode end was popped past and at least one popped transition bootstraps.')
ASSUMPTIONS = ['log-propensities are non-positive and weights positive (required by the API)',
               'next state/action/log-propensity of a non-bootstrapping transition is a placeholder and not judged']


@st.composite
def case(draw):
    n = draw(st.integers(1, 6))
    ops = []
    for _ in range(draw(st.integers(1, 6))):      # episodes
        for t in range(draw(st.integers(0, 9))):
            ops.append(['add', draw(st.sampled_from([0, 1, -1, 2.5, -0.5, 10])), False])
            x = draw(st.sampled_from(['', '', '', 'pop?', 'pop?', 'flush?', 'pop', 'flush']))
            if x:
                ops.append([x])
        if draw(st.integers(0, 4)):
            ops.append(['add', draw(st.sampled_from([0, 1, -1, 2.5])), True])
        for _ in range(draw(st.integers(0, 3))):
            ops.append([draw(st.sampled_from(['pop?', 'pop?', 'pop', 'flush?', 'addlate', 'flush']))])
        ops.append([draw(st.sampled_from(['flush?', 'flush?', 'reset', 'drain', 'drain', 'nothing']))])
    return dict(n=n, gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 0.99, 1.0])), obs=draw(st.sampled_from(T.OBS)),
                act=draw(st.sampled_from(T.ACT)), rvec=draw(st.sampled_from([0, 0, 2])), extra=draw(st.booleans()), ops=ops)


def check(c):
    n, g = c['n'], c['gamma']
    tr = NStep(n=n, gamma=g, record_extra_info=True) if c['extra'] else NStep(n=n, gamma=g)
    cache, done, t = [], False, 0
    boot = ended = False

    def poppable():
        return bool(cache) and (done or len(cache) > n)

    def expect():
        """reference computation for the oldest cached step"""
        gs = np.power(g, np.arange(n))
        rn = sum(w * np.asarray(x['r'], 'float64') for w, x in zip(gs, cache[:n]))
        nxt = cache[n] if len(cache) > n else None
        ex = [cache[min(i, len(cache) - 1)] for i in range(n + 1)]
        dones = [bool(done and i >= len(cache) - 1) for i in range(n + 1)]
        return cache[0], rn, nxt, ex, dones

    def judge(tb, e, what):
        x, rn, nxt, ex, dones = e
        require(tb.batch_size == 1, f'{what}: batch_size {tb.batch_size}')
        judge_fields(tb, [e], what)

    def judge_fields(tb, es, what):
        tree_equal(tb.S, T.stack([e[0]['s'] for e in es]), f'{what}: S')
        tree_equal(tb.A, T.stack([e[0]['a'] for e in es]), f'{what}: A')
        close(tb.logP, [e[0]['logp'] for e in es], f'{what}: logP', rtol=1e-6)
        close(tb.W, [e[0]['w'] for e in es], f'{what}: W', rtol=1e-6)
        close(tb.Rn, np.stack([e[1] for e in es]), f'{what}: n-step return', rtol=1e-5)
        close(tb.In, [g ** n if e[2] is not None else 0. for e in es], f'{what}: bootstrap factor', rtol=1e-6, atol=1e-9)
        import jax
        for k, e in enumerate(es):
            if e[2] is None:
                continue
            pick = lambda tree: jax.tree_util.tree_map(lambda leaf: leaf[k], tree)
            tree_equal(pick(tb.S_next), jax.tree_util.tree_map(np.asarray, e[2]['s']), f'{what}: S_next of entry {k}')
            tree_equal(pick(tb.A_next), jax.tree_util.tree_map(np.asarray, e[2]['a']), f'{what}: A_next of entry {k}')
            close(tb.logP_next[k], e[2]['logp'], f'{what}: logP_next of entry {k}', rtol=1e-6)
        if not c['extra']:
            require(tb.extra_info is None, f'{what}: extra_info recorded without being asked for')
            return
        info = tb.extra_info
        for key, f in [('states', 's'), ('actions', 'a'), ('rewards', 'r'), ('log_props', 'logp'), ('weights', 'w')]:
            require(len(info[key]) == n + 1, f'{what}: extra_info[{key}] has {len(info[key])} entries, expected {n + 1}')
            for i in range(n + 1):
                got, exp = info[key][i], T.stack([e[3][i][f] for e in es])
                if f in 'sa':
                    tree_equal(got, exp, f'{what}: extra_info[{key}][{i}]')
                else:
                    close(got, exp, f'{what}: extra_info[{key}][{i}]', rtol=1e-6)
        for i in range(n + 1):
            equal(info['dones'][i], [e[4][i] for e in es], f'{what}: extra_info[dones][{i}]')

    def do_pop():
        nonlocal boot, ended
        e = expect()
        judge(tr.pop(), e, f'pop (n={n}, gamma={g})')
        boot |= e[2] is not None
        ended |= e[2] is None
        cache.pop(0)

    def do_flush():
        nonlocal boot, ended
        es = []
        while poppable():
            es.append(expect())
            cache.pop(0)
        tb = tr.flush()
        require(tb.batch_size == len(es), f'flush returned {tb.batch_size} transitions, expected {len(es)}')
        judge_fields(tb, es, f'flush (n={n}, gamma={g})')
        boot |= any(e[2] is not None for e in es)
        ended |= any(e[2] is None for e in es)

    def mk(r):
        nonlocal t
        t += 1
        rew = float(r) if not c['rvec'] else np.asarray(r, 'float64') + np.arange(c['rvec'])
        if not c['rvec'] and rew == int(rew) and t % 4 == 3:
            rew = int(rew)
        x = dict(s=T.obs(c['obs'], t), a=T.act(c['act'], t), r=rew, logp=-(t % 5) / 4, w=1 + (t % 3) / 2)
        return dict(x, logp=0., w=1.) if t % 7 == 4 else x      # sometimes the default values

    for op in c['ops']:
        k = op[0]
        if k == 'add' or k == 'addlate':
            x = mk(op[1] if k == 'add' else 1)
            d = op[2] if k == 'add' else False
            dd = [bool, np.bool_][t % 2](d)
            call = lambda: tr.add(x['s'], x['a'], x['r'], dd) if t % 7 == 4 else tr.add(x['s'], x['a'], x['r'], dd, x['logp'], x['w']) if t % 7 == 5 else \
                tr.add(s=x['s'], a=x['a'], r=x['r'], done=dd, logp=x['logp'], w=x['w'])
            if done and cache:
                raises(EpisodeDoneError, call, 'adding to a cache that holds a finished episode')
            else:
                call()
                cache.append(x)
                done = d
        elif k in ('pop', 'pop?'):
            if poppable():
                do_pop()
            elif k == 'pop':
                raises(InsufficientCacheError, tr.pop, f'pop with {len(cache)} cached steps, done={done}')
        elif k in ('flush', 'flush?'):
            if poppable():
                do_flush()
            elif k == 'flush':
                raises(InsufficientCacheError, tr.flush, f'flush with {len(cache)} cached steps, done={done}')
        elif k == 'drain':
            while poppable():
                require(bool(tr), 'tracer claims to have nothing to pop')
                do_pop()
        elif k == 'reset':
            tr.reset()
            cache, done = [], False
        require(len(tr) == len(cache), f'after {k}: length {len(tr)}, expected {len(cache)}')
        require(bool(tr) == poppable(), f'after {k}: truth value {bool(tr)} with {len(cache)} cached, n={n}, done={done}')
    return boot and ended


@st.composite
def case_long(draw):
    """long episodes and horizons"""
    rnd = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    ops, rate = [], draw(st.sampled_from([0, 0, .03]))
    for _ in range(draw(st.integers(1, 2))):
        for t in range(draw(st.integers(50, 1200))):
            ops.append(['add', float(rnd.choice([0, 1, -1, 2.5])), False])
            if rnd.rand() < rate:
                ops.append([str(rnd.choice(['pop?', 'flush?', 'pop?', 'pop', 'flush']))])
        ops += [['add', 1., True], [str(rnd.choice(['flush', 'drain', 'flush']))]]
    return dict(n=draw(st.one_of(st.integers(1, 6), st.integers(7, 60))), gamma=draw(st.sampled_from([0.5, 0.9, 0.99, 0.999, 1.0])), obs='int', act='int', rvec=0,
                extra=draw(st.integers(0, 3)) == 0, ops=ops)


SUBS = [Sub('history', case, check, quick=500, thorough=20000, budget=70),
        Sub('long', case_long, check, quick=8, thorough=200, budget=50)]
