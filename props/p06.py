from hypothesis import strategies as st
from lib.pbt import Sub, require, close, raises, tree_equal, fail
from lib import trans as T
import jax
import numpy as np
from coax.reward_tracing import MonteCarlo
from coax._base.errors import InsufficientCacheError, EpisodeDoneError

RULE = ('Cases: (gamma, observation/action/reward structure, history of add / pop / flush / reset over several episodes, incl. '
        'misuse and abandoned episodes). Non-trivial: at least two finished episodes of length >= 2 were read out.')
ASSUMPTIONS = ['log-propensities are non-positive and weights positive (required by the API)']


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        for t in range(draw(st.integers(0, 7))):
            ops.append(['add', draw(st.sampled_from([0, 1, -1, 2.5, -0.5, 10])), False])
            x = draw(st.sampled_from(['', '', '', '', 'pop', 'flush']))
            if x:
                ops.append([x])
        if draw(st.integers(0, 5)):
            ops.append(['add', draw(st.sampled_from([0, 1, -1, 2.5])), True])
        for _ in range(draw(st.integers(0, 3))):
            ops.append([draw(st.sampled_from(['pop?', 'pop?', 'flush?', 'addlate']))])
        ops.append([draw(st.sampled_from(['flush?', 'flush?', 'reset', 'drain', 'drain', 'nothing']))])
    return dict(gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 0.99, 1.0])), obs=draw(st.sampled_from(T.OBS)),
                act=draw(st.sampled_from(T.ACT)), rvec=draw(st.sampled_from([0, 0, 2])), ops=ops)


def check(c):
    g = c['gamma']
    tr = MonteCarlo(gamma=g)
    cache, done, t, episodes = [], False, 0, 0
    returned = {}     # step number -> True

    def returns():
        """full discounted return of every step in the cache's episode"""
        out, acc = {}, 0.
        for x in reversed(episode):
            acc = np.asarray(x['r'], 'float64') + g * acc
            out[x['t']] = acc
        return out

    episode = []

    def judge(tb, what):
        exp = returns()
        W = np.asarray(tb.W)
        for k in range(tb.batch_size):
            one = jax.tree_util.tree_map(lambda leaf: leaf[k], (tb.S, tb.A, tb.logP, tb.Rn, tb.In, tb.W))
            tt = int(round((float(W[k]) - 1) * 64))     # the weight encodes the step number
            x = [y for y in cache if y['t'] == tt]
            require(len(x) == 1, f'{what}: returned step {tt} which is not (or no longer) cached: {[y["t"] for y in cache]}')
            x = x[0]
            tree_equal(one[0], jax.tree_util.tree_map(np.asarray, x['s']), f'{what}: S of step {tt}')
            tree_equal(one[1], jax.tree_util.tree_map(np.asarray, x['a']), f'{what}: A of step {tt}')
            close(one[2], x['logp'], f'{what}: logP of step {tt}', rtol=1e-6)
            close(one[3], exp[tt], f'{what}: return of step {tt}', rtol=1e-5)
            close(one[4], 0., f'{what}: bootstrap factor of step {tt}', atol=0)
            cache[:] = [y for y in cache if y['t'] != tt]

    for op in c['ops']:
        k = op[0]
        if k in ('add', 'addlate'):
            t += 1
            r = op[1] if k == 'add' else 1
            rew = float(r) if not c['rvec'] else np.asarray(r, 'float64') + np.arange(c['rvec'])
            x = dict(t=t, s=T.obs(c['obs'], t), a=T.act(c['act'], t), r=rew, logp=-(t % 5) / 4, w=1 + t / 64)
            d = op[2] if k == 'add' else False
            dd = [bool, np.bool_][t % 2](d)
            if t % 7 == 4:
                x['logp'] = 0.      # the default value
            if not c['rvec'] and rew == int(rew) and t % 4 == 3:
                x['r'] = int(rew)
            call = lambda: tr.add(x['s'], x['a'], x['r'], dd, w=x['w']) if t % 7 == 4 else tr.add(x['s'], x['a'], x['r'], dd, x['logp'], x['w']) if t % 7 == 5 else \
                tr.add(s=x['s'], a=x['a'], r=x['r'], done=dd, logp=x['logp'], w=x['w'])
            if done and cache:
                raises(EpisodeDoneError, call, 'adding to a cache that holds a finished episode')
            else:
                if done:
                    episode = []
                call()
                cache.append(x)
                episode.append(x)
                done = d
        elif k in ('pop', 'pop?', 'flush', 'flush?'):
            f = tr.pop if k.startswith('pop') else tr.flush
            if done and cache:
                want = 1 if k.startswith('pop') else len(cache)
                tb = f()
                require(tb.batch_size == want, f'{k} returned {tb.batch_size} transitions, expected {want}')
                judge(tb, k)
                episodes += (not cache) and len(episode) >= 2
            else:
                raises(InsufficientCacheError, f, f'{k} before the episode has finished')
        elif k == 'drain':
            while done and cache:
                judge(tr.pop(), 'pop')
                episodes += (not cache) and len(episode) >= 2
        elif k == 'reset':
            tr.reset()
            cache, done, episode = [], False, []
        require(len(tr) == len(cache), f'after {k}: length {len(tr)}, expected {len(cache)}')
        require(bool(tr) == bool(done and cache), f'after {k}: truth value {bool(tr)}')
    return episodes >= 2


@st.composite
def case_long(draw):
    """long episodes"""
    rnd = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    ops = []
    for _ in range(2):
        for t in range(draw(st.integers(50, 700))):
            ops.append(['add', float(rnd.choice([0, 1, -1, 2.5])), False])
        ops += [['add', 1., True], [str(rnd.choice(['flush', 'drain', 'flush']))]]
    return dict(gamma=draw(st.sampled_from([0.5, 0.9, 0.99, 0.999, 1.0])), obs='int', act='int', rvec=0, ops=ops)


SUBS = [Sub('history', case, check, quick=600, thorough=20000, budget=60),
        Sub('long', case_long, check, quick=8, thorough=200, budget=50)]
