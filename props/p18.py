from hypothesis import strategies as st
from lib.pbt import Sub, require, close, raises, tree_equal, tree_snapshot, chi2_ok, plain, strata
from lib import models as M
from scipy.special import log_softmax, softmax
import jax
import jax.numpy as jnp
import numpy as np
import coax

RULE = ('Cases: (kind of q-function, model type, parameters, function state, observation(s), epsilon or temperature, how it was set). Non-trivial: the values of the '
        'actions are not all equal.')
ASSUMPTIONS = ['greedy ties are judged for exactly equal values only']

CONFIGS = [('q', 'b3', 'd4', 1, 'none', False), ('q', 'b3', 'd11', 2, 'none', False), ('q', 'dict', 'd2', 1, 'none', True), ('sq', 'b3', 'd4', 1, 'none', False),
           ('sq', 'd3', 'd3', 2, 'none', False), ('q', 'd3', 'd3', 2, 'log', False),
           ('q', 'd3', 'd4', 2, 'none', False), ('q', 'd3', 'd4', 1, 'none', False)]
_pol = {}


def values(m, params, s, n):
    y = m.ref(params, s, n=n)
    if m.what == 'sq':
        lo, hi = m.value_range
        w = (hi - lo) / m.bins
        return softmax(y['logits'], axis=-1) @ (lo + w * (np.arange(m.bins) + .5))
    return M.VT_NP[m.vt_kind][1](np.asarray(y))


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['eps', 'boltz']))
    return dict(kind=kind, cfg=draw(st.integers(0, 9)), ints=draw(st.integers(0, 2)), tiny=draw(st.sampled_from([1., 1., 2. ** -30])), p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), n=draw(st.integers(0, 2)), tie=draw(st.booleans()),
                eps=draw(st.sampled_from([0., 1., 0.1, 0.5, 1e-3, 1e-4, 0.999]) | st.floats(0, 1, width=32)), temp=draw(st.sampled_from([0.02, 1., 10., 0.5, 0.001, 0.3])),
                how=draw(st.sampled_from(['attr', 'params', 'call'])), seed=draw(st.integers(0, 2**20)))


def build(m, cfg, kind):
    if (cfg, kind) not in _pol:
        _pol[cfg, kind] = coax.EpsilonGreedy(m.obj) if kind == 'eps' else coax.BoltzmannPolicy(m.obj)
    return _pol[cfg, kind]


def check(c):
    exact = c['cfg'] >= 6     # small integer values: computed without rounding, partial ties
    c = dict(c, cfg=6 + c['cfg'] % 2 if exact else c['cfg'], tie=c['tie'] and not exact)
    m = M.get(*CONFIGS[c['cfg']])
    q = m.obj
    m.reset(c['p'], scale=0.2)
    if exact:
        r = np.random.RandomState(c['p'])
        q.params = jax.tree_util.tree_map(lambda x: jnp.asarray(r.randint(0, 1 + c['ints'], size=x.shape) * c.get('tiny', 1.), 'float32'), q.params)      # tiny: different values that are close
        c = dict(c, n=0)
    if c['tie']:
        q.params = jax.tree_util.tree_map(jnp.zeros_like, q.params)
    c = dict(c, n=0 if c['tie'] else c['n'])
    q.function_state = M.state(q, c['n'] / 10)
    pi = build(m, c['cfg'], c['kind'])
    require(pi.q is q, 'the q-function of the policy')
    name, val = ('epsilon', c['eps']) if c['kind'] == 'eps' else ('temperature', c['temp'])
    rnd = np.random.RandomState(c['x'])
    ss = [M.element(m.obs, rnd) for _ in range(3)]
    s = ss[0]
    params, fstate = q.params, q.function_state
    if c['how'] == 'attr':
        setattr(pi, name, val)
    elif c['how'] == 'params':
        setattr(pi, name, val)
        old, snap = q.params, pi.params
        q.params = M.rand_params(q.params, 99)
        setattr(pi, name, 0.3)
        close(pi.params[name], 0.3, name)
        pi.params = snap
        tree_equal(q.params, old, 'parameters of q after assigning those of the policy')
        close(getattr(pi, name), val, name)
        raises(TypeError, lambda: setattr(pi, 'params', {'q': old}), 'parameters of another structure')
    else:
        setattr(pi, name, val)
    tree_equal(plain(pi.params['q']), plain(q.params), 'the q-parameters of the policy are those of q')
    close(pi.params[name], val, name)
    tree_equal(plain(pi.function_state), plain(q.function_state), 'function state')
    before = tree_snapshot((q.params, q.function_state))

    def probs(s):
        """expected action probabilities, or None where float32 rounding may decide"""
        v = values(m, params, s, c['n'] / 10)
        K = v.size
        if c['kind'] == 'boltz':
            return softmax(v / val)
        gap = v.max() - v
        if not (c['tie'] or exact) and K > 1 and np.sort(gap)[1] < 1e-4 * (1 + abs(v).max()):
            return None
        g = np.ones(K) if c['tie'] else (gap == 0).astype(float)
        g /= g.sum()
        return (1 - val) * g + val / K

    tol = 1e-6 if c['kind'] == 'eps' else 1e-5 if exact else min(0.2, 2e-3 + 4e-4 / val)
    P = probs(s)
    if P is not None:
        close(softmax(np.asarray(pi.dist_params(s)['logits'], 'float64')), P, 'action probabilities', rtol=2e-4, atol=tol)
        if exact and c['kind'] == 'boltz':
            close(log_softmax(np.asarray(pi.dist_params(s)['logits'], 'float64')), log_softmax(values(m, params, s, 0.) / val), 'log-probabilities', rtol=1e-4, atol=1e-4)
        if c['kind'] == 'eps':
            l = log_softmax(np.asarray(pi.dist_params(s)['logits'], 'float64'))
            close(l, np.log(P + 1e-15), 'log-probabilities', rtol=1e-3, atol=1e-2)
        a = pi.mode(s)
        require(m.obj.action_space.contains(a), f'mode {a!r}')
        v = values(m, params, s, c['n'] / 10)
        if c['kind'] == 'boltz' or val < 0.99:
            require(v[a] >= v.max() - 1e-3 * (1 + abs(v).max()), f'mode picks {a} of {v}')
    # batched, with the parameters it is given
    S = m.S(ss)
    key = jax.random.PRNGKey(c['seed'])
    dp, _ = pi.function(pi.params, pi.function_state, key, S, True)
    for row, x in zip(np.asarray(dp['logits'], 'float64'), ss):
        P = probs(x)
        if P is not None:
            close(softmax(row), P, 'batched action probabilities', rtol=2e-4, atol=tol)
    # sampling
    q.random_seed = c['seed']
    acts = [pi(s) for _ in range(4)]
    q.random_seed = c['seed']
    for a in acts:
        b, lp = pi(s, return_logp=True)
        require(m.obj.action_space.contains(a) and a == b, 'samples are determined by the seed of q')
        require(np.shape(lp) == () and float(lp) <= 1e-3, f'log-propensity {lp}')
    if c['kind'] == 'eps' and val == 0. and not c['tie'] and probs(s) is not None:
        require(all(probs(s)[a] > 0 for a in acts), 'epsilon = 0 must be greedy')
    tree_equal((q.params, q.function_state), before, 'parameters and state after acting')
    return not c['tie']


@st.composite
def case_freq(draw):
    return dict(kind=draw(st.sampled_from(['eps', 'boltz'])), cfg=draw(st.sampled_from([1, 0])), p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)),
                eps=draw(st.sampled_from([0., 0.1, 0.5, 1.])), temp=draw(st.sampled_from([1., 3.])), seed=draw(st.integers(0, 2**20)))


def check_freq(c):
    m = M.get(*CONFIGS[c['cfg']])
    m.reset(c['p'], scale=0.2)
    q = m.obj
    pi = build(m, c['cfg'], c['kind'])
    if c['kind'] == 'eps':
        pi.epsilon = c['eps']
    else:
        pi.temperature = c['temp']
    s = M.element(m.obs, np.random.RandomState(c['x']))
    v = values(m, q.params, s, 0.)
    gap = np.sort(v.max() - v)[1]
    q.random_seed = c['seed']
    N = 400
    acts = [pi(s) for _ in range(N)]
    if c['kind'] == 'boltz':
        P = softmax(v / c['temp'])
    else:
        if gap < 1e-3:
            return False
        P = (1 - c['eps']) * (v == v.max()) + c['eps'] / v.size
    chi2_ok(np.bincount(acts, minlength=v.size), P, 'action frequencies')
    return True


@st.composite
def case_random(draw):
    return dict(kind=draw(st.sampled_from(['d', 'box', 'dict'])), n=draw(st.integers(1, 6)), lo=draw(st.sampled_from([-1., 0., -7.5])), w=draw(st.sampled_from([0.5, 1., 8.])),
                shape=draw(st.sampled_from([[], [1], [3], [2, 2]])), seed=draw(st.integers(0, 2**31 - 1)))


def check_random(c):
    import gymnasium as gym

    def space():
        return {'d': lambda: gym.spaces.Discrete(c['n']), 'box': lambda: gym.spaces.Box(c['lo'], c['lo'] + c['w'], tuple(c['shape']), np.float32),
                'dict': lambda: gym.spaces.Dict(a=gym.spaces.Discrete(c['n']), b=gym.spaces.MultiBinary(2))}[c['kind']]()

    runs = []
    for _ in range(2):
        pi = coax.RandomPolicy(M.Env(M.space('b3'), space(), None), random_seed=c['seed'])
        runs.append([pi(None) for _ in range(60)])
    for a, b in zip(*runs):
        require(pi.action_space.contains(a), f'{a!r} is no action')
        tree_equal(jax.tree_util.tree_map(np.asarray, a), jax.tree_util.tree_map(np.asarray, b), 'same seed, same actions')
    require(pi.action_space.contains(pi.mode(None)), 'mode')
    if c['kind'] == 'd':
        chi2_ok(np.bincount(runs[0], minlength=c['n']), np.ones(c['n']) / c['n'], 'uniform actions', z=7)
        a, lp = pi(None, return_logp=True)
        close(lp, -np.log(c['n']), 'log-propensity', shape=False)
        close(softmax(np.asarray(pi.dist_params(None)['logits'])), np.ones(c['n']) / c['n'], 'distribution parameters')
    elif c['kind'] == 'box':
        a, lp = pi(None, return_logp=True)
        size = int(np.prod(c['shape'], dtype=int))
        close(lp, -size * np.log(c['w']), 'log-density', shape=False)
        require(pi.action_space.contains(a), 'action')
        dp = pi.dist_params(None)
        require(np.shape(dp['mu']) == tuple(c['shape']) and np.shape(dp['logvar']) == tuple(c['shape']), 'shape of the distribution parameters')
    else:
        raises(NotImplementedError, lambda: pi(None, return_logp=True), 'log-propensity of a composite space')
    raises(TypeError, lambda: coax.RandomPolicy(M.Env(M.space('b3'), 'x', None)), 'action space that is not a space')
    return True


@st.composite
def case_bad(draw):
    return dict(kind=draw(st.sampled_from(['eps', 'boltz'])), bad=draw(st.sampled_from(['v', 'pi', 'box', 'none'])))


def check_bad(c):
    cls = coax.EpsilonGreedy if c['kind'] == 'eps' else coax.BoltzmannPolicy
    q = dict(v=lambda: M.get('v', 'b3', 'd2', 2, 'none', False).obj, pi=lambda: M.get('pi', 'b3', 'd4', 2, 'none', False).obj,
             box=lambda: M.get('q', 'b3', 'ba', 1, 'none', False).obj, none=lambda: None)[c['bad']]()
    raises(TypeError, lambda: cls(q), f'{cls.__name__} of {type(q)}')
    return True


SUBS = [Sub('policy', case, check, quick=200, thorough=3000, budget=80, split=strata(kind=['eps', 'boltz'], cfg=range(10))),
        Sub('frequencies', case_freq, check_freq, quick=20, thorough=200, budget=50, split=strata(kind=['eps', 'boltz'], cfg=[1, 0])),
        Sub('random', case_random, check_random, quick=80, thorough=800, budget=30, split=strata(kind=['d', 'box', 'dict'])),
        Sub('reject', case_bad, check_bad, quick=8, thorough=8, budget=20, split=strata(kind=['eps', 'boltz'], bad=['v', 'pi', 'box', 'none']))]
