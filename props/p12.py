from hypothesis import strategies as st
from lib.pbt import Sub, require, close, equal, raises, tree_equal, short, strata, chi2_ok
from lib import spaces as S
import gymnasium
import jax
import jax.numpy as jnp
import numpy as np
from coax.utils import default_preprocessor, safe_sample, check_preprocessors, get_transition_batch

RULE = ('Cases: (space out of 22 incl. nested composites and integer boxes, seed, batch size). Non-trivial: composite space or a '
        'batch of at least two.')
ASSUMPTIONS = ['Discrete spaces start at 0', 'boxes are float32, uint8 or int32']

SPECS = S.ALL + [dict(t='boxu8', shape=[2, 3]), dict(t='boxu8', shape=[2, 3, 2]), dict(t='box', low=-2., high=1.5, shape=[1, 2, 1, 2]), dict(t='boxi32', low=-7, high=9, shape=[4]), dict(t='box', low=5., high=6., shape=[2]),
                 dict(t='box', low=-1000., high=-900., shape=[])]


def make(spec):
    if spec['t'] == 'boxu8':
        return gymnasium.spaces.Box(0, 255, tuple(spec['shape']), np.uint8)
    if spec['t'] == 'boxi32':
        return gymnasium.spaces.Box(spec['low'], spec['high'], tuple(spec['shape']), np.int32)
    return S.make(spec)


@st.composite
def case(draw):
    return dict(space=draw(st.integers(0, len(SPECS) - 1)), seed=draw(st.integers(0, 2**20)), batch=draw(st.sampled_from([1, 2, 5, 40])),
                out=draw(st.booleans()))


def contains(space, x, what):
    if isinstance(space, gymnasium.spaces.Tuple):
        require(isinstance(x, tuple) and len(x) == len(space.spaces), f'{what}: {short(x)} not in {space}')
        [contains(s, y, what) for s, y in zip(space.spaces, x)]
    elif isinstance(space, gymnasium.spaces.Dict):
        require(isinstance(x, dict) and set(x) == set(space.spaces), f'{what}: {short(x)} not in {space}')
        [contains(s, x[k], what) for k, s in space.spaces.items()]
    else:
        y = np.asarray(x) if isinstance(space, gymnasium.spaces.Box) else x
        require(space.contains(y), f'{what}: {short(x)} not in {space}')


def expect(space, X, B):
    """what the preprocessor must hand to a model, for a batch X of elements"""
    if isinstance(space, gymnasium.spaces.Discrete):
        return np.eye(space.n)[np.asarray(X).reshape(B)]
    if isinstance(space, gymnasium.spaces.Box):
        return np.clip(np.asarray(X), space.low, space.high).reshape(B, *space.shape)
    if isinstance(space, gymnasium.spaces.MultiDiscrete):
        return [np.eye(n)[np.asarray(X).reshape(B, -1)[:, i]] for i, n in enumerate(space.nvec)]
    if isinstance(space, gymnasium.spaces.MultiBinary):
        return np.asarray(X, 'float32').reshape(B, space.n)
    if isinstance(space, gymnasium.spaces.Tuple):
        return [expect(s, x, B) for s, x in zip(space.spaces, X)]
    return {k: expect(s, X[k], B) for k, s in space.spaces.items()}


def compare(got, exp, what):
    if isinstance(exp, dict):
        require(isinstance(got, dict) and set(got) == set(exp), f'{what}: keys {list(got)}')
        [compare(got[k], exp[k], f'{what}[{k}]') for k in exp]
    elif isinstance(exp, list):
        require(isinstance(got, (tuple, list)) and len(got) == len(exp), f'{what}: {short(got)}')
        [compare(g, e, f'{what}[{i}]') for i, (g, e) in enumerate(zip(got, exp))]
    else:
        close(got, exp, what, rtol=1e-6, atol=1e-6)


def check(c):
    spec = SPECS[c['space']]
    space, B = make(spec), c['batch']
    space.seed(c['seed'])
    xs = [space.sample() for _ in range(B)]
    stack = lambda ys: jax.tree_util.tree_map(lambda *l: np.stack([np.asarray(v) for v in l]), *ys)
    xs = [jax.tree_util.tree_map(np.asarray, dict(x) if isinstance(x, dict) else x) for x in xs]
    rng = jax.random.PRNGKey(c['seed'])
    f = default_preprocessor(space)
    if c['out'] and spec['t'] == 'box' and np.all(np.isfinite(space.low)):   # out-of-range observations are clipped
        xs = [x * 3 for x in xs]
    X = stack(xs)
    compare(f(rng, X), expect(space, X, B), f'preprocessed batch of {space}')
    for x in xs[:2]:
        one = stack([x])
        compare(f(rng, x), expect(space, one, 1), f'preprocessed single element of {space}')
    tree_equal(f(rng, X), jax.jit(f)(rng, X), 'preprocessing under jit')
    # sampling
    a = safe_sample(space, seed=c['seed'])
    contains(space, a, 'safe_sample')
    tree_equal(a, safe_sample(space, seed=c['seed']), 'safe_sample with the same seed')
    b = safe_sample(space, seed=np.random.RandomState(c['seed']))
    contains(space, b, 'safe_sample with a random state')
    tree_equal(b, safe_sample(space, seed=np.random.RandomState(c['seed'])), 'safe_sample with equal random states')
    require(all(np.all(np.abs(np.asarray(l, 'float64')) <= 1000) for l in jax.tree_util.tree_leaves(a)), f'safe_sample gives huge values: {short(a)}')
    raises(TypeError, lambda: default_preprocessor('x'), 'preprocessor of something that is not a space')
    return B > 1 or spec in S.COMPOSITES


@st.composite
def case_cmp(draw):
    return dict(space=draw(st.integers(0, len(S.ALL) - 1)), seed=draw(st.integers(0, 2**20)), kind=draw(st.sampled_from(['same', 'shift', 'struct', 'third', 'partly', 'partly', 'small', 'number'])))


def default_mid(space):
    lo, hi = np.ravel(space.low)[0], np.ravel(space.high)[0]
    return np.float32(0. if np.isinf(lo) else (lo + hi) / 2)


def check_cmp(c):
    space = S.make(S.ALL[c['space']])
    space.seed(c['seed'])
    f = default_preprocessor(space)
    g = default_preprocessor(space)
    shift = lambda rng, x: jax.tree_util.tree_map(lambda y: y + 0.5, f(rng, x))
    struct = lambda rng, x: {'wrapped': f(rng, x)}
    run = lambda *ps: check_preprocessors(space, *ps, num_samples=3, random_seed=c['seed'])
    if c['kind'] == 'same':
        require(run(f, g) is True and run(f, f, g) is True, 'identical preprocessors reported as different')
    elif c['kind'] == 'shift':
        require(run(f, shift) is False and run(shift, f) is False, 'different preprocessors reported as identical')
    elif c['kind'] == 'small':   # a relative difference of 1e-3 is far beyond rounding
        tiny = lambda rng, x: jax.tree_util.tree_map(lambda y: y * np.float32(1.001) if jnp.issubdtype(y.dtype, jnp.floating) else y + 1, f(rng, x))
        x = [f(jax.random.PRNGKey(0), space.sample()) for _ in range(4)]
        if not all(np.any(np.abs(np.asarray(l, 'float64')) > 1e-3) for y in x for l in jax.tree_util.tree_leaves(y)):
            return False
        require(run(f, tiny) is False, 'preprocessors that differ by a factor of 1.001 reported as identical')
    elif c['kind'] == 'number':   # differing on half of the elements goes unnoticed with probability 2^-num_samples
        space = gymnasium.spaces.Discrete(2)
        space.seed(c['seed'])
        if c['seed'] % 4:   # costly
            return False
        k = 5 + c['seed'] // 4 % 2
        a, b = lambda rng, x: np.array([1. * x]), lambda rng, x: np.array([2. * x])
        miss = sum(check_preprocessors(space, a, b, num_samples=k, random_seed=c['seed'] + i) for i in range(1500))
        chi2_ok([miss, 1500 - miss], [2. ** -k, 1 - 2. ** -k], f'comparisons of {k} samples that notice no difference')
    elif c['kind'] == 'struct':
        require(run(f, struct) is False, 'preprocessors with different structure reported as identical')
    elif c['kind'] == 'partly':
        # differ on about half of the elements only: 60 samples practically always contain one of them
        if S.ALL[c['space']]['t'] == 'discrete' and S.ALL[c['space']]['n'] > 1:
            part = lambda rng, x: jax.tree_util.tree_map(lambda y: y * jnp.asarray([1.] + [2.] * (y.shape[-1] - 1)), f(rng, x))
        elif S.ALL[c['space']]['t'] == 'box':
            mid = default_mid(space)
            part = lambda rng, x: jnp.where(jnp.ravel(f(rng, x))[0] > mid, f(rng, x) + 1., f(rng, x))
        else:
            return False
        require(check_preprocessors(space, f, part, num_samples=60, random_seed=c['seed']) is False, 'preprocessors that differ on half of the elements reported as identical')
    else:
        require(run(f, g, shift) is False and run(f, shift, g) is False and run(shift, f, g) is False, 'a third, different preprocessor goes unnoticed')
    raises(ValueError, lambda: check_preprocessors(space, f), 'comparison of fewer than two preprocessors')
    return True


@st.composite
def case_tb(draw):
    return dict(obs=draw(st.integers(0, len(S.ALL) - 1)), act=draw(st.integers(0, len(S.ALL) - 1)), n=draw(st.one_of(st.integers(1, 6), st.sampled_from([17, 32, 40]))),
                gamma=draw(st.sampled_from([0., 0.5, 0.9, 1.])), seed=draw(st.integers(0, 2**20)))


def check_tb(c):
    class Env:
        observation_space, action_space = S.make(S.ALL[c['obs']]), S.make(S.ALL[c['act']])
    tb = get_transition_batch(Env, batch_size=c['n'], gamma=c['gamma'], random_seed=c['seed'])
    tb2 = get_transition_batch(Env, batch_size=c['n'], gamma=c['gamma'], random_seed=c['seed'])
    require(tb == tb2, 'same seed, same batch')
    require(tb.batch_size == c['n'], 'batch size')
    for name, space in [('S', Env.observation_space), ('S_next', Env.observation_space), ('A', Env.action_space), ('A_next', Env.action_space)]:
        for i in range(c['n']):
            x = jax.tree_util.tree_map(lambda l: l[i], getattr(tb, name))
            contains(space, x, f'{name}[{i}]')
    require(np.all(np.asarray(tb.logP) <= 0) and np.all(np.asarray(tb.logP_next) <= 0), 'log-propensities are positive')
    require(np.all(np.isin(tb.In, [0, c['gamma']])) and np.all(tb.W > 0), 'bootstrap factors / weights')
    for k in ('logP', 'Rn', 'In', 'logP_next', 'W', 'idx'):
        require(np.shape(getattr(tb, k)) == (c['n'],), f'{k} has shape {np.shape(getattr(tb, k))}')
    return c['n'] > 1


SUBS = [Sub('preprocess', case, check, quick=200, thorough=4000, budget=60, split=strata(space=range(len(SPECS)))),
        Sub('compare', case_cmp, check_cmp, quick=40, thorough=600, budget=40, split=strata(kind=['same', 'shift', 'struct', 'third', 'partly', 'small', 'number'])),
        Sub('synthetic_batch', case_tb, check_tb, quick=100, thorough=1500, budget=30)]
