from hypothesis import strategies as st
from lib.pbt import Sub, Reject, require, close, equal, raises, chi2_ok
import functools
import gymnasium
import numpy as np
from coax.wrappers import BoxActionsToReals, BoxActionsToDiscrete, FrameStacking, MetaPolicyEnv

RULE = ('Cases: (wrapper, its settings, wrapped action/observation space, history of resets and steps with their actions and the scripted answers of the wrapped environment). '
        'Non-trivial: at least two accepted steps (frame stacking: more steps than frames; meta-policies: two different arms).')
ASSUMPTIONS = ['bounded Box action spaces with at least one axis', 'the wrapped environment returns an info dict (meta-policies: dict or None)']


class Env(gymnasium.Env):
    def __init__(self, action_space=None, observation_space=None, frames=None):
        self.action_space = action_space or gymnasium.spaces.Discrete(3)
        self.observation_space = observation_space or gymnasium.spaces.Discrete(100000)
        self.frames, self.k, self.calls, self.next, self.spec = frames, 0, [], (0., False, False, {}), None

    def frame(self):
        self.k += 1
        return self.k if self.frames is None else self.frames(self.k)

    def reset(self, **kwargs):
        self.calls.append(('reset', kwargs))
        return self.frame(), {'k': self.k}

    def step(self, a):
        self.calls.append(('step', a))
        r, d, t, info = self.next
        return self.frame(), r, d, t, None if info is None else dict(info)


answer = st.tuples(st.floats(-10, 10, width=32), st.booleans(), st.booleans(), st.integers(0, 3))
KW = [{}, {'seed': 3}, {'seed': 0, 'options': {'x': 1}}]


def box(c):
    dt = np.dtype(c['dtype'])
    lo = np.array(c['lo'], dt).reshape(c['shape'])
    top = np.array(c['width'], dt).reshape(c['shape'])      # the width of the box, or (negative lower bound) its upper bound
    hi = np.maximum(np.where(lo < 0, top, lo + top).astype(dt), np.nextafter(lo, np.inf, dtype=dt))
    return gymnasium.spaces.Box(lo, hi, dtype=dt)


@st.composite
def box_case(draw, kind):
    shape = draw(st.sampled_from([[1], [2], [3], [2, 2], [1, 1], [3, 1], [1, 2, 2]]))
    n = int(np.prod(shape))
    lst = lambda s: draw(st.lists(s, min_size=n, max_size=n))
    c = dict(shape=shape, dtype=draw(st.sampled_from(['float32', 'float64'])), lo=lst(st.one_of(st.floats(-100, 100, width=32), st.integers(-30, 30).map(lambda i: i / 10), st.sampled_from([0., -1., 1e6, -1e6, .1, 1e-3]))),
             width=lst(st.one_of(st.floats(.0625, 100, width=32), st.integers(1, 30).map(lambda i: i / 10), st.sampled_from([1., 2., 1e6, 1e-3, .3]))), info=draw(st.integers(0, 1)), nest=draw(st.booleans()))
    if kind == 'reals':
        real = st.one_of(st.floats(-8, 8, width=32), st.sampled_from([0., 1e15, -1e15, 50., -50., 17., -17., 1e-6]))
        c['acts'] = draw(st.lists(st.one_of(st.lists(real, min_size=n, max_size=n), st.sampled_from([[25.] * n, [-25.] * n])), min_size=1, max_size=6))
        c['bad'] = draw(st.sampled_from([None, 'shape', 'big', 'none']))
        return c
    c['tuple'] = draw(st.booleans())
    c['bins'] = lst(st.one_of(st.integers(1, 12), st.just(1000))) if c['tuple'] else [draw(st.integers(1, 12))] * n
    c['acts'] = draw(st.lists(st.lists(st.integers(0, 10 ** 6), min_size=n, max_size=n), min_size=1, max_size=6))
    c['seed'] = draw(st.integers(0, 2 ** 31))
    c['bad'] = draw(st.sampled_from([None, 'high', 'negative', 'len', 'type']))
    return c


def transition(env, base, c, k, act, depth, what):
    """step through the wrapper; the transition must come from the wrapped environment; returns the action it received"""
    base.next = (float(k), k % 2 == 0, k % 3 == 0, [{}, {'z': k}][c['info']])
    s, r, d, t, info = env.step(act)
    require(s == base.k and r == float(k) and d == (k % 2 == 0) and t == (k % 3 == 0), f'{what}: the transition of the environment was changed: {(s, r, d, t)}')
    got = base.calls[-1][1]
    require(isinstance(got, np.ndarray) and base.action_space.contains(got),
            f'{what}: the wrapped environment received {got!r} (dtype {getattr(got, "dtype", None)}), which is not an element of {base.action_space}')
    require(isinstance(info.get('a_orig'), list) and len(info['a_orig']) == depth, f'{what}: info["a_orig"] is {info.get("a_orig")!r}')
    equal(info['a_orig'][0], got, f'{what}: info["a_orig"]')
    if c['info']:
        require(info['z'] == k, f'{what}: the info of the environment was lost: {info}')
    return got


def check_reals(c):
    sp = box(c)
    base = Env(sp)
    env = BoxActionsToReals(base)
    n = int(np.prod(c['shape']))
    a_sp = env.action_space
    require(isinstance(a_sp, gymnasium.spaces.Box) and a_sp.shape == (n,), f'action_space is {a_sp}')
    require(np.all(a_sp.low <= -9e14) and np.all(a_sp.high >= 9e14), f'the action space is not (practically) unbounded: {a_sp}')
    s, info = env.reset(**KW[n % 3])
    require(base.calls[-1] == ('reset', KW[n % 3]) and s == base.k, f'reset: the environment received {base.calls[-1]}')
    lo, hi = sp.low.astype('float64'), sp.high.astype('float64')
    for k, a in enumerate(c['acts']):
        act = np.clip(np.array(a, a_sp.dtype), a_sp.low, a_sp.high)
        keep = act.copy()
        got = transition(env, base, c, k, act, 1, f'action {a}')
        x = act.astype('float64').reshape(c['shape'])
        exp = lo + (hi - lo) * np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))
        eps = 1e-5
        require(np.all(np.abs(got - exp) <= eps * ((hi - lo) + np.abs(lo) + np.abs(hi)) * .2), f'action {a}: the box action is {got}, expected {exp}')
        equal(act, keep, 'the action was modified in place')
    calls = len(base.calls)
    if c['bad'] == 'shape':
        raises(AssertionError, lambda: env.step(np.zeros(n + 1, a_sp.dtype)), 'action of the wrong shape')
    elif c['bad'] == 'big':
        raises(AssertionError, lambda: env.step(np.full(n, 2e15, a_sp.dtype)), 'action outside of the action space')
    elif c['bad'] == 'none':
        raises(NotImplementedError, lambda: BoxActionsToReals(Env()), 'environment that has discrete actions')
    require(len(base.calls) == calls, 'a rejected action reached the environment')
    return len(c['acts']) > 1


def check_discrete(c):
    sp = box(c)
    n = int(np.prod(c['shape']))
    bins = tuple(c['bins']) if c['tuple'] else c['bins'][0]
    make = lambda: (lambda b: (b, BoxActionsToDiscrete(b, bins, random_seed=c['seed'])))(Env(sp))
    (base, env), (base2, env2) = make(), make()
    nvec = np.array(c['bins'])
    if n == 1:
        require(isinstance(env.action_space, gymnasium.spaces.Discrete) and env.action_space.n == nvec[0], f'action_space is {env.action_space}')
    else:
        require(isinstance(env.action_space, gymnasium.spaces.MultiDiscrete), f'action_space is {env.action_space}')
        equal(env.action_space.nvec, nvec, 'nvec of the action space')
    env.reset(), env2.reset()
    lo, hi = sp.low.astype('float64').ravel(), sp.high.astype('float64').ravel()
    for k, a in enumerate(c['acts']):
        idx = np.array(a) % nvec
        act = int(idx[0]) if n == 1 else idx.astype('int64')
        if n == 1 and k % 2:
            act = np.int64(act)
        got = transition(env, base, c, k, act, 1, f'action {act}')
        again = transition(env2, base2, c, k, act, 1, f'action {act}')
        equal(got, again, 'two wrappers with the same random_seed')
        w = (hi - lo) / nvec
        tol = (1e-6 if c['dtype'] == 'float32' else 1e-12) * (np.abs(lo) + np.abs(hi) + (hi - lo))
        g = got.astype('float64').ravel()
        require(np.all(g >= lo + idx * w - tol) and np.all(g <= lo + (idx + 1) * w + tol), f'action {act}: the box action {g} is not in the bin [{lo + idx * w}, {lo + (idx + 1) * w}]')
    calls = len(base.calls)
    if c['bad'] in ('high', 'negative'):
        bad = nvec.copy() if c['bad'] == 'high' else np.full(n, -1)
        raises(AssertionError, lambda: env.step(int(bad[0]) if n == 1 else bad), f'action {bad} outside of the action space')
    elif c['bad'] == 'len':
        raises(ValueError, lambda: BoxActionsToDiscrete(Env(sp), tuple(c['bins']) + (2,)), 'num_bins of the wrong length')
    elif c['bad'] == 'type':
        raises(TypeError, lambda: BoxActionsToDiscrete(Env(sp), 2.5), 'num_bins=2.5')
        raises(TypeError, lambda: BoxActionsToDiscrete(Env(sp), [2] * n), 'num_bins given as a list')
        raises(NotImplementedError, lambda: BoxActionsToDiscrete(Env(), 3), 'environment that has discrete actions')
    require(len(base.calls) == calls, 'a rejected action reached the environment')
    return len(c['acts']) > 1


# wrappers around wrappers: every level records the action it passed on, innermost first
nest_case = lambda: st.fixed_dictionaries(dict(outer=st.sampled_from(['reals', 'discrete', 'reals3']), shape=st.sampled_from([[1], [2], [2, 2]]), lo=st.floats(-10, 10, width=32), width=st.floats(.5, 10, width=32),
                                               bins=st.integers(1, 6), acts=st.lists(st.lists(st.floats(-3, 3, width=32), min_size=4, max_size=4), min_size=1, max_size=5), info=st.integers(0, 1)))


def check_nest(c):
    sp = gymnasium.spaces.Box(np.float32(c['lo']), np.float32(c['lo'] + c['width']), tuple(c['shape']), 'float32')
    n = int(np.prod(c['shape']))
    base = Env(sp)
    mid = BoxActionsToReals(base)
    depth = 2
    if c['outer'] == 'discrete':
        env = BoxActionsToDiscrete(mid, c['bins'], random_seed=3)
    else:
        env = BoxActionsToReals(mid)
        if c['outer'] == 'reals3':
            env, depth = BoxActionsToReals(env), 3
    env.reset()
    lo, hi = sp.low.astype('float64').ravel(), sp.high.astype('float64').ravel()
    for k, a in enumerate(c['acts']):
        a = np.array(a[:n])
        act = a.astype(env.action_space.dtype) if c['outer'] != 'discrete' else (np.abs(a * 1000).astype('int64') % c['bins'])
        if c['outer'] == 'discrete' and n == 1:
            act = int(act[0])
        base.next = (float(k), False, False, [{}, {'z': k}][c['info']])
        s, r, d, t, info = env.step(act)
        rec = info.get('a_orig')
        require(isinstance(rec, list) and len(rec) == depth, f'info["a_orig"] of {depth} nested wrappers is {rec!r}')
        equal(rec[0], base.calls[-1][1], 'the first recorded action is the one the environment received')
        x = np.asarray(rec[1], 'float64').ravel()
        with np.errstate(over='ignore'):
            exp = lo + (hi - lo) / (1 + np.exp(-x))
        close(np.ravel(rec[0]), exp, 'the second recorded action is the one that the inner wrapper received', rtol=1e-4, atol=1e-4)
        if c['outer'] == 'discrete':
            w = 2e15 / c['bins']
            require(np.all(x >= -1e15 + np.ravel(act) * w - 1e9) and np.all(x <= -1e15 + (np.ravel(act) + 1) * w + 1e9), f'action {act}: {x} is not in its bin')
        require((r, d, t, s) == (float(k), False, False, base.k) and (not c['info'] or info['z'] == k), 'the transition of the environment was changed')
    return len(c['acts']) > 1


@st.composite
def uniform_case(draw):
    return dict(bins=[draw(st.integers(1, 5)) for _ in range(2)], act=[draw(st.integers(0, 100)) for _ in range(2)], seed=draw(st.integers(0, 2 ** 31)),
                lo=draw(st.floats(-10, 10, width=32)), width=draw(st.floats(.5, 10, width=32)))


def check_uniform(c):
    sp = gymnasium.spaces.Box(np.float32(c['lo']), np.float32(c['lo'] + c['width']), (2,), 'float32')
    base = Env(sp)
    env = BoxActionsToDiscrete(base, tuple(c['bins']), random_seed=c['seed'])
    env.reset()
    idx = np.array(c['act']) % np.array(c['bins'])
    pos = []
    for _ in range(2000):
        env.step(idx)
        x = (base.calls[-1][1].astype('float64') - sp.low) / (sp.high.astype('float64') - sp.low)
        pos.append(x * np.array(c['bins']) - idx)
    pos = np.clip(np.array(pos), 0, 1 - 1e-9)
    cell = (pos * 4).astype(int)
    counts = np.zeros((4, 4))
    np.add.at(counts, (cell[:, 0], cell[:, 1]), 1)
    chi2_ok(counts.ravel(), np.full(16, 1 / 16), 'position of the box action within its bin (both dimensions)')
    chi2_ok(np.histogram(pos.ravel(), [0, .02, .98, 1])[0], np.array([.02, .96, .02]), 'position of the box action within its bin (close to its ends)')
    return True


# ---------------------------------------------------------------------------------------------------------------------------

frame_case = lambda: st.fixed_dictionaries(dict(
    n=st.one_of(st.integers(1, 5), st.integers(1, 5), st.sampled_from([9, 17, 40])), obs=st.sampled_from(['int', 'array', 'dict']), info=st.integers(0, 1),
    ops=st.lists(st.one_of(st.tuples(st.just('step'), answer), st.tuples(st.just('step'), answer), st.tuples(st.just('step'), answer), st.tuples(st.just('reset'), st.integers(0, 2)),
                           st.tuples(st.just('bad'), st.just(0))), max_size=25)))


def check_frames(c):
    S = gymnasium.spaces
    osp = dict(int=S.Discrete(100000), array=S.Box(-1e6, 1e6, (2,), 'float32'), dict=S.Dict(a=S.Discrete(100000), b=S.Box(-1e6, 1e6, (1,), 'float32')))[c['obs']]
    mk = dict(int=lambda k: k, array=lambda k: np.array([k, -k], 'float32'), dict=lambda k: dict(a=k, b=np.array([k], 'float32')))[c['obs']]
    num = lambda f: int(f if c['obs'] == 'int' else f[0] if c['obs'] == 'array' else f['a'])
    base = Env(observation_space=osp, frames=mk)
    env = FrameStacking(base, c['n'])
    require(isinstance(env.observation_space, S.Tuple) and len(env.observation_space.spaces) == c['n'] and all(x == osp for x in env.observation_space.spaces),
            f'observation_space is {env.observation_space}')
    env.reset()
    frames, kept, steps, resets = [1] * c['n'], [], 0, 0
    for k, (o, arg) in enumerate(c['ops']):
        what = f'op {k} {o}'
        if o == 'reset':
            obs, info = env.reset(**KW[arg])
            require(base.calls[-1] == ('reset', KW[arg]), f'{what}: the environment received {base.calls[-1]}')
            require(info == {'k': base.k}, f'{what}: info {info}')
            frames = [base.k] * c['n']
            resets += 1
        elif o == 'step':
            r, d, t, _ = arg
            base.next = (r, d, t, {'y': k})
            obs, r_, d_, t_, info = env.step(1)
            require((r_, d_, t_, info) == (r, d, t, {'y': k}) and base.calls[-1] == ('step', 1), f'{what}: the transition of the environment was changed')
            frames = (frames + [base.k])[1:]
            steps += 1
        else:
            for bad in (0, -1, 1.5, '2', None):
                raises(TypeError, lambda: FrameStacking(Env(), bad), f'{what}: num_frames={bad!r}')
            continue
        require(isinstance(obs, tuple), f'{what}: the observation is a {type(obs).__name__}')
        require([num(f) for f in obs] == frames, f'{what}: frames {[num(f) for f in obs]}, expected {frames} (oldest first)')
        require(env.observation_space.contains(obs), f'{what}: the observation is not an element of the observation space')
        kept.append((obs, list(frames)))
    for obs, exp in kept:
        require([num(f) for f in obs] == exp, 'an observation that was returned earlier has changed')
    return steps > c['n']


# ---------------------------------------------------------------------------------------------------------------------------

class Arm:
    def __init__(self, kind, k):
        self.kind, self.k, self.seen = kind, k, []
        self.fn = dict(plain=self.plain, logp=self.logp, kwonly=self.kwonly, partial=functools.partial(self.two, 'x'), obj=self, lam=lambda s: self.plain(s))[kind]

    def act(self, s):
        self.seen.append(s)
        return (s + self.k) % 3

    def plain(self, s):
        return self.act(s)

    def logp(self, s, return_logp=False):
        return (self.act(s), -float(self.k)) if return_logp else self.act(s)

    def kwonly(self, s, *, return_logp=False):
        return self.logp(s, return_logp)

    def two(self, x, s, return_logp=False):
        return self.logp(s, return_logp)

    def __call__(self, s, return_logp=False):
        return self.logp(s, return_logp)


meta_case = lambda: st.fixed_dictionaries(dict(
    arms=st.lists(st.sampled_from(['plain', 'logp', 'kwonly', 'partial', 'obj', 'lam']), min_size=1, max_size=4), first=st.booleans(),
    ops=st.lists(st.one_of(st.tuples(st.just('step'), st.integers(0, 3), answer), st.tuples(st.just('step'), st.integers(0, 3), answer), st.tuples(st.just('step'), st.integers(0, 3), answer),
                           st.tuples(st.just('reset'), st.integers(0, 2)), st.tuples(st.just('bad'), st.sampled_from([-1, 4, 'a', 1.5]))), min_size=1, max_size=20)))


def check_meta(c):
    base = Env()
    arms = [Arm(kind, k) for k, kind in enumerate(c['arms'])]
    env = MetaPolicyEnv(base, *[a.fn for a in arms])
    require(isinstance(env.action_space, gymnasium.spaces.Discrete) and env.action_space.n == len(arms), f'action_space is {env.action_space}')
    if c['first']:
        raises(AssertionError, lambda: env.step(0), 'step before reset')
        require(not base.calls, 'step before reset reached the environment')
    env.reset()
    s, used = base.k, set()
    for k, op in enumerate(c['ops']):
        what = f'op {k} {op[:2]}'
        if op[0] == 'reset':
            out = env.reset(**KW[op[1]])
            require(base.calls[-1] == ('reset', KW[op[1]]) and out == (base.k, {'k': base.k}), f'{what}: reset: environment received {base.calls[-1]}, returned {out}')
            s = base.k
        elif op[0] == 'bad':
            n = len(base.calls)
            raises(AssertionError, lambda: env.step(op[1]), f'{what}: invalid meta-action')
            require(len(base.calls) == n, f'{what}: the environment was called')
        else:
            i = op[1] % len(arms)
            r, d, t, ik = op[2]
            info0 = [None, {}, {'x': k}, {'x': k, 'a': 77, 'logp': 5.}][ik]
            base.next = (r, d, t, info0)
            counts = [len(a.seen) for a in arms]
            s_, r_, d_, t_, info = env.step(np.int64(i) if k % 2 else i)
            exp_a = (s + arms[i].k) % 3
            require([len(a.seen) - n for a, n in zip(arms, counts)] == [int(j == i) for j in range(len(arms))], f'{what}: other arms than arm {i} were called (or it was called more than once)')
            require(arms[i].seen[-1] == s, f'{what}: the arm received observation {arms[i].seen[-1]}, expected {s}')
            require(base.calls[-1] == ('step', exp_a), f'{what}: the environment received {base.calls[-1]}, expected action {exp_a}')
            require((s_, r_, d_, t_) == (base.k, r, d, t), f'{what}: the transition of the environment was changed')
            exp = dict({**(info0 or {})}, a=exp_a, logp=0. if c['arms'][i] in ('plain', 'lam') else -float(arms[i].k))
            require(info == exp, f'{what}: info is {info}, expected {exp}')
            s = base.k
            used.add(i)
    return len(used) > 1


SUBS = [Sub('reals', lambda: box_case('reals'), check_reals, quick=400, thorough=30000, budget=20),
        Sub('discrete', lambda: box_case('discrete'), check_discrete, quick=400, thorough=30000, budget=20),
        Sub('nest', nest_case, check_nest, quick=150, thorough=10000, budget=15),
        Sub('uniform', uniform_case, check_uniform, quick=15, thorough=300, budget=20),
        Sub('frames', frame_case, check_frames, quick=400, thorough=30000, budget=20),
        Sub('meta', meta_case, check_meta, quick=400, thorough=30000, budget=20)]
