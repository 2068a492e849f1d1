from hypothesis import strategies as st
from lib.pbt import Sub, require, close, raises, strata, fail, short
from lib import models as M
import collections
import contextlib
import inspect
import io
import os
import shutil
import tempfile
import time
import gymnasium
import jax.numpy as jnp
import numpy as np
import coax

RULE = ('Cases: scripted episodes with policies, monitors and step limits; chains of nested environments; functions with static arguments; all kinds of objects. '
        'Non-trivial: per kind, more than one step / level, or an object of the library.')
ASSUMPTIONS = ['gifs are written in a scratch directory and read back with PIL']


# ---- episodes --------------------------------------------------------------------------------------------------------------
class Film(gymnasium.Env):
    observation_space = gymnasium.spaces.Discrete(10000)
    action_space = gymnasium.spaces.Discrete(3)
    render_mode = 'rgb_array'

    def __init__(self, length, how):
        self.length, self.how, self.k, self.log, self.spec = length, how, 0, [], None

    def reset(self, **kw):
        self.k = 0
        self.log.append('reset')
        return self.k * 7, {}

    def step(self, a):
        require(self.action_space.contains(a), f'the environment received {a!r}')
        self.k += 1
        self.log.append(('step', a))
        end = self.k >= self.length
        return self.k * 7, 1., end and self.how in ('done', 'both'), end and self.how in ('truncated', 'both'), {}

    def render(self):
        self.log.append(('render', self.k))
        return np.full((8, 10, 3), (self.k * 9 % 256, self.k * 5 % 200, 40), 'uint8')


ep_case = lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(['render', 'gif']), length=st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([40, 130, 300, 1100])), delay=st.sampled_from([None, 0, 5, 40, 1500]), how=st.sampled_from(['done', 'truncated', 'both']), policy=st.booleans(), monitor=st.booleans(),
                                             limit=st.one_of(st.none(), st.integers(1, 14), st.sampled_from([250, 500])), spec=st.one_of(st.none(), st.just('nolimit'), st.integers(1, 14), st.just(250)),
                                             resize=st.one_of(st.none(), st.tuples(st.integers(4, 12), st.integers(4, 12))), sub=st.booleans(), duration=st.sampled_from([20, 50, 100])))


def check_episode(c):
    from PIL import Image, ImageSequence
    if c['length'] > 300 and c['kind'] == 'gif':
        c = dict(c, length=600)
    base = Film(c['length'], c['how'])
    env = coax.wrappers.TrainMonitor(base, level=50) if c['monitor'] else base
    seen = []

    def pol(s):
        seen.append(int(s))
        return (int(s) // 7) % 3
    kw = dict(policy=pol) if c['policy'] else {}
    if c['kind'] == 'render':
        real = time.sleep
        time.sleep = lambda t: base.log.append(('sleep', float(t)))
        try:
            coax.utils.render_episode(env, **kw, **({} if c['delay'] is None else dict(step_delay_ms=c['delay'])))
        finally:
            time.sleep = real
        n = c['length']
        steps = [x for x in base.log if x[0] == 'step']
        shown = [i for i, x in enumerate(base.log) if x[0] == 'render'] + [len(base.log)]
        for k, (i, j) in enumerate(zip(shown, shown[1:])):
            got, delay = sum(x[1] for x in base.log[i:j] if x[0] == 'sleep'), (c['delay'] or 0) / 1000
            require(0 <= got <= delay + 1e-9 if k == 0 else abs(got - delay) < 1e-9 if k < n else got >= delay - 1e-9, f'state {k} of {n} is shown for {got} s, the requested delay is {delay} s')
        require(len(steps) == n and base.log.count('reset') == 1, f'the episode of {n} steps: {len(steps)} steps, {base.log.count("reset")} resets')
        require([x[1] for x in base.log if x[0] == 'render'] == list(range(n + 1)), f'rendered states: {base.log}')
    else:
        if c['spec'] is not None:
            base.spec = gymnasium.envs.registration.EnvSpec('X-v0', entry_point=Film, max_episode_steps=None if c['spec'] == 'nolimit' else c['spec'])
        d = tempfile.mkdtemp(prefix='p30_')
        try:
            f = os.path.join(d, 'a', 'b.gif') if c['sub'] else os.path.join(d, 'b.gif')
            if c['limit'] is not None:
                kw['max_episode_steps'] = c['limit']
            if c['resize'] is not None:
                kw['resize_to'] = tuple(c['resize'])
            coax.utils.generate_gif(env, f, duration=c['duration'], **kw)
            lim = c['limit'] if c['limit'] is not None else c['spec'] if isinstance(c['spec'], int) else 10 ** 9
            n = min(c['length'], lim)
            steps = [x for x in base.log if x[0] == 'step']
            require(len(steps) == n and base.log.count('reset') == 1, f'episode of {c["length"]} steps, limit {lim}: {len(steps)} steps, {base.log.count("reset")} resets')
            with Image.open(f) as im:
                require(im.format == 'GIF', f'format {im.format}')
                frames = [(fr.size, fr.convert('RGB').getpixel((1, 1)), fr.info.get('duration')) for fr in ImageSequence.Iterator(im)]
            size = tuple(c['resize']) if c['resize'] is not None else (10, 8)
            cols = []
            for s, p, _ in frames:
                require(s == size, f'frame size {s}, expected {size}')
                if not cols or cols[-1] != p:
                    cols.append(p)
            exp = [(k * 9 % 256, k * 5 % 200, 40) for k in range(1, n + 1)]
            require(cols == exp, f'the frames show {cols}, expected the states after each step {exp}')
            require(frames[0][2] == c['duration'] or n == 1, f'time between frames {frames[0][2]}, expected {c["duration"]}')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if c['policy']:
        require(seen == [7 * k for k in range(n)], f'the policy saw {seen}')
        require([x[1] for x in steps] == [k % 3 for k in range(n)], f'actions {steps}')
    if c['monitor']:
        require(env.T == 0 and env.ep == 0 and env.t == 0, f'the episode was counted by the training monitor: T={env.T}, ep={env.ep}')
    return n > 1


# ---- nested environments ---------------------------------------------------------------------------------------------------
class Layer:
    def __init__(self, env=None):
        if env is not None:
            self.env = env


attr_case = lambda: st.fixed_dictionaries(dict(layers=st.lists(st.lists(st.sampled_from(['x', 'y', 'z']), unique=True, max_size=2), min_size=1, max_size=6), depth=st.one_of(st.none(), st.integers(1, 8)),
                                               default=st.sampled_from(['no', 'none', 'val'])))


def value(n, i):
    return dict(x=(n, i), y=None if i % 2 else (n, i), z=[False, 0, ''][i % 3])[n]


def check_attr(c):
    obj = None
    for i, names in reversed(list(enumerate(c['layers']))):
        obj = Layer(obj)
        for n in names:
            setattr(obj, n, value(n, i))
    kw = {} if c['depth'] is None else dict(max_depth=c['depth'])
    for n in ('x', 'y', 'z', 'w'):
        where = [i for i, names in enumerate(c['layers']) if n in names and i < (c['depth'] or 100)]
        require(coax.utils.has_env_attr(obj, n, **kw) == bool(where), f'has_env_attr({n!r}): layers {c["layers"]}, max_depth {c["depth"]}')
        dk = dict(no={}, none=dict(default=None), val=dict(default=13))[c['default']]
        if where:
            got = coax.utils.get_env_attr(obj, n, **dk, **kw)
            require(type(got) is type(value(n, where[0])) and got == value(n, where[0]), f'get_env_attr({n!r}) is {got}, expected the one of layer {where[0]}')
        elif c['default'] == 'no':
            raises(AttributeError, lambda: coax.utils.get_env_attr(obj, n, **kw), f'get_env_attr({n!r}) which is missing')
        else:
            require(coax.utils.get_env_attr(obj, n, **dk, **kw) == dk['default'], f'get_env_attr({n!r}) with a default')
    return len(c['layers']) > 1


# ---- jit -------------------------------------------------------------------------------------------------------------------
jit_case = lambda: st.fixed_dictionaries(dict(x=st.lists(st.floats(-5, 5, width=32), min_size=2, max_size=2), k=st.integers(1, 3), flag=st.booleans(), pickle=st.booleans(), kw=st.booleans(), static=st.booleans()))


def _body(x, k, flag, y=1.):
    for _ in range(k):
        x = x * 2 + y
    return {'out': x} if flag else {'out': -x}


JIT = []


def _body1(x, k):
    for _ in range(k):
        x = x * 2 + 1
    return x


def check_jit(c):
    if not JIT:
        JIT.append(coax.utils.jit(_body, static_argnums=(1, 2)))
        JIT.append(coax.utils.loads(coax.utils.dumps(JIT[0])))
        JIT.append(coax.utils.jit(_body1, static_argnums=1))   # a single static argument, given by its number
        JIT.append(coax.utils.loads(coax.utils.dumps(JIT[2])))
    if c['static']:
        f = JIT[2 + int(c['pickle'])]
        close(f(jnp.asarray(c['x'], 'float32'), c['k']), _body1(np.array(c['x'], 'float64'), c['k']), 'compiled function with one static argument', rtol=1e-5)
        return True
    f = JIT[int(c['pickle'])]
    require(list(inspect.signature(f).parameters) == ['x', 'k', 'flag', 'y'], f'signature {inspect.signature(f)}')
    x = jnp.asarray(c['x'], 'float32')
    kw = dict(y=jnp.float32(3.)) if c['kw'] else {}
    close(f(x, c['k'], c['flag'], **kw)['out'], _body(np.array(c['x'], 'float64'), c['k'], c['flag'], **({'y': 3.} if c['kw'] else {}))['out'], 'compiled function', rtol=1e-5)
    return True


# ---- what an object is -----------------------------------------------------------------------------------------------------
KINDS = dict(q='q', sq='q', v='v', sv='v', r='r', sr='r', p='p', sp='p', pi='pi', eps='pi', boltz='pi', ssq='q')
is_case = lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(KINDS) + ['int', 'class', 'env', 'none', 'fn'])))


def check_is(c):
    k, U = c['kind'], coax.utils
    if k in ('eps', 'boltz', 'ssq'):
        q = M.get('q', 'b3', 'd4', 2).obj
        o = coax.EpsilonGreedy(q) if k == 'eps' else coax.BoltzmannPolicy(q) if k == 'boltz' else \
            coax.SuccessorStateQ(M.get('v', 'b3', 'd4', 2).obj, M.get('p', 'b3', 'd4', 1).obj, M.get('r', 'b3', 'd4', 1).obj, gamma=.9)
    elif k in KINDS:
        o = M.get(k, 'b3', 'd4', 2 if k in ('v', 'sv', 'pi') else 1).obj
    else:
        o = dict(int=3, env=Film(1, 'done'), none=None, fn=check_is)[k] if k != 'class' else coax.Q
    t = KINDS.get(k)
    for name, fn, exp in (('is_qfunction', U.is_qfunction, t == 'q'), ('is_vfunction', U.is_vfunction, t == 'v'), ('is_policy', U.is_policy, t == 'pi'), ('is_reward_function', U.is_reward_function, t == 'r'),
                          ('is_transition_model', U.is_transition_model, t == 'p')):
        if not (name == 'is_qfunction' and t == 'r'):      # reward functions are implemented as q-functions
            require(bool(fn(o)) == exp, f'{name} of {k} is {fn(o)}')
    if k not in ('eps', 'boltz'):
        require(bool(U.is_stochastic(o)) == (k in ('sq', 'sv', 'sr', 'sp', 'pi')), f'is_stochastic of {k}')
    return k in KINDS


leaf = st.one_of(st.integers(-5, 5), st.sampled_from(['a', "it's", None, True, 2.5]), st.fixed_dictionaries(dict(shape=st.lists(st.integers(0, 3), max_size=2), dtype=st.sampled_from(['float32', 'int32']), jax=st.booleans(), seed=st.integers(0, 99))))
repr_case = lambda: st.recursive(leaf, lambda c: st.builds(lambda k, x: [k, x], st.sampled_from(['list', 'tuple', 'dict', 'nt']), st.lists(c, max_size=3)), max_leaves=8)
NT = [collections.namedtuple('NT' + str(n), ['f' + str(i) for i in range(n)]) for n in range(4)]


def check_repr(c):
    """the printed form shows every element in order, arrays by shape, dtype and range"""
    def build(c):
        if isinstance(c, dict):
            x = (np.random.RandomState(c['seed']).randn(*c['shape']) * 4).astype(c['dtype']) if c['shape'] else np.asarray(c['seed'] / 2, c['dtype'])
            return jnp.asarray(x) if c['jax'] else x
        if isinstance(c, list):
            xs = [build(x) for x in c[1]]
            return dict(list=lambda: xs, tuple=lambda: tuple(xs), dict=lambda: {('k%d' % i if i else 0): x for i, x in enumerate(xs)}, nt=lambda: NT[len(xs)](*xs))[c[0]]()
        return c
    squeeze = lambda s: ''.join(s.split())
    def judge(o, text):
        """text (without white space) starts with the form of o; returns the rest"""
        def expect(text, *alternatives):
            for a in alternatives:
                if text.startswith(squeeze(a)):
                    return text[len(squeeze(a)):]
            fail(f'printed form of {short(o)}: expected {alternatives[0]!r} at {text[:80]!r}')
        if isinstance(o, (np.ndarray, jnp.ndarray)):
            text = expect(text, f'array(shape={o.shape}, dtype={o.dtype}')
            if o.size:
                x = np.asarray(o)
                text = expect(text, f', min={x.min():.3g}, median={np.median(x):.3g}, max={x.max():.3g}')
            return expect(text, ')')
        if hasattr(o, '_asdict'):
            text = expect(text, type(o).__name__ + '(')
            for i, (k, v) in enumerate(o._asdict().items()):
                text = expect(text, k + '=', ',' + k + '=')
                text = judge(v, text)
            return expect(text, ')')
        if isinstance(o, dict):
            text = expect(text, '{')
            for i, (k, v) in enumerate(o.items()):
                text = judge(v, expect(text, (',' if i else '') + repr(k) + ':'))
            return expect(text, '}')
        if isinstance(o, (list, tuple)):
            text = expect(text, '[' if isinstance(o, list) else '(')
            for i, v in enumerate(o):
                text = judge(v, expect(text, ',') if i else text)
            return expect(text, ']' if isinstance(o, list) else ')')
        return expect(text, repr(o))
    o = build(c)
    require(judge(o, squeeze(coax.utils.pretty_repr(o))) == '', f'printed form of {short(o)}: {coax.utils.pretty_repr(o)}')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        coax.utils.pretty_print(o)
    require(out.getvalue() == coax.utils.pretty_repr(o) + '\n', 'pretty_print')

    def f():
        """some docstring"""

    @coax.utils.docstring(f)
    def g(x, y):
        return x - y
    require(g.__doc__ == f.__doc__ and g(3, y=1) == 2 and g.__name__ == 'g', 'docstring decorator')
    return isinstance(c, list) and len(c[1]) > 1


SUBS = [Sub('printed', repr_case, check_repr, quick=300, thorough=10000, budget=20), Sub('episode', ep_case, check_episode, quick=250, thorough=10000, budget=30, split=strata(kind=['render', 'gif'])), Sub('attr', attr_case, check_attr, quick=400, thorough=20000, budget=15),
        Sub('jit', jit_case, check_jit, quick=60, thorough=1000, budget=20), Sub('predicates', is_case, check_is, quick=60, thorough=200, budget=40)]
