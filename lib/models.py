"""Function approximators whose output is a known function of their parameters, and numpy references.

Every approximator is  y = features @ W + b + (100 * is_training + 10 * n) * (1 + k / 2) for output k,  where n is a counter kept in the
function state (incremented by every forward pass), and features are a fixed function of the preprocessed
inputs.  The instances are cached because building one compiles code."""
import functools
import warnings
from collections import namedtuple
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from gymnasium.spaces import Box, Dict, Discrete, MultiBinary, MultiDiscrete, Tuple

Env = namedtuple('Env', 'observation_space action_space reward_range')
LO, HI = -5., 5.


@functools.lru_cache(None)
def space(kind):
    return dict(
        d3=lambda: Discrete(3), d5=lambda: Discrete(5), d2=lambda: Discrete(2), d4=lambda: Discrete(4), d11=lambda: Discrete(11),
        b3=lambda: Box(LO, HI, (3,), np.float32), b22=lambda: Box(np.float32([[-2, -1], [0, -3]]), np.float32([[3, .5], [.25, 2]]), dtype=np.float32),
        img=lambda: Box(0, 5, (2, 1, 2), np.uint8), md=lambda: MultiDiscrete([2, 3]), mb=lambda: MultiBinary(3),
        dict=lambda: Dict(a=Discrete(2), b=Box(LO, HI, (2,), np.float32)),
        ba=lambda: Box(-1., 1., (2,), np.float32), tup=lambda: Tuple((Discrete(2), Box(-1., 1., (1,), np.float32))),
    )[kind]()


def env(obs, act):
    return Env(space(obs), space(act), (-2., 3.))


def element(kind, rnd):
    """a random element (plain python / numpy) of the space"""
    sp = space(kind)

    def rec(s):
        if isinstance(s, Discrete):
            return int(rnd.randint(s.n))
        if isinstance(s, Box):
            x = s.low + rnd.rand(*s.shape) * (s.high - s.low)
            return np.round(x).astype(s.dtype) if s.dtype.kind in 'iu' else x.astype('float32')
        if isinstance(s, MultiDiscrete):
            return np.array([rnd.randint(n) for n in s.nvec], s.dtype)
        if isinstance(s, MultiBinary):
            return rnd.randint(2, size=s.n).astype(s.dtype)
        if isinstance(s, Dict):
            return {k: rec(s[k]) for k in s.spaces}
        return tuple(rec(x) for x in s.spaces)
    return rec(sp)


def stack(xs):
    return jax.tree_util.tree_map(lambda *l: np.stack([np.asarray(v) for v in l]), *xs)


# ---- preprocessing ---------------------------------------------------------------------------------
def pre_np(kind, x, custom):
    """preprocessed single element, flattened (float64)"""
    def rec(s, v):
        if isinstance(s, Discrete):
            return np.eye(s.n)[v]
        if isinstance(s, Box):
            return np.clip(np.asarray(v, 'float64'), s.low, s.high).ravel()
        if isinstance(s, MultiDiscrete):
            return np.concatenate([np.eye(n)[i] for n, i in zip(s.nvec, v)])
        if isinstance(s, MultiBinary):
            return np.asarray(v, 'float64').ravel()
        if isinstance(s, Dict):
            return np.concatenate([rec(s[k], v[k]) for k in sorted(s.spaces)])
        return np.concatenate([rec(a, b) for a, b in zip(s.spaces, v)])
    f = rec(space(kind), x)
    return np.concatenate([2 * f + 1, [f @ np.arange(1, f.size + 1)]]) if custom else f


def flat(X):
    leaves = jax.tree_util.tree_leaves(X)
    return jnp.concatenate([l.reshape(l.shape[0], -1).astype('float32') for l in leaves], axis=1)


def custom_pre(kind):
    from coax.utils import default_preprocessor
    base = default_preprocessor(space(kind))

    def preprocessor(rng, x):
        f = flat(base(rng, x))
        return jnp.concatenate([2 * f + 1, (f @ jnp.arange(1., f.shape[1] + 1))[:, None]], axis=1)
    return preprocessor


# ---- heads -----------------------------------------------------------------------------------------
def feats(S, A=None):
    s = flat(S)
    if A is None:
        return s
    a = flat(A)
    return jnp.concatenate([s, a, (s[:, :, None] * a[:, None, :]).reshape(s.shape[0], -1), a * a], axis=1)


def feats_np(s, a=None):
    return s if a is None else np.concatenate([s, a, np.outer(s, a).ravel(), a * a])


def head(x, shapes, is_training, off=(100., 10.)):
    """tree of outputs, one linear map per leaf; shapes: list of (name, shape)"""
    n = hk.get_state('n', (), init=jnp.zeros)
    hk.set_state('n', n + 1)
    out = []
    for name, shape in shapes:
        k = int(np.prod(shape, dtype=int))
        w = hk.get_parameter(name + '_w', (x.shape[1], k), init=hk.initializers.RandomNormal(0.1))
        b = hk.get_parameter(name + '_b', (k,), init=hk.initializers.RandomNormal(0.1))
        y = jnp.dot(x, w) + b + (off[0] * is_training + off[1] * n) * (1 + 0.5 * jnp.arange(k))
        out.append(y.reshape(x.shape[0], *shape))
    return out


def head_np(params, f, shapes, train=False, n=0., off=(100., 10.)):
    p = {k: np.asarray(v, 'float64') for k, v in params['~'].items()}
    return [(f @ p[name + '_w'] + p[name + '_b'] + (off[0] * train + off[1] * n) * (1 + 0.5 * np.arange(np.prod(shape, dtype=int)))).reshape(shape) for name, shape in shapes]


def rand_params(params, seed, scale=0.3):
    rnd = np.random.RandomState(seed)
    leaves, td = jax.tree_util.tree_flatten(params)
    return jax.tree_util.tree_unflatten(td, [jnp.asarray(rnd.randn(*x.shape) * scale, 'float32').reshape(x.shape) for x in leaves])


def state(model, n=0.):
    return jax.tree_util.tree_map(lambda x: jnp.full_like(x, n), model.function_state)


# ---- value transforms --------------------------------------------------------------------------------
def vt(kind):
    from coax.value_transforms import LogTransform
    return dict(none=None, log=LogTransform(2.), pair=(_double, _half))[kind]


def _double(x):
    return 2 * x + 1


def _half(x):
    return (x - 1) / 2


ID = lambda x: x
VT_NP = dict(none=(ID, ID), pair=(_double, _half),
             log=(lambda x: np.sign(x) * 2 * np.log1p(np.abs(x) / 2), lambda x: np.sign(x) * 2 * np.expm1(np.abs(x) / 2)))


# ---- models ------------------------------------------------------------------------------------------
class Model:
    """obj: the coax object; ref(params, s, a, train, n): flat outputs per leaf for one (s, a) (a=None: all actions)"""

    def __init__(self, what, obs, act, mtype, vt_kind, custom, bins=7, value_range=(-3., 4.), seed=None, tag='', off=(100., 10.), variate=False):
        import coax
        self.what, self.obs, self.act, self.mtype, self.vt_kind, self.custom = what, obs, act, mtype, vt_kind, custom
        self.bins, self.value_range, self.off, self.variate = bins, value_range, off, variate
        e = env(obs, act)
        kw = dict(random_seed=seed)
        if custom:
            kw['observation_preprocessor'] = custom_pre(obs)
        self.custom_act = bool(custom and custom != 'obs' and mtype == 1 and what in ('q', 'r', 'sq', 'sr', 'p', 'sp'))
        if self.custom_act:
            kw['action_preprocessor'] = custom_pre(act)
        if variate:  # the action representation of a policy
            from coax.proba_dists import ProbaDist
            kw['action_preprocessor'] = ProbaDist(space(act)).preprocess_variate
        if what in ('q', 'v', 'r', 'sv', 'sq', 'sr'):
            kw['value_transform'] = vt(vt_kind)
        if what in ('sv', 'sq', 'sr'):
            kw['num_bins'] = bins
            if value_range is not None:
                kw['value_range'] = value_range
        cls = dict(q=coax.Q, v=coax.V, r=coax.RewardFunction, sv=coax.StochasticV, sq=coax.StochasticQ, sr=coax.StochasticRewardFunction,
                   p=coax.TransitionModel, sp=coax.StochasticTransitionModel, pi=coax.Policy)[what]
        from coax.proba_dists import ProbaDist
        # output tree of one row
        if what in ('q', 'v', 'r'):
            example = np.zeros(())
        elif what in ('sv', 'sq', 'sr'):
            example = {'logits': np.zeros(bins)}
        elif what == 'p':
            if custom:
                raise ValueError('no custom preprocessor for transition models')
            example = jax.tree_util.tree_map(lambda x: x[0], ProbaDist(space(obs)).preprocess_variate(jax.random.PRNGKey(0), element(obs, np.random.RandomState(0))))
        elif what == 'sp':
            example = jax.tree_util.tree_map(lambda x: x[0], ProbaDist(space(obs)).default_priors)
        else:
            example = jax.tree_util.tree_map(lambda x: x[0], ProbaDist(space(act)).default_priors)
        leaves, td = jax.tree_util.tree_flatten(example)
        shapes = [(f'{tag}h{i}', tuple(np.shape(l))) for i, l in enumerate(leaves)]
        self.treedef, self.n_actions = td, (space(act).n if isinstance(space(act), Discrete) else None)
        if mtype == 2 and what not in ('v', 'sv', 'pi'):
            shapes = [(k, (self.n_actions, *s)) for k, s in shapes]
        self.shapes = shapes
        if mtype == 1:
            def func(S, A, is_training):
                return jax.tree_util.tree_unflatten(td, head(feats(S, A), shapes, is_training, off))
        else:
            def func(S, is_training):
                return jax.tree_util.tree_unflatten(td, head(feats(S), shapes, is_training, off))
        self.func = func
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.obj = cls(func, e, **kw)
        self.reset()

    def reset(self, seed=None, scale=0.3):
        if seed is not None:
            self.obj.params = rand_params(self.obj.params, seed, scale)
        self.obj.function_state = state(self.obj)

    def shift(self, leaf, delta):
        """add delta to the bias of one output leaf"""
        self.obj.params = jax.tree_util.tree_map(lambda x: x, type(self.obj.params)({m: {k: (v + delta if k == leaf + '_b' else v) for k, v in d.items()} for m, d in self.obj.params.items()}))

    def sfeat(self, s):
        if self.what in ('p', 'sp') and not self.custom:
            return variate_np(self.obs, s)
        return pre_np(self.obs, s, self.custom)

    def afeat(self, a):
        return variate_np(self.act, a) if self.variate else pre_np(self.act, a, self.custom_act)

    def ref(self, params, s, a=None, train=False, n=0.):
        """output tree (numpy) for one state and one action, or stacked over all actions"""
        fs = self.sfeat(s)
        if self.what in ('v', 'sv', 'pi'):
            return self._un(head_np(params, fs, self.shapes, train, n, self.off))
        if self.mtype == 1:
            if a is None:
                outs = [self.ref(params, s, b, train, n) for b in range(self.n_actions)]
                return jax.tree_util.tree_map(lambda *l: np.stack(l), *outs)
            return self._un(head_np(params, feats_np(fs, self.afeat(a)), self.shapes, train, n, self.off))
        out = self._un(head_np(params, fs, self.shapes, train, n, self.off))
        return out if a is None else jax.tree_util.tree_map(lambda l: l[a], out)

    def _un(self, leaves):
        return jax.tree_util.tree_unflatten(self.treedef, leaves)

    def S(self, ss):
        """preprocessed batch of observations"""
        return self.obj.observation_preprocessor(jax.random.PRNGKey(0), stack(ss)) if len(ss) > 1 else self.obj.observation_preprocessor(jax.random.PRNGKey(0), ss[0])

    def A(self, aa):
        return self.obj.action_preprocessor(jax.random.PRNGKey(0), stack(aa)) if len(aa) > 1 else self.obj.action_preprocessor(jax.random.PRNGKey(0), aa[0])


def logit(x):
    x = np.clip(x, 1e-15, 1 - 1e-15)
    return np.log(x) - np.log1p(-x)


def sigmoid(x):
    return 1 / (1 + np.exp(-np.asarray(x, 'float64')))


def variate_np(kind, x):
    """the distribution's representation of one element, flattened"""
    def rec(s, v):
        if isinstance(s, Discrete):
            return np.eye(s.n)[v]
        if isinstance(s, Box):
            lo, hi = s.low.astype('float64'), s.high.astype('float64')
            return logit((np.asarray(v, 'float64') - lo) / (hi - lo)).ravel()
        if isinstance(s, Dict):
            return np.concatenate([rec(s[k], v[k]) for k in sorted(s.spaces)])
        if isinstance(s, (MultiDiscrete, MultiBinary)):
            nvec = s.nvec if isinstance(s, MultiDiscrete) else [2] * s.n
            return np.concatenate([np.eye(n)[int(i)] for n, i in zip(nvec, v)])
        return np.concatenate([rec(a, b) for a, b in zip(s.spaces, v)])
    return rec(space(kind), x)


@functools.lru_cache(None)
def get(what, obs='b3', act='d4', mtype=1, vt_kind='none', custom=False, copy=0, **kw):
    return Model(what, obs, act, mtype, vt_kind, custom, **kw)
