"""Gymnasium spaces from plain data, and reference distributions over them (numpy, float64)."""
import functools
import json
import math
import warnings
import numpy as np
from gymnasium import spaces as gs
from hypothesis import strategies as st

LEAVES = [
    dict(t='discrete', n=2), dict(t='discrete', n=3), dict(t='discrete', n=7), dict(t='discrete', n=1),
    dict(t='box', low=-1., high=1., shape=[3]), dict(t='box', low=-0.1, high=0.3, shape=[]),
    dict(t='box', low=[0.1, -5.3, 2.], high=[0.7, 9.7, 2.5], shape=[3]), dict(t='box', low=-3.3, high=-1.1, shape=[2, 2]),
    dict(t='box', low=-np.inf, high=np.inf, shape=[2]), dict(t='box', low=0., high=1., shape=[1]),
]
COMPOSITES = [
    dict(t='multidiscrete', nvec=[2, 3, 5]), dict(t='multibinary', n=4), dict(t='multidiscrete', nvec=[4]),
    dict(t='tuple', of=[LEAVES[1], LEAVES[4]]), dict(t='tuple', of=[LEAVES[0], LEAVES[2]]),
    dict(t='dict', of=[['foo', LEAVES[1]], ['bar', LEAVES[6]]]),
    dict(t='dict', of=[['z', dict(t='tuple', of=[LEAVES[0], LEAVES[5]])], ['a', dict(t='multidiscrete', nvec=[3, 2])]]),
    dict(t='tuple', of=[dict(t='dict', of=[['b', LEAVES[9]], ['a', LEAVES[2]]]), dict(t='multibinary', n=2), LEAVES[7]]),
]
LARGE = [
    dict(t='multidiscrete', nvec=[2, 3, 2, 5, 2, 4, 3, 2, 2, 6, 2, 3]), dict(t='box', low=-2., high=1.5, shape=[2, 1, 3]),
    dict(t='tuple', of=[dict(t='discrete', n=2 + k % 3) if k % 4 else dict(t='box', low=-1. - k, high=1., shape=[1 + k % 2]) for k in range(11)]),
    dict(t='dict', of=[[f'k{k}', dict(t='discrete', n=2 + k % 3) if k % 3 else dict(t='box', low=-1. - k, high=1., shape=[1])] for k in range(11)]),
    dict(t='discrete', n=100), dict(t='multidiscrete', nvec=[1, 3]),
    dict(t='dict', of=[['u', LEAVES[1]], ['v', LEAVES[4]], ['w', LEAVES[1]], ['x', LEAVES[4]], ['y', dict(t='tuple', of=[LEAVES[1], LEAVES[1]])]]),
]
ALL = LEAVES + COMPOSITES + LARGE


def key(spec):
    return json.dumps(spec, sort_keys=True)


def make(spec):
    t = spec['t']
    if t == 'discrete':
        return gs.Discrete(spec['n'])
    if t == 'box':
        low = np.broadcast_to(np.asarray(spec['low'], 'float32'), spec['shape'])
        high = np.broadcast_to(np.asarray(spec['high'], 'float32'), spec['shape'])
        return gs.Box(np.array(low), np.array(high), dtype=np.float32)
    if t == 'multidiscrete':
        return gs.MultiDiscrete(spec['nvec'])
    if t == 'multibinary':
        return gs.MultiBinary(spec['n'])
    if t == 'tuple':
        return gs.Tuple([make(x) for x in spec['of']])
    if t == 'dict':
        return gs.Dict({k: make(x) for k, x in spec['of']})
    raise KeyError(t)


@functools.lru_cache(None)
def _dist(k):
    from coax.proba_dists import ProbaDist
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ProbaDist(make(json.loads(k)))


def dist(spec):
    return _dist(key(spec))


def components(spec):
    """[(path, leaf spec)]; the path indexes distribution parameters / variates"""
    t = spec['t']
    if t in ('discrete', 'box'):
        return [((), spec)]
    if t == 'multidiscrete':
        return [((i,), dict(t='discrete', n=n)) for i, n in enumerate(spec['nvec'])]
    if t == 'multibinary':
        return [((i,), dict(t='discrete', n=2)) for i in range(spec['n'])]
    items = enumerate(spec['of']) if t == 'tuple' else spec['of']
    return [((k,) + p, leaf) for k, s in items for p, leaf in components(s)]


def build(spec, leaf_fn, path=(), seq=tuple):
    """a tree shaped like the distribution's parameters: leaf_fn(path, leafspec) at the leaves"""
    t = spec['t']
    if t in ('discrete', 'box'):
        return leaf_fn(path, spec)
    if t == 'multidiscrete':
        return seq(leaf_fn(path + (i,), dict(t='discrete', n=n)) for i, n in enumerate(spec['nvec']))
    if t == 'multibinary':
        return seq(leaf_fn(path + (i,), dict(t='discrete', n=2)) for i in range(spec['n']))
    if t == 'tuple':
        return seq(build(s, leaf_fn, path + (i,), seq) for i, s in enumerate(spec['of']))
    return {k: build(s, leaf_fn, path + (k,), seq) for k, s in spec['of']}


def get(tree, path):
    for k in path:
        tree = tree[k]
    return tree


def leaf_params(leaf, rnd, batch, mode):
    """float32 numpy params of one leaf"""
    if leaf['t'] == 'discrete':
        shape = (batch, leaf['n'])
        x = dict(normal=lambda: rnd.randn(*shape) * 2, flat=lambda: np.zeros(shape), extreme=lambda: rnd.choice([-12., 0., 12.], size=shape),
                 shifted=lambda: rnd.randn(*shape) + 50., wide=lambda: rnd.uniform(-80., 80., size=shape))[mode]()
        return {'logits': x.astype('float32')}
    shape = (batch, *leaf['shape'])
    mu = dict(normal=lambda: rnd.randn(*shape), flat=lambda: np.zeros(shape), extreme=lambda: rnd.choice([-6., 0., 6.], size=shape),
              shifted=lambda: rnd.randn(*shape) + 3., wide=lambda: rnd.randn(*shape) * 5)[mode]()
    lv = dict(normal=lambda: rnd.randn(*shape), flat=lambda: np.zeros(shape), extreme=lambda: rnd.choice([-4., 0., 4.], size=shape),
              shifted=lambda: rnd.randn(*shape) - 2., wide=lambda: rnd.uniform(-19., 19., size=shape))[mode]()
    return {'mu': np.asarray(mu, 'float32').reshape(shape), 'logvar': np.asarray(lv, 'float32').reshape(shape)}


def params(spec, seed, batch, mode):
    import jax.numpy as jnp
    import jax
    rnd = np.random.RandomState(seed)
    tree = build(spec, lambda p, leaf: leaf_params(leaf, rnd, batch, mode))
    return jax.tree_util.tree_map(jnp.asarray, tree)


MODES = st.sampled_from(['normal', 'normal', 'normal', 'flat', 'extreme', 'shifted', 'wide', 'wide'])


# ---- references (float64) -------------------------------------------------------------------------
def log_softmax(x):
    x = np.asarray(x, 'float64')
    x = x - x.max(axis=-1, keepdims=True)
    return x - np.log(np.exp(x).sum(axis=-1, keepdims=True))


def _flat(x):
    x = np.asarray(x, 'float64')
    return x.reshape(x.shape[0], -1)


def ref_logp(leaf, p, X):
    if leaf['t'] == 'discrete':
        return (np.asarray(X, 'float64') * log_softmax(p['logits'])).sum(-1)
    mu, lv, X = _flat(p['mu']), np.clip(_flat(p['logvar']), -20, 20), _flat(X)
    return -0.5 * (math.log(2 * math.pi) + lv + (X - mu) ** 2 * np.exp(-lv)).sum(-1)


def ref_entropy(leaf, p):
    if leaf['t'] == 'discrete':
        lp = log_softmax(p['logits'])
        return -(np.exp(lp) * lp).sum(-1)
    lv = np.clip(_flat(p['logvar']), -20, 20)
    return 0.5 * (math.log(2 * math.pi) + 1 + lv).sum(-1)


def ref_kl(leaf, p, q):
    if leaf['t'] == 'discrete':
        lp, lq = log_softmax(p['logits']), log_softmax(q['logits'])
        return (np.exp(lp) * (lp - lq)).sum(-1)
    m1, m2 = _flat(p['mu']), _flat(q['mu'])
    v1, v2 = np.clip(_flat(p['logvar']), -20, 20), np.clip(_flat(q['logvar']), -20, 20)
    return 0.5 * (v2 - v1 + (np.exp(v1) + (m1 - m2) ** 2) * np.exp(-v2) - 1).sum(-1)
