from hypothesis import strategies as st
from lib.pbt import Sub, require, equal, raises, tree_equal, short, strata
from lib import models as M
import warnings
from collections import namedtuple
import jax
import jax.numpy as jnp
import numpy as np
import coax
from coax.proba_dists import SquashedNormalDist
from gymnasium.spaces import Box, Dict, Discrete, MultiBinary, MultiDiscrete, Tuple

RULE = ('Cases: (kind of function approximator, observation space, action space, default or custom preprocessors / distribution, number of bins, value transform, batch size, seed). '
        'Non-trivial: all (every case inspects inputs, outputs and the acceptance of a matching and of a non-matching forward pass).')
ASSUMPTIONS = ['custom preprocessors return one array with a leading batch axis']
WHAT = ['q', 'v', 'r', 'sv', 'sq', 'sr', 'p', 'sp', 'pi']
OBS = ['b3', 'd3', 'dict', 'img', 'md', 'mb', 'tup', 'b22']
ACT = ['d4', 'd2', 'ba', 'tup', 'md', 'mb', 'dict', 'b22']
CLS = dict(q=coax.Q, v=coax.V, r=coax.RewardFunction, sv=coax.StochasticV, sq=coax.StochasticQ, sr=coax.StochasticRewardFunction, p=coax.TransitionModel, sp=coax.StochasticTransitionModel, pi=coax.Policy)


def case():
    return st.fixed_dictionaries(dict(
        what=st.sampled_from(WHAT), obs=st.sampled_from(OBS), act=st.sampled_from(ACT), custom=st.sampled_from([0, 1, 2, 3]), bins=st.sampled_from([2, 5, None]), vt=st.sampled_from(['none', 'log']),
        B=st.sampled_from([None, 1, 2, 5]), seed=st.integers(0, 2**31 - 1)))


def shape_of(sp, variate):
    """tree of (shape, kind) of the representation of one element"""
    if isinstance(sp, Discrete):
        return ((sp.n,), 'onehot', sp)
    if isinstance(sp, Box):
        return (sp.shape, 'real' if variate else 'box', sp)
    if isinstance(sp, MultiBinary) and not variate:
        return ((sp.n,), 'bits', sp)
    if isinstance(sp, (MultiDiscrete, MultiBinary)):
        return [((int(n),), 'onehot', sp) for n in (sp.nvec if isinstance(sp, MultiDiscrete) else [2] * sp.n)]
    if isinstance(sp, Dict):
        return {k: shape_of(sp[k], variate) for k in sp.spaces}
    return [shape_of(s, variate) for s in sp.spaces]


def judge(spec, x, B, what):
    """x is a batch of representations"""
    if isinstance(spec, dict):
        require(set(x) == set(spec), f'{what}: keys {set(x)}, expected {set(spec)}')
        return [judge(spec[k], x[k], B, f'{what}[{k}]') for k in spec]
    if isinstance(spec, list):
        require(isinstance(x, (list, tuple)) and len(x) == len(spec), f'{what}: {short(x)}, expected {len(spec)} components')
        return [judge(s, y, B, f'{what}[{i}]') for i, (s, y) in enumerate(zip(spec, x))]
    shape, kind, sp = spec
    x = np.asarray(x)
    require(x.shape == (B, *shape), f'{what}: shape {x.shape}, expected {(B, *shape)}')
    require(np.all(np.isfinite(np.asarray(x, 'float64'))), f'{what}: {short(x)}')
    if kind == 'onehot':
        require(np.all((x == 0) | (x == 1)) and np.all(x.sum(-1) == 1), f'{what} is not one-hot: {short(x)}')
    elif kind == 'bits':
        require(np.all((x == 0) | (x == 1)), f'{what} is not binary: {short(x)}')
    elif kind == 'box':
        require(np.all(x >= sp.low - 1e-5) and np.all(x <= sp.high + 1e-5), f'{what} lies outside {sp}: {short(x)}')


def inputs_of(sp, kind, x, custom, variate, B, what):
    if not custom:
        return judge(shape_of(sp, variate), x, B, what)
    # the custom preprocessor appends a checksum, so that its output can be recognised
    n = sum(int(np.prod(s[0], dtype=int)) for s in jax.tree_util.tree_leaves(shape_of(sp, False), is_leaf=lambda t: isinstance(t, tuple)))
    x = np.asarray(x, 'float64')
    require(x.shape == (B, n + 1), f'{what}: shape {x.shape}, expected {(B, n + 1)}')
    f = (x[:, :-1] - 1) / 2
    require(np.allclose(f @ np.arange(1, n + 1), x[:, -1], rtol=1e-3, atol=1e-2), f'{what} does not come from the given preprocessor: {short(x)}')


def row_spec(c, proba):
    """tree of shapes of one row of the output"""
    w = c['what']
    if w in ('q', 'v', 'r'):
        return ()
    if w in ('sv', 'sq', 'sr'):
        return {'logits': (c['bins'] or 51,)}
    if w == 'p':
        return strip(shape_of(M.space(c['obs']), True))
    def params(t):
        if isinstance(t, dict):
            return {k: params(v) for k, v in t.items()}
        if isinstance(t, list):
            return [params(v) for v in t]
        return {'logits': t[0]} if t[1] == 'onehot' else {'mu': t[0], 'logvar': t[0]}
    return params(shape_of(M.space(c['obs'] if w == 'sp' else c['act']), True))


def strip(t):
    return {k: strip(v) for k, v in t.items()} if isinstance(t, dict) else [strip(v) for v in t] if isinstance(t, list) else t[0]


def out_of(spec, x, lead, what):
    if isinstance(spec, dict):
        require(set(x) == set(spec), f'{what}: keys {set(x)}, expected {set(spec)}')
        return [out_of(spec[k], x[k], lead, f'{what}[{k}]') for k in spec]
    if isinstance(spec, list):
        require(isinstance(x, (list, tuple)) and len(x) == len(spec), f'{what}: {short(x)}, expected {len(spec)} components')
        return [out_of(s, y, lead, f'{what}[{i}]') for i, (s, y) in enumerate(zip(spec, x))]
    require(isinstance(x, jnp.ndarray) and x.shape == lead + tuple(spec), f'{what}: {type(x)} of shape {np.shape(x)}, expected {lead + tuple(spec)}')
    require(jnp.issubdtype(x.dtype, jnp.floating) and bool(jnp.all(jnp.isfinite(x))), f'{what}: {short(x)}')


def check(c):
    w, cls = c['what'], CLS[c['what']]
    env, B = M.env(c['obs'], c['act']), c['B'] or 1
    osp, asp = env.observation_space, env.action_space
    kw, make = {}, {}
    cobs = bool(c['custom'] & 1) and w not in ('p', 'sp')
    cact = bool(c['custom'] & 2) and w not in ('v', 'sv', 'pi')
    if cobs:
        kw['observation_preprocessor'] = M.custom_pre(c['obs'])
    if cact:
        kw['action_preprocessor'] = M.custom_pre(c['act'])
    proba = None
    if w == 'pi' and c['custom'] & 2 and c['act'] in ('ba', 'b22'):
        proba = kw['proba_dist'] = SquashedNormalDist(asp)
    if w in ('sv', 'sq', 'sr'):
        kw.update(value_range=(-3., 4.), value_transform=M.vt(c['vt']))
        if c['bins']:
            kw['num_bins'] = c['bins']
    size = {} if c['B'] is None else dict(batch_size=c['B'])
    get = lambda seed: cls.example_data(env, **kw, **size, random_seed=seed)
    data = get(c['seed'])
    flat = lambda d: jax.tree_util.tree_map(np.asarray, d)
    tree_equal(jax.tree_util.tree_leaves(flat(get(c['seed']))), jax.tree_util.tree_leaves(flat(data)), 'example data from the same seed')
    kinds = [(data, None)] if w in ('v', 'sv', 'pi') else [(data.type1, 1), (data.type2, 2)]
    if len(kinds) == 2:
        require((data.type2 is None) == (not isinstance(asp, Discrete)), f'type-2 data for {asp}: {short(data.type2)}')
    spec = row_spec(c, proba)
    other = get((c['seed'] + 1) % 2**31)
    for d, t in kinds:
        if d is None:
            continue
        args = d.inputs.args
        names = ('S', 'A', 'is_training') if t == 1 else ('S', 'is_training')
        require(tuple(args._fields) == names, f'inputs {args._fields}, expected {names}')
        require(args.is_training is True and tuple(d.inputs.static_argnums) == (len(names) - 1,), 'is_training is the static argument')
        inputs_of(osp, c['obs'], args.S, cobs, w in ('p', 'sp'), B, f'{cls.__name__} type {t} input S')
        if t == 1:
            inputs_of(asp, c['act'], args.A, cact, False, B, f'{cls.__name__} input A')
        lead = (B, asp.n) if t == 2 else (B,)
        out_of(spec, d.output, lead, f'{cls.__name__} type {t} output')
        o2 = other if t is None else other.type1 if t == 1 else other.type2
        a, b = np.concatenate([np.ravel(x) for x in jax.tree_util.tree_leaves(d.output)]), np.concatenate([np.ravel(x) for x in jax.tree_util.tree_leaves(o2.output)])
        require(not np.array_equal(a, b), 'the example output does not depend on the seed')
        text = repr(d)
        require(type(d).__name__ in text and all(n + '=' in text for n in names), f'printed example data: {text}')
    # a forward pass of this form is accepted, anything else is refused
    d, t = kinds[-1] if kinds[-1][0] is not None else kinds[0]
    if c['seed'] % 2:
        d, t = kinds[0]
    def build(g):
        def body(S):
            n = jax.tree_util.tree_leaves(S)[0].shape[0]
            return g(jax.tree_util.tree_map(lambda x: jnp.zeros((n, *x.shape[1:])), d.output))
        f = (lambda S, A, is_training: body(S)) if t == 1 else (lambda S, is_training: body(S))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return cls(f, env, **kw, random_seed=c['seed'])
    obj = build(lambda y: y)
    if t is not None and hasattr(obj, 'modeltype'):
        require(obj.modeltype == t, f'modeltype {obj.modeltype}, expected {t}')
    raises(TypeError, lambda: build(lambda y: jax.tree_util.tree_map(lambda x: x[..., None], y)), f'{cls.__name__}: a forward pass with an extra output axis')
    Env = namedtuple('Env', 'observation_space action_space reward_range')
    raises(TypeError, lambda: cls.example_data(Env(3, asp, (0, 1)), **dict(kw, observation_preprocessor=M.custom_pre(c['obs'])) if w not in ('p', 'sp') else kw), 'an observation space that is no space')
    return True


SUBS = [Sub('example', case, check, quick=150, thorough=3000, budget=80, split=strata(what=WHAT, obs=['b3', 'd3', 'dict', 'tup', 'img']))]
