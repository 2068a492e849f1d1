from hypothesis import strategies as st
from lib.pbt import Sub, require, close, strata
from lib import spaces as S
import jax.numpy as jnp
import numpy as np
from coax.proba_dists import DiscretizedIntervalDist, EmpiricalQuantileDist, NormalDist, ProbaDist
from coax.value_transforms import LogTransform
from gymnasium.spaces import Box

RULE = ('Cases: (distribution kind, interval, bins/quantiles, parameters, per-row scale in [0,1] and shift, value transform or '
        'none). Non-trivial: at least one row has 0 < scale < 1 and a non-zero shift.')
ASSUMPTIONS = ['scale in [0, 1] (a bootstrap factor)', 'value transforms are combined with discretised and quantile distributions only']

_cache = {}


def get(kind, *args):
    k = (kind,) + args
    if k not in _cache:
        if kind == 'interval':
            _cache[k] = DiscretizedIntervalDist(Box(args[0], args[1], ()), num_bins=args[2])
        elif kind == 'quantile':
            _cache[k] = EmpiricalQuantileDist(args[0])
        else:
            _cache[k] = (NormalDist if args[0] else ProbaDist)(Box(-100., 100., ()))
    return _cache[k]


LOG = LogTransform(2.)
IDENT = (lambda x: x), (lambda x: x)
NP = (lambda x: np.sign(x) * 2 * np.log1p(np.abs(x) / 2)), (lambda x: np.sign(x) * 2 * np.expm1(np.abs(x) / 2))


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['interval', 'interval', 'interval', 'quantile', 'normal', 'normal2']))
    B = draw(st.sampled_from([1, 3, 3, 33]))
    return dict(kind=kind, low=draw(st.sampled_from([-2., 0., -10., -200.])), width=draw(st.sampled_from([1., 4., 20., 500.])),
                bins=draw(st.sampled_from([2, 5, 20, 51])), seed=draw(st.integers(0, 2**20)), mode=draw(S.MODES),
                scale=draw(st.lists(st.sampled_from([0., 0.03, 0.25, 0.5, 0.9, 0.99, 1., 1.6, 3.]), min_size=B, max_size=B)),
                shift=draw(st.lists(st.one_of(st.sampled_from([0., 1., -1., 0.5, 100., -100.]), st.floats(-3, 3, width=32)), min_size=B, max_size=B)),
                scalar=draw(st.sampled_from(['', 'both', 'scale', 'shift'])), neg=draw(st.booleans()), vt=draw(st.booleans()))


def check(c):
    B = len(c['scale'])
    scale, shift = np.array(c['scale'], 'float32'), np.array(c['shift'], 'float32')
    if c['neg'] and c['kind'].startswith('normal'):
        scale = scale * np.where(np.arange(B) % 2, 1, -1).astype('float32')
    one = lambda x, name: (np.full(B, x[0]), jnp.float32(x[0])) if c['scalar'] in ('both', name) else (x, jnp.asarray(x))
    (scale, js), (shift, jh) = one(scale, 'scale'), one(shift, 'shift')
    rnd = np.random.RandomState(c['seed'])
    if c['kind'].startswith('normal'):
        d = get('normal', c['kind'] == 'normal')
        p = S.leaf_params(dict(t='box', shape=[]), rnd, B, c['mode'])
        scale = np.where(np.abs(scale) < .03, np.float32(0.03), scale)
        js = jnp.where(jnp.abs(js) < .03, jnp.float32(0.03), js)
        out = d.affine_transform({k: jnp.asarray(v) for k, v in p.items()}, js, jh)
        close(out['mu'], scale * p['mu'] + shift, 'mean of scale*Z+shift', rtol=1e-4, atol=1e-4)
        close(np.exp(np.asarray(out['logvar'], 'float64')), scale ** 2 * np.exp(p['logvar'].astype('float64')), 'variance of scale*Z+shift', rtol=1e-3)
        return True
    c = dict(c, vt=c['vt'] and max(abs(c['low']), abs(c['low'] + c['width'])) <= 50)   # the inverse overflows beyond
    f, finv = NP if c['vt'] else IDENT
    extra = (LOG,) if c['vt'] else ()
    if c['kind'] == 'quantile':
        d = get('quantile', c['bins'])
        vals = (rnd.randn(B, c['bins']) * 3).astype('float32')
        fr = np.sort(rnd.rand(B, c['bins'])).astype('float32')
        p = {'values': jnp.asarray(vals), 'quantile_fractions': jnp.asarray(fr)}
        close(d.mean(p), vals.mean(-1), 'mean of the quantile values', rtol=1e-4, atol=1e-5)
        out = d.affine_transform(p, js, jh, *extra)
        close(out['values'], f(scale[:, None] * finv(vals.astype('float64')) + shift[:, None]), 'quantile values of scale*Z+shift', rtol=2e-4, atol=2e-4)
        close(out['quantile_fractions'], fr, 'quantile fractions', rtol=1e-6)
        return bool(np.any((scale > 0) & (scale < 1) & (shift != 0)))
    d = get('interval', c['low'], c['low'] + c['width'], c['bins'])
    K = c['bins']
    logits = S.leaf_params(dict(t='discrete', n=K), rnd, B, c['mode'])['logits']
    prob = np.exp(S.log_softmax(logits))
    z = c['low'] + (np.arange(K) + .5) * c['width'] / K
    out = np.asarray(d.affine_transform({'logits': jnp.asarray(logits)}, js, jh, *extra)['logits'])
    require(out.shape == (B, K), f'shape {out.shape}')
    got = np.exp(S.log_softmax(out))
    raw = np.exp(out.astype('float64')).sum(-1)
    close(raw, np.ones(B), 'total mass of the transformed distribution', atol=1e-3)
    # naive projection onto the atoms
    dz = z[1] - z[0]
    exp = np.zeros((B, K))
    slack = np.zeros((B, K))
    for i in range(B):
        for k in range(K):
            t = np.clip(f(scale[i] * finv(z[k]) + shift[i]), z[0], z[-1])
            b = (t - z[0]) / dz
            w = np.maximum(0, 1 - np.abs(np.arange(K) - b))
            exp[i] += prob[i, k] * w
            slack[i] += 2e-6 * (abs(z[0]) + abs(z[-1]) + abs(shift[i])) / dz * prob[i, k]
    require(np.all(np.abs(got - exp) <= 5e-4 + slack), f'projected distribution {got.tolist()} expected {exp.tolist()}')
    # the mean is preserved where nothing is clipped (identity transform)
    if not c['vt']:
        for i in range(B):
            t = scale[i] * z + shift[i]
            if t.min() >= z[0] and t.max() <= z[-1]:
                m = scale[i] * (prob[i] @ z) + shift[i]
                require(abs(got[i] @ z - m) <= 1e-3 * (c['width'] + abs(c['low'])), f'mean {got[i] @ z} expected {m}')
    return bool(np.any((scale > 0) & (scale < 1) & (shift != 0)))


SUBS = [Sub('affine', case, check, quick=400, thorough=8000, budget=60, split=strata(kind=['interval', 'quantile', 'normal', 'normal2']))]
