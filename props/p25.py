from hypothesis import strategies as st
from lib.pbt import Sub, require, close
import functools
import jax
import jax.numpy as jnp
import numpy as np
from coax import value_losses as L

RULE = ('Cases: (loss, targets, predictions, optional sample weights, delta, number of axes, compiled or not). Non-trivial: more than one sample and not all '
        'predictions equal to their target; for losses with delta, errors on both sides of it.')
ASSUMPTIONS = ['magnitudes up to 1e4', 'gradients are judged away from kinks']
fl = st.floats(-20, 20, width=32)


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['mse', 'huber', 'logloss', 'logloss_sign', 'quantile']))
    n, m, k = draw(st.integers(1, 5)), draw(st.integers(1, 4)), draw(st.integers(1, 4))
    nd = draw(st.integers(1, 3)) if kind != 'quantile' else 2
    size = n * m ** (nd - 1)
    vals = st.one_of(fl, st.sampled_from([0., 1., -1., 1e4, -1e4, 3e6, 0.5]))
    lst = lambda s, q: draw(st.lists(s, min_size=q, max_size=q))
    if kind == 'logloss':
        y, p = lst(st.sampled_from([0., 1.]), size), lst(st.one_of(st.floats(0, 1, width=32), st.sampled_from([0., 1., .5, 1e-6])), size)
        exact = draw(st.booleans())
        p = [(b if q in (0., 1.) and exact else min(max(q, 1e-6), 0.9999)) for b, q in zip(y, p)]
    elif kind == 'logloss_sign':
        y, p = lst(st.sampled_from([-1., 1.]), size), lst(vals, size)
    elif kind == 'quantile':
        y, p = lst(vals, n * k), lst(vals, n * m)
    else:
        y, p = lst(vals, size), lst(vals, size)
    return dict(kind=kind, n=n, m=m, k=k, nd=nd, y=y, p=p, tau=lst(st.floats(0, 1, width=32), n * m),
                w=lst(st.one_of(st.floats(0, 10, width=32), st.sampled_from([0., 1.])), n) if draw(st.booleans()) else None,
                delta=draw(st.one_of(st.sampled_from([None, 1., 0.5, 64.]), st.floats(0.0625, 8, width=32))), jit=draw(st.booleans()), ints=draw(st.booleans()))


def ref(c, y, p, tau, w, delta):
    """loss and its derivative with respect to the predictions"""
    if c['kind'] == 'quantile':
        d = y[:, None, :] - p[:, :, None]
        a = np.abs(d)
        h = np.where(a <= delta, d * d / 2, delta * (a - delta / 2))
        wt = np.abs(tau[:, :, None] - (d < 0))
        el = (wt * h / delta).sum(-1)
        g = -(wt * np.clip(d, -delta, delta) / delta).sum(-1)
    else:
        d = p - y
        if c['kind'] == 'mse':
            el, g = d * d / 2, d
        elif c['kind'] == 'huber':
            a = np.abs(d)
            el, g = np.where(a <= delta, d * d / 2, delta * a - delta ** 2 / 2), np.clip(d, -delta, delta)
        elif c['kind'] == 'logloss':
            q = np.where(y == 1, p, 1 - p)
            el, g = -np.log(q), np.where(y == 1, -1 / q, 1 / q)
        else:
            el, g = np.logaddexp(0, -y * p), -y / (1 + np.exp(np.clip(y * p, -700, 700)))
    ww = np.ones(len(el)) if w is None else w
    ww = ww.reshape(-1, *[1] * (el.ndim - 1))
    return np.mean(ww * el), ww * g / el.size, np.mean(ww * np.abs(el))


def check(c):
    kind, n, m = c['kind'], c['n'], c['m']
    shape = (n, m) if kind == 'quantile' else (n, *[m] * (c['nd'] - 1))
    y = np.array(c['y'], 'float32').reshape((n, c['k']) if kind == 'quantile' else shape)
    p = np.array(c['p'], 'float32').reshape(shape)
    tau = np.array(c['tau'], 'float32').reshape(n, m)
    w = None if c['w'] is None else np.array(c['w'], 'float32')
    delta = c['delta'] if kind in ('huber', 'quantile') else None
    f8 = lambda x: None if x is None else x.astype('float64')
    exp, grad, scale = ref(c, f8(y), f8(p), f8(tau), f8(w), 1. if delta is None else float(np.float32(delta)))
    fn = dict(mse=L.mse, huber=L.huber, logloss=L.logloss, logloss_sign=L.logloss_sign, quantile=L.quantile_huber)[kind]
    kw = {} if delta is None else dict(delta=delta)
    if w is not None:
        kw['w'] = jnp.asarray(w)
    yy = jnp.asarray(y)
    if c['ints'] and kind in ('logloss', 'logloss_sign'):
        yy = jnp.asarray(y.astype('int32'))

    def loss(pred):
        return fn(yy, pred, jnp.asarray(tau), **kw) if kind == 'quantile' else fn(yy, pred, **kw)
    fn2, gr = (jax.jit(loss), jax.jit(jax.grad(loss))) if c['jit'] else (loss, jax.grad(loss))
    val = fn2(jnp.asarray(p))
    close(val, exp, f'{kind}: value of the loss', rtol=1e-4, atol=1e-5 * (1 + scale) if kind != 'logloss' else 1e-4)
    require(float(val) >= -1e-6, f'{kind}: the loss is negative: {val}')
    # gradients
    d = f8(y)[:, None, :] - f8(p)[:, :, None] if kind == 'quantile' else f8(p) - f8(y)
    if kind == 'quantile' and np.any(np.abs(d) < 1e-6):
        return False
    if kind == 'logloss' and np.any((f8(p) == 0) | (f8(p) == 1)):
        return len(p) > 1
    g = np.asarray(gr(jnp.asarray(p)), 'float64')
    close(g, grad, f'{kind}: gradient of the loss with respect to the predictions', rtol=2e-3, atol=1e-5 * (1 + np.abs(grad).max()))
    if delta is not None or kind in ('huber', 'quantile'):
        t = 1. if delta is None else delta
        return bool(np.any(np.abs(d) > t) and np.any(np.abs(d) < t))
    return n > 1 and bool(np.any(d != 0))


def case_big():
    """realistic batch sizes, written out from a seed"""
    def make(t):
        kind, n, m, k, seed, weighted, delta, jit = t
        rnd = np.random.RandomState(seed)
        nd = 2
        f = lambda *s: [float(x) for x in np.float32(rnd.randn(*s) * rnd.choice([.3, 1, 5]))]
        y, p = f(n * (k if kind == 'quantile' else m)), f(n * m)
        if kind == 'logloss':
            y, p = [float(x) for x in rnd.randint(0, 2, n * m)], [float(x) for x in np.float32(rnd.uniform(.01, .99, n * m))]
        elif kind == 'logloss_sign':
            y = [float(x) for x in rnd.choice([-1, 1], n * m)]
        return dict(kind=kind, n=n, m=m, k=k, nd=nd, y=y, p=p, tau=[float(x) for x in np.float32(rnd.rand(n * m))],
                    w=[float(x) for x in np.float32(rnd.uniform(0, 5, n))] if weighted else None, delta=delta, jit=jit, ints=False)
    return st.tuples(st.sampled_from(['mse', 'huber', 'logloss', 'logloss_sign', 'quantile']), st.sampled_from([7, 32, 64, 129]), st.sampled_from([1, 8, 51, 32]),
                     st.sampled_from([8, 32, 51]), st.integers(0, 2 ** 31 - 1), st.booleans(), st.sampled_from([None, .5, 2.]), st.booleans()).map(make)


SUBS = [Sub('losses', case, check, quick=400, thorough=20000, budget=60), Sub('batches', case_big, check, quick=60, thorough=2000, budget=30)]
