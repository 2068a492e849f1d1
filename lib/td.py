"""Numpy reference of temporal-difference updates of the linear approximators of lib/models.py."""
import functools
from hypothesis import strategies as st
import warnings
import jax
import jax.numpy as jnp
import numpy as np
from scipy.special import logsumexp, softmax
from lib import models as M

OFF = (0.5, 0.25)
B = 4


def model(what, obs, act, t, vt='none', custom=False, **kw):
    return M.get(what, obs, act, t, vt, custom, off=OFF, **kw)


def batch(obs, act, seed, wkind='mixed', B=B, scale=1.):
    """(list of single transitions, TransitionBatch)"""
    import coax
    rnd = np.random.RandomState(seed)
    rows = []
    for i in range(B):
        rows.append(dict(
            s=M.element(obs, rnd), a=M.element(act, rnd), r=float(np.float32(rnd.randn() * scale)), i=float(np.float32(rnd.choice([0., 0.9, 0.81, 1.]))),
            s2=M.element(obs, rnd), a2=M.element(act, rnd), logp=-float(np.float32(rnd.rand() * 2)),
            w=1. if wkind == 'one' else float(np.float32(rnd.choice([0.01, 0.1, 0.5, 1., 2.5, 10., 40.])))))
    for i in range(5, B):   # large batches: few distinct states and actions in many combinations (rejecting ambiguous ones stays rare)
        rows[i].update(s=rows[i % 5]['s'], a=rows[(i // 5) % 5]['a'], s2=rows[(i // 2) % 5]['s2'], a2=rows[(i // 7) % 5]['a2'])
    f = lambda k: np.array([x[k] for x in rows], 'float32')
    tb = coax.reward_tracing.TransitionBatch(
        S=M.stack([x['s'] for x in rows]), A=M.stack([x['a'] for x in rows]), logP=f('logp'), Rn=f('r'), In=f('i'),
        S_next=M.stack([x['s2'] for x in rows]), A_next=M.stack([x['a2'] for x in rows]), logP_next=f('logp'), W=f('w'))
    return rows, tb


def sizes(cfg):
    """batch sizes for configuration number cfg: few, because every new one is compiled"""
    return st.sampled_from([B, (1, 40, 3)[cfg % 3]])


def clipw(rows):
    return np.clip([x['w'] for x in rows], 0.1, 10.)


def loss_np(kind, G, y, w):
    """(loss, dloss/dy)"""
    d = y - G
    n = len(d)
    if kind == 'mse':
        return np.mean(w * d * d / 2), w * d / n
    a = np.abs(d)
    return np.mean(w * np.where(a <= 1, d * d / 2, a - 0.5)), w * np.clip(d, -1, 1) / n


def loss_fn(kind):
    from coax import value_losses
    return dict(mse=value_losses.mse, huber=value_losses.huber, default=None)[kind]


def near_kink(kind, G, y, eps=2e-3):
    return kind != 'mse' and bool(np.any(np.abs(np.abs(y - G) - 1) < eps))


def lin_grads(m, params, rows, g, leaf=0):
    """gradient of sum_i g_i * y_i(s_i, a_i) with respect to the (scalar-output) head's parameters"""
    name, shape = m.shapes[leaf]
    p = params['~']
    gw, gb = np.zeros(np.shape(p[name + '_w'])), np.zeros(np.shape(p[name + '_b']))
    for x, gi in zip(rows, g):
        fs = m.sfeat(x['s'])
        if m.what in ('v',):
            gw[:, 0] += gi * fs
            gb[0] += gi
        elif m.mtype == 1:
            gw[:, 0] += gi * M.feats_np(fs, m.afeat(x['a']))
            gb[0] += gi
        else:
            gw[:, x['a']] += gi * fs
            gb[x['a']] += gi
    return {'~': {name + '_b': gb, name + '_w': gw}}


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **kw)


def set_fn(obj, seed, n, scale=0.3):
    """random parameters, state counter n"""
    obj.params = M.rand_params(obj.params, seed, scale)
    obj.function_state = M.state(obj, n)


def gap_ok(v, eps=1e-3):
    """the largest entry is not nearly tied"""
    s = np.sort(v)
    return len(s) < 2 or s[-1] - s[-2] > eps
