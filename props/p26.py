from hypothesis import strategies as st
from lib.pbt import Sub, Reject, require, close, raises, tree_equal, tree_close, tree_snapshot, plain, strata
from lib import models as M, td as T, dist as D
from props import p24
import jax
import jax.numpy as jnp
import numpy as np
import optax
import coax

RULE = ('Cases: (kind of dynamics model, spaces, model type, value transform, loss, parameters, function state, batch with importance weights). Non-trivial: the prediction errors of the rows differ.')
ASSUMPTIONS = ['transition models: no composite observation spaces (the losses take arrays)', 'stochastic models: nearly deterministic parameters where the sampled prediction matters']
LR = 0.125
# what, obs, act, model type, value transform, custom preprocessors, loss
DET = [('r', 'b3', 'd4', 1, 'none', False, 'mse'), ('r', 'dict', 'd4', 2, 'log', False, 'default'), ('r', 'd3', 'ba', 1, 'pair', False, 'huber'), ('r', 'b3', 'd3', 2, 'log', True, 'mse'),
       ('p', 'b3', 'd4', 1, 'none', False, 'mse'), ('p', 'd3', 'd3', 2, 'none', False, 'default'), ('p', 'b3', 'b22', 1, 'none', False, 'huber'),
       ('p', 'img', 'd2', 2, 'none', False, 'mse'), ('r', 'img', 'md', 1, 'none', False, 'huber')]
STO = [('sp', 'b3', 'd4', 1), ('sp', 'b3', 'd4', 2), ('sp', 'd3', 'd3', 1), ('sp', 'd3', 'd3', 2), ('sr', 'b3', 'd4', 1), ('sr', 'd3', 'd3', 2)]
_c = {}


def memo(key, make):
    if key not in _c:
        _c[key] = make()
    return _c[key]


def strat(n):
    @st.composite
    def case(draw):
        cfg = draw(st.integers(0, n - 1))
        return dict(cfg=cfg, B=draw(T.sizes(cfg)), p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), n=draw(st.integers(0, 3)), w=draw(st.sampled_from(['one', 'mixed', 'mixed'])),
                    steps=draw(st.integers(1, 2)), b=draw(p24.beta), kind=draw(st.sampled_from(['none', 'ent', 'kl'])))
    return case


def loss_nd(kind, y, p, w):
    """loss and derivative per element; y, p: (B, ...)"""
    d = p - y
    ww = w.reshape(-1, *[1] * (d.ndim - 1))
    if kind == 'mse':
        return np.mean(ww * d * d / 2), ww * d / d.size
    a = np.abs(d)
    return np.mean(ww * np.where(a <= 1, d * d / 2, a - .5)), ww * np.clip(d, -1, 1) / d.size


def grads(m, P, rows, g):
    """g: (B, ...) derivative with respect to the output of the row's action"""
    name, shape = m.shapes[0]
    gw, gb = np.zeros(np.shape(P['~'][name + '_w'])), np.zeros(np.shape(P['~'][name + '_b']))
    for x, gi in zip(rows, g):
        gi = np.ravel(gi)
        fs = m.sfeat(x['s'])
        if m.mtype == 1:
            feat, sl = M.feats_np(fs, m.afeat(x['a'])), slice(None)
        else:
            feat, sl = fs, slice(x['a'] * len(gi), (x['a'] + 1) * len(gi))
        gw[:, sl] += np.outer(feat, gi)
        gb[sl] += gi
    return {'~': {name + '_b': gb, name + '_w': gw}}


def check_det(c):
    what, obs, act, t, vt, custom, loss = DET[c['cfg']]

    def make():
        m = M.Model(what, obs, act, t, vt, custom, off=T.OFF)
        return m, coax.model_updaters.ModelUpdater(m.obj, optimizer=optax.sgd(LR), loss_function=T.loss_fn(loss))
    m, upd = memo(('det', c['cfg']), make)
    f = M.VT_NP[vt][0]
    nt = False
    for step in range(c['steps']):
        T.set_fn(m.obj, c['p'] + 31 * step, c['n'] + step, 0.2)
        rows, tb = T.batch(obs, act, c['x'] + step, c['w'], B=T.B if step else c['B'])
        P, n = plain(tree_snapshot(m.obj.params)), float(jax.tree_util.tree_leaves(m.obj.function_state)[0])
        pred = np.stack([np.asarray(m.ref(P, x['s'], x['a'], train=True, n=n)) for x in rows])
        if what == 'r':
            true = np.array([f(x['r']) for x in rows])
        else:
            true = np.stack([M.variate_np(obs, x['s2']).reshape(pred.shape[1:]) for x in rows])
        kind = 'huber' if loss == 'default' else loss
        if kind == 'huber' and np.any(np.abs(np.abs(pred - true) - 1) < 3e-3):
            raise Reject()
        ell, g = loss_nd(kind, true, pred, T.clipw(rows))
        gref = grads(m, P, rows, g)
        scale = max(1., max(np.abs(l).max() for l in jax.tree_util.tree_leaves(gref)))
        before = tree_snapshot((m.obj.params, m.obj.function_state, tb._asdict()))
        gr, _, metrics = upd.grads_and_metrics(tb)
        close(metrics['ModelUpdater/loss'], ell, f'{what}: loss', rtol=5e-3, atol=5e-3)
        tree_close(plain(gr), gref, f'{what}: gradient of the loss', rtol=5e-3, atol=4e-3 * scale)
        tree_equal(tree_snapshot((m.obj.params, m.obj.function_state, tb._asdict())), before, 'computing gradients must not change anything')
        upd.update(tb)
        tree_close(plain(m.obj.params), jax.tree_util.tree_map(lambda p, q: np.asarray(p, 'float64') - LR * q, P, gref), f'{what}: parameters after an sgd step', rtol=1e-3, atol=4e-3 * scale)
        tree_close(plain(m.obj.function_state), plain(M.state(m.obj, n + 1)), f'{what}: function state after the update', rtol=1e-5, atol=1e-5)
        nt |= float(np.ptp(pred - true)) > 1e-3
    return nt


def check_sto(c):
    """nearly deterministic stochastic models; the regularization term for arbitrary parameters"""
    what, obs, act, t = STO[c['cfg']]
    kind = c['kind']

    def make():
        m = M.Model(what, obs, act, t, 'none', False, off=(0.5, 0.25))
        prior = p24.mkprior(m, 3)
        reg = None if kind == 'none' else p24.mkreg(kind, m, 1., prior)
        return m, reg, p24.strip(prior), coax.model_updaters.ModelUpdater(m.obj, optimizer=optax.sgd(LR), loss_function=T.loss_fn('mse'), regularizer=reg)
    m, reg, prior, upd = memo(('sto', c['cfg'], kind), make)
    T.set_fn(m.obj, c['p'], c['n'], 0.3)
    new = {'~': {k: np.array(v) for k, v in plain(m.obj.params)['~'].items()}}
    norm = obs == 'b3' and what == 'sp'
    if norm:   # leaves: logvar, mu
        new['~']['h0_w'] *= 0
        new['~']['h0_b'] = np.full_like(new['~']['h0_b'], -18.)
    else:      # widely spaced logits, different for every state / action
        for k in new['~']:
            new['~'][k] = new['~'][k] * 3000
    td = jax.tree_util.tree_structure(m.obj.params)
    m.obj.params = jax.tree_util.tree_unflatten(td, [jnp.asarray(x, 'float32') for x in jax.tree_util.tree_leaves(new)])
    rows, tb = T.batch(obs, act, c['x'], c['w'], B=c['B'])
    P, n = plain(tree_snapshot(m.obj.params)), float(c['n'])
    outs = [m.ref(P, x['s'], x['a'], train=True, n=n) for x in rows]
    if norm:
        pred = np.stack([o['mu'] for o in outs])
        true = np.stack([M.variate_np(obs, x['s2']) for x in rows])
    else:
        if not all(T.gap_ok(o['logits'], 60.) for o in outs):
            raise Reject()
        k = len(outs[0]['logits'])
        pred = np.stack([np.eye(k)[np.argmax(o['logits'])] for o in outs])
        if what == 'sp':
            true = np.stack([np.eye(k)[x['s2']] for x in rows])
        else:
            lo, hi = m.value_range
            pos = np.array([(x['r'] - lo) * k / (hi - lo) for x in rows])
            if np.any(np.abs(pos - np.round(pos)) < 1e-3):
                raise Reject()
            true = np.stack([np.eye(k)[int(np.clip(np.floor(v), 0, k - 1))] for v in pos])
    W = T.clipw(rows)
    ell, g = loss_nd('mse', true, pred, W)
    tol = dict(rtol=1e-2, atol=1e-2 * (1 + abs(ell)))
    if reg is not None:
        reg.beta = c['b']
    gr, _, metrics = upd.grads_and_metrics(tb)
    close(metrics['ModelUpdater/loss_bare'], ell, f'{what}: loss of the sampled prediction', **tol)
    total = ell
    if reg is not None:
        # for categorical distributions this is the limit of a point mass
        total += np.mean(W * np.array([p24.rterm(kind, m, o, float(np.float32(c['b'])), prior)[0] for o in outs]))
        tol = dict(rtol=1e-2, atol=1e-2 * (1 + abs(ell) + abs(total - ell)))
    close(metrics['ModelUpdater/loss'], total, f'{what}: regularized loss', **tol)
    before = m.obj.params
    upd.update(tb)
    if norm and (reg is None or kind == 'ent' or c['b'] == 0):
        gmu = [[np.zeros(3), gi] for gi in g]
        if t == 1:
            gref = D.head_grads(m, [M.feats_np(m.sfeat(x['s']), m.afeat(x['a'])) for x in rows], gmu)
        else:
            gref = D.head_grads(m, [m.sfeat(x['s']) for x in rows], [[np.zeros((4, 3)), np.eye(4)[x['a']][:, None] * gi] for x, gi in zip(rows, g)])
        scale = max(1., max(np.abs(l).max() for l in jax.tree_util.tree_leaves(gref)))
        for key in ('h1_w', 'h1_b'):
            close(plain(gr)['~'][key], gref['~'][key], f'{what}: gradient with respect to the mean', rtol=2e-2, atol=1e-2 * scale)
    tree_close(plain(m.obj.function_state), plain(M.state(m.obj, n + 1)), f'{what}: function state after the update', rtol=1e-5, atol=1e-5)
    tree_equal(plain(tree_snapshot(before)), P, 'the old parameters are not overwritten in place')
    return reg is None or c['b'] > 0.01


@st.composite
def case_bad(draw):
    return dict(bad=draw(st.sampled_from(['q', 'v', 'pi', 'reg'])))


def check_bad(c):
    U = coax.model_updaters.ModelUpdater
    mk = {k: T.model(k, 'b3', 'd4', 2).obj for k in ('q', 'v', 'pi', 'r')}
    fn = (lambda: U(mk['r'], regularizer=mk['pi'])) if c['bad'] == 'reg' else (lambda: U(mk[c['bad']]))
    raises(TypeError, fn, f'ill-formed updater: {c["bad"]}')
    return True


SUBS = [Sub('deterministic', strat(len(DET)), check_det, quick=90, thorough=2500, budget=60, split=strata(cfg=range(len(DET)))), Sub('stochastic', strat(len(STO)), check_sto, quick=90, thorough=2500, budget=70, split=strata(cfg=range(len(STO)), kind=['none', 'ent', 'kl'])),
        Sub('reject', case_bad, check_bad, quick=8, thorough=8, budget=20, split=strata(bad=['q', 'v', 'pi', 'reg']))]
