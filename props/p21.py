from hypothesis import strategies as st
from lib.pbt import Sub, Reject, require, close, tree_equal, tree_close, tree_snapshot, plain, strata
from lib import models as M, td as T
from scipy.special import log_softmax, softmax
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import optax
import coax

RULE = ('Cases: (algorithm, spaces, model type, value transform, categorical or quantile representation, parameters of every network, function states, batch of '
        '1, 3, 4 or 40 transitions with importance weights). Non-trivial: at least one non-terminal transition.')
ASSUMPTIONS = ['target networks have the architecture of the network that is learned', 'cases in which float32 rounding may decide an argmax are skipped',
               'quantile representations: no expected-SARSA']
LR = 0.125
# algorithm, obs, act, model type, value transform, separate target (number of target networks)
CAT_V = [('SimpleTD', 'b3', 'd2', 2, 'none', 1), ('SimpleTD', 'd3', 'd2', 2, 'log', 1), ('SimpleTD', 'dict', 'd2', 2, 'none', 0)]
CAT_Q = [('Sarsa', 'b3', 'd4', 1, 'log', 1), ('Sarsa', 'd3', 'd3', 2, 'none', 0), ('QLearning', 'b3', 'd4', 1, 'none', 1), ('QLearning', 'd3', 'd3', 2, 'log', 1),
         ('DoubleQLearning', 'b3', 'd4', 1, 'log', 1), ('DoubleQLearning', 'd3', 'd3', 2, 'none', 1), ('ExpectedSarsa', 'b3', 'd4', 1, 'none', 1), ('ExpectedSarsa', 'd3', 'd3', 2, 'log', 1)]
CAT_C = [('QLearning', 'b3', 'b22', 1, 'none', 1), ('ClippedDoubleQLearning', 'b3', 'd4', 1, 'none', 2), ('ClippedDoubleQLearning', 'd3', 'd3', 2, 'log', 2),
         ('ClippedDoubleQLearning', 'b3', 'ba', 1, 'none', 2), ('SoftClippedDoubleQLearning', 'd3', 'd3', 2, 'none', 3), ('ClippedDoubleQLearning', 'b3', 'ba', 1, 'log', (2, 3))]
QUANT = [('Sarsa', 'b3', 'd4', 1, 'none', 1), ('QLearning', 'b3', 'd4', 2, 'none', 1), ('DoubleQLearning', 'd3', 'd3', 1, 'log', 1), ('QLearning', 'b3', 'ba', 1, 'none', 1),
         ('ClippedDoubleQLearning', 'd3', 'd3', 1, 'none', 2)]
K = 5
FR = (np.arange(K) + .5) / K
_upd = {}


class QuantileModel(M.Model):
    """quantile values are a linear head; the fractions are fixed (type 2) or depend on state and action (type 1)"""
    def __init__(self, obs, act, mtype, vt_kind, variate):
        self.what, self.obs, self.act, self.mtype, self.vt_kind, self.custom, self.custom_act, self.off, self.variate = 'sq', obs, act, mtype, vt_kind, False, False, T.OFF, variate
        self.n_actions = M.space(act).n if mtype == 2 or act not in ('ba', 'b22') else None
        self.shapes = [('h0', (self.n_actions, K) if mtype == 2 else (K,))]
        self.treedef = jax.tree_util.tree_structure(0)
        self.bins = K
        kw = {}
        if variate:
            from coax.proba_dists import ProbaDist
            kw['action_preprocessor'] = ProbaDist(M.space(act)).preprocess_variate

        def out(x, is_training):
            y, = M.head(x, self.shapes, is_training, T.OFF)
            if mtype == 1:   # fractions that depend on state and action (also shifted in training mode)
                u = jax.nn.sigmoid(x.sum(-1, keepdims=True) + (0.5 if is_training else 0.)) - .5
                return {'values': y, 'quantile_fractions': jnp.clip(jnp.asarray(FR, 'float32') + 0.8 / K * u, 0., 1.)}
            return {'values': y, 'quantile_fractions': jnp.broadcast_to(jnp.asarray(FR, 'float32'), y.shape)}
        f1 = lambda S, A, is_training: out(M.feats(S, A), is_training)
        f2 = lambda S, is_training: out(M.feats(S), is_training)
        self.obj = coax.StochasticQ(f1 if mtype == 1 else f2, M.env(obs, act), value_range=None, num_bins=K, value_transform=M.vt(vt_kind), **kw)

    def ref(self, *args, **kw):
        y = super().ref(*args, **kw)
        return y if isinstance(y, dict) else {'logits': y}   # same accessor as the categorical models


def build(cfg, quant):
    key = (cfg, quant)
    if key in _upd:
        return _upd[key]
    alg, obs, act, t, vt, targ = cfg
    box = act in ('ba', 'b22')
    what = 'sv' if alg == 'SimpleTD' else 'sq'
    m = QuantileModel(obs, act, t, vt, box) if quant else M.Model(what, obs, act, t, vt, False, off=T.OFF, variate=box)
    kw = dict(optimizer=optax.sgd(LR), loss_function=T.loss_fn('mse'))
    cls = getattr(coax.td_learning, alg)
    targ, npi = targ if isinstance(targ, tuple) else (targ, 1)
    qs = [m.obj.copy() for _ in range(targ)]
    pm = M.Model('pi', obs, act, 2, 'none', True, off=T.OFF) if box or alg == 'ExpectedSarsa' else None
    pis = [pm.obj] + [pm.obj.copy() for _ in range(npi - 1)] if pm else []
    if 'Clipped' in alg:
        upd = T.quiet(cls, m.obj, pi_targ_list=pis or None, q_targ_list=qs, **kw)
    elif alg == 'SimpleTD':
        upd = cls(m.obj, v_targ=qs[0] if qs else None, **kw)
    else:
        if pm:
            kw['pi_targ'] = pm.obj
        upd = T.quiet(cls, m.obj, q_targ=qs[0] if qs else None, **kw)
    _upd[key] = m, pm, pis, qs, upd
    return _upd[key]


def strat(cfgs):
    @st.composite
    def case(draw):
        cfg = draw(st.integers(0, len(cfgs) - 1))
        return dict(cfg=cfg, B=draw(T.sizes(cfg)), p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), n=[draw(st.integers(0, 2)) for _ in range(3)],
                    w=draw(st.sampled_from(['one', 'mixed', 'mixed'])), scale=draw(st.sampled_from([0.1, 0.3])), steps=draw(st.integers(1, 2)))
    return case


def checker(cfgs, quant):
    def one(c, step):
        cfg = cfgs[c['cfg']]
        alg, obs, act, t, vt, targ = cfg
        m, pm, pis, qs, upd = build(cfg, quant)
        q = m.obj
        f, inv = M.VT_NP[vt]
        T.set_fn(q, c['p'] + 31 * step, c['n'][0], c['scale'])
        for k, o in enumerate(qs):
            T.set_fn(o, c['p'] + 31 * step + 1 + k, c['n'][1] + k, c['scale'])
        for k, o in enumerate(pis):
            T.set_fn(o, c['p'] + 31 * step + 11 + k, c['n'][2] + k, 0.2)
        rows, tb = T.batch(obs, act, c['x'] + step, c['w'], B=T.B if step else c['B'])
        pn = lambda o: (plain(tree_snapshot(o.params)), float(jax.tree_util.tree_leaves(o.function_state)[0]))
        Q, TQ = pn(q), [pn(o) for o in qs] or [pn(q)]
        if not quant:
            lo, hi = f(m.value_range[0]), f(m.value_range[1])
            z = lo + (np.arange(m.bins) + .5) * (hi - lo) / m.bins
        mean = (lambda l: l.mean(-1)) if quant else (lambda l: softmax(l, axis=-1) @ z)

        def out(pn_, s, a=None, mu=None, train=False):
            if mu is not None:
                return M.head_np(pn_[0], M.feats_np(m.sfeat(s), np.ravel(mu)), m.shapes, train, pn_[1], m.off)[0]
            return (m.ref(pn_[0], s, train=train, n=pn_[1]) if a is None else m.ref(pn_[0], s, a, train=train, n=pn_[1]))['logits']

        def target(x):
            """(parameters of the next-state distribution)"""
            s2 = x['s2']
            if alg == 'SimpleTD':
                return out(TQ[0], s2)
            if alg == 'Sarsa':
                return out(TQ[0], s2, x['a2'])
            if alg == 'ExpectedSarsa':
                pr = softmax(pm.ref(*pn(pm.obj)[:1], s2, n=pn(pm.obj)[1])['logits'])
                return np.log(pr @ softmax(out(TQ[0], s2), axis=-1))
            if act in ('ba', 'b22'):
                cand = [out(tq, s2, mu=pm.ref(pn(o)[0], s2, n=pn(o)[1])['mu']) for o in pis for tq in TQ]
                i = np.argmin([mean(l) for l in cand])
                if not T.gap_ok(-np.array([mean(l) for l in cand]), 1e-3):
                    return None
                return cand[i]
            means = [mean(out(tq, s2)) for tq in TQ]
            if not all(T.gap_ok(v, 2e-3) for v in means):
                return None
            if alg == 'QLearning':
                return out(TQ[0], s2, int(np.argmax(means[0])))
            if alg == 'DoubleQLearning':
                return out(Q, s2, int(np.argmax(means[0])))
            cand = {(j, int(np.argmax(means[i]))): float(mean(out(TQ[j], s2, int(np.argmax(means[i]))))) for i in range(len(TQ)) for j in range(len(TQ))}
            if not T.gap_ok(-np.array(list(cand.values())), 2e-3):
                return None
            j, a = min(cand, key=cand.get)
            return out(TQ[j], s2, a)

        tl = [target(x) for x in rows]
        if any(l is None for l in tl):
            raise Reject()
        W = T.clipw(rows)
        B = len(rows)
        y = np.stack([out(Q, x['s'], None if m.what == 'sv' else x['a'], train=True) for x in rows])
        if quant:
            tv = np.stack([f(x['r'] + x['i'] * inv(l)) for x, l in zip(rows, tl)])
            d = tv[:, None, :] - y[:, :, None]          # (B, pred, true)
            if np.any(np.abs(d) < 1e-4) or np.any(np.abs(np.abs(d) - 1) < 1e-3):
                raise Reject()
            fr = np.tile(FR, (B, 1))
            if m.mtype == 1:
                fr = fr + 0.8 / K * np.array([1 / (1 + np.exp(-M.feats_np(m.sfeat(x['s']), m.afeat(x['a'])).sum() - .5)) - .5 for x in rows])[:, None]
            rho = np.abs(fr[:, :, None] - (d < 0))
            a_ = np.abs(d)
            ell = np.mean(W[:, None] * (rho * np.where(a_ <= 1, d * d / 2, a_ - .5)).sum(-1))
            gl = W[:, None] * (rho * -np.clip(d, -1, 1)).sum(-1) / (B * K)
            G, Y = tv.mean(-1), y.mean(-1)
        else:
            tp = np.zeros((B, m.bins))
            for i, (x, l) in enumerate(zip(rows, tl)):
                pr = softmax(l)
                for k in range(m.bins):
                    b = (np.clip(f(x['r'] + x['i'] * inv(z[k])), z[0], z[-1]) - z[0]) / (z[1] - z[0])
                    tp[i] += pr[k] * np.maximum(0, 1 - np.abs(np.arange(m.bins) - b))
            ell = np.mean(W * -(tp * log_softmax(y, axis=-1)).sum(-1))
            gl = W[:, None] * (softmax(y, axis=-1) - tp) / B
            G, Y = tp @ z, mean(y)
        td = G - Y
        before = [tree_snapshot((o.params, o.function_state)) for o in [q, *qs, *pis]]
        tol = dict(rtol=3e-3, atol=5e-3)
        close(upd.td_error(tb), td, f'{alg}: TD error', **tol)
        grads, state, metrics, td2 = upd.grads_and_metrics(tb)
        close(td2, td, f'{alg}: TD error along with the gradients', **tol)
        close(metrics[f'{alg}/loss'], ell, f'{alg}: loss', rtol=5e-3, atol=1e-2)
        close(metrics[f'{alg}/td_error'], np.mean(W * td), 'mean weighted TD error', rtol=5e-3, atol=2e-2)
        name, shape = m.shapes[0]
        gw, gb = np.zeros(np.shape(Q[0]['~'][name + '_w'])), np.zeros(np.shape(Q[0]['~'][name + '_b']))
        for x, g in zip(rows, gl):
            fs = m.sfeat(x['s'])
            if m.what == 'sv':
                feat, sl = fs, slice(None)
            elif m.mtype == 1:
                feat, sl = M.feats_np(fs, m.afeat(x['a'])), slice(None)
            else:
                feat, sl = fs, slice(x['a'] * len(g), (x['a'] + 1) * len(g))
            gw[:, sl] += np.outer(feat, g)
            gb[sl] += g
        gref = {'~': {name + '_b': gb, name + '_w': gw}}
        gs = max(1., np.abs(gw).max())
        tree_close(plain(grads), gref, f'{alg}: gradient of the loss', rtol=5e-3, atol=5e-3 * gs)
        for o, b in zip([q, *qs], before):
            tree_equal((o.params, o.function_state), b, f'{alg}: computing gradients must not change anything')
        upd.update(tb)
        tree_close(plain(q.params), jax.tree_util.tree_map(lambda p, g: np.asarray(p, 'float64') - LR * g, Q[0], gref), f'{alg}: parameters after an sgd step', rtol=1e-3, atol=5e-3 * gs)
        tree_close(plain(q.function_state), plain(M.state(q, Q[1] + 1)), f'{alg}: function state after the update', rtol=1e-5, atol=1e-5)
        for o, b in zip([*qs, *pis], before[1:]):
            tree_equal((o.params, o.function_state), b, f'{alg}: target networks must not change')
        return any(x['i'] > 0 for x in rows)

    def check(c):
        return bool(sum([one(c, step) for step in range(c['steps'])]))
    return check


SUBS = [Sub('categorical_v', strat(CAT_V), checker(CAT_V, False), quick=40, thorough=1000, budget=60, split=strata(cfg=range(len(CAT_V)))),
        Sub('categorical_q', strat(CAT_Q), checker(CAT_Q, False), quick=90, thorough=2000, budget=90, split=strata(cfg=range(len(CAT_Q)))),
        Sub('categorical_more', strat(CAT_C), checker(CAT_C, False), quick=60, thorough=1500, budget=90, split=strata(cfg=range(len(CAT_C)))),
        Sub('quantiles', strat(QUANT), checker(QUANT, True), quick=60, thorough=1500, budget=80, split=strata(cfg=range(len(QUANT))))]
