from hypothesis import strategies as st
from lib.pbt import Sub, Reject, require, close, raises, tree_equal, tree_close, tree_snapshot, plain, strata
from lib import models as M, td as T
from scipy.special import logsumexp, softmax
import itertools
import jax
import jax.numpy as jnp
import numpy as np
import optax
import coax

RULE = ('Cases: (algorithm, spaces, model type, value transform, preprocessors, loss, target network, parameters of every network, function states, batch of '
        '1, 3, 4 or 40 transitions with terminal and non-terminal ones and importance weights inside and outside the clipping range). Non-trivial: at least one non-terminal transition.')
ASSUMPTIONS = ['target networks have the architecture of the network that is learned (but possibly their own value transform)', 'for non-discrete actions the q-function uses the action preprocessor of the target policy',
               'cases in which float32 rounding may decide an argmax are skipped']

LR = 0.125
# algorithm, obs, act, model type, value transform, custom preprocessors (of the policy only / the q-function only / its observations only), loss, separate target
V = [('SimpleTD', 'b3', 'd2', 2, 'none', False, 'mse', False), ('SimpleTD', 'dict', 'd2', 2, 'log', False, 'huber', True), ('SimpleTD', 'd3', 'd2', 2, 'pair', True, 'default', True),
     ('SimpleTD', 'b3', 'd2', 2, 'log', False, 'mse', True), ('SimpleTD', 'd3', 'd2', 2, 'log', False, 'mse', 'pair')]
QD = [('Sarsa', 'b3', 'd4', 1, 'none', False, 'mse', True), ('Sarsa', 'dict', 'd2', 2, 'log', False, 'huber', True), ('Sarsa', 'd3', 'd3', 1, 'pair', True, 'default', False),
      ('QLearning', 'b3', 'd4', 1, 'log', False, 'mse', True), ('QLearning', 'dict', 'd2', 2, 'none', False, 'huber', True), ('QLearning', 'd3', 'd11', 2, 'pair', False, 'mse', False),
      ('DoubleQLearning', 'b3', 'd11', 1, 'none', False, 'mse', True), ('DoubleQLearning', 'dict', 'd2', 2, 'log', False, 'huber', True),
      ('SoftQLearning/0.8', 'b3', 'd4', 1, 'none', False, 'mse', True), ('SoftQLearning/0.1', 'b3', 'd4', 2, 'none', False, 'mse', True), ('SoftQLearning/4', 'd3', 'd3', 1, 'none', False, 'mse', False), ('SoftQLearning/0.8', 'd3', 'd3', 2, 'log', False, 'huber', True),
      ('ExpectedSarsa', 'b3', 'd4', 1, 'none', 'pi', 'mse', True), ('ExpectedSarsa', 'd3', 'd3', 2, 'log', 'q', 'huber', True),
      ('ExpectedSarsa/boltz', 'b3', 'd4', 2, 'none', False, 'mse', True),
      # target networks with a value transform of their own
      ('Sarsa', 'b3', 'd4', 1, 'none', False, 'mse', 'log'), ('QLearning', 'd3', 'd3', 2, 'log', False, 'mse', 'pair'), ('ExpectedSarsa', 'd3', 'd3', 1, 'pair', False, 'mse', 'log'),
      ('SoftQLearning/0.8', 'b3', 'd4', 2, 'log', False, 'huber', 'none')]
QC = [('Sarsa', 'b3', 'ba', 1, 'log', False, 'mse', True), ('QLearning', 'b3', 'ba', 1, 'none', 'pi', 'mse', True), ('QLearning', 'd3', 'b22', 1, 'pair', False, 'huber', True),
      ('DoubleQLearning', 'b3', 'ba', 1, 'log', 'obs', 'mse', True)]
CL = [('ClippedDoubleQLearning', 'b3', 'd4', 1, 'none', False, 'mse', 2), ('ClippedDoubleQLearning', 'd3', 'd11', 2, 'log', False, 'huber', 3),
      ('ClippedDoubleQLearning', 'b3', 'ba', 1, 'pair', 'pi', 'mse', (2, 1)), ('ClippedDoubleQLearning', 'b3', 'b22', 1, 'none', 'obs', 'mse', (2, 2)), ('ClippedDoubleQLearning', 'd3', 'ba', 1, 'none', False, 'mse', (1, 3)),
      ('SoftClippedDoubleQLearning', 'd3', 'd3', 1, 'none', False, 'mse', 2), ('SoftClippedDoubleQLearning', 'b3', 'ba', 1, 'log', 'pi', 'mse', (3, 3)),
      ('ClippedDoubleQLearning', 'd3', 'd3', 2, 'pair', False, 'mse', 'log,none'), ('SoftClippedDoubleQLearning', 'd3', 'd3', 1, 'none', False, 'mse', 'pair,log')]
_upd = {}


def build(cfg):
    if cfg in _upd:
        return _upd[cfg]
    alg, obs, act, t, vt, custom, loss, targ = cfg
    alg, _, pol = alg.partition('/')
    box = act in ('ba', 'b22')
    m = M.Model('v' if alg == 'SimpleTD' else 'q', obs, act, t, vt, custom != 'pi' and custom, off=T.OFF, variate=box)
    own = lambda k: M.Model(m.what, obs, act, t, k, False, off=T.OFF).obj
    m.targ_vt = targ.split(',') if isinstance(targ, str) else [vt] * 9
    kw = dict(optimizer=optax.sgd(LR), loss_function=T.loss_fn(loss))
    cls = getattr(coax.td_learning, alg)
    pis, qs = [], []
    if 'Clipped' in alg:
        nq, npi = targ if isinstance(targ, tuple) else (targ, 0)
        qs = [own(k) for k in targ.split(',')] if isinstance(targ, str) else [m.obj.copy() for _ in range(nq)]
        pm = M.Model('pi', obs, act, 2, 'none', custom in (True, 'pi'), off=T.OFF) if npi else None
        pis = [pm.obj.copy() for _ in range(npi)]
        upd = T.quiet(cls, m.obj, pi_targ_list=pis or None, q_targ_list=qs, **kw)
    else:
        pm = None
        qs = [own(targ)] if isinstance(targ, str) else [m.obj.copy()] if targ else []
        if alg == 'SimpleTD':
            upd = cls(m.obj, v_targ=qs[0] if qs else None, **kw)
        else:
            if qs:
                kw['q_targ'] = qs[0]
            if pol == 'boltz':
                pis = [coax.BoltzmannPolicy(qs[0] if qs else m.obj, temperature=0.7)]
                kw['pi_targ'] = pis[0]
            elif alg == 'ExpectedSarsa' or (box and alg != 'Sarsa'):
                pm = M.Model('pi', obs, act, 2, 'none', custom in (True, 'pi'), off=T.OFF)
                pis = [pm.obj]
                kw['pi_targ'] = pm.obj
            if alg == 'SoftQLearning':
                kw['temperature'] = m.tau = float(pol)
            upd = T.quiet(cls, m.obj, **kw)
    _upd[cfg] = alg, m, pm, qs, pis, upd
    return _upd[cfg]


def logvar(pm, pi, value):
    """constant log-variance of a gaussian policy (the leaves are sorted: logvar, mu)"""
    new = {'~': dict(plain(pi.params)['~'])}
    lv = pm.shapes[0][0]
    new['~'][lv + '_b'] = jnp.zeros_like(new['~'][lv + '_b']) + jnp.asarray(value, 'float32')
    new['~'][lv + '_w'] = jnp.zeros_like(new['~'][lv + '_w'])
    pi.params = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(pi.params), jax.tree_util.tree_leaves(new))


def strat(cfgs):
    @st.composite
    def case(draw):
        cfg = draw(st.integers(0, len(cfgs) - 1))
        return dict(cfg=cfg, B=draw(T.sizes(cfg)), p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), n=[draw(st.integers(0, 3)) for _ in range(3)],
                    w=draw(st.sampled_from(['one', 'mixed', 'mixed'])), steps=draw(st.integers(1, 2)))
    return case


def target(alg, m, pm, q, tq, pis, row):
    """bootstrapped target in the original (untransformed) space; q, tq: [(params, n)]; None if ambiguous"""
    _, inv = M.VT_NP[m.vt_kind]
    tinv = [M.VT_NP[k][1] for k in m.targ_vt]
    s2, r, i = row['s2'], row['r'], row['i']
    if m.what == 'v':
        return r + i * tinv[0](m.ref(tq[0][0], s2, n=tq[0][1]))
    if alg == 'Sarsa':
        return r + i * tinv[0](m.ref(tq[0][0], s2, row['a2'], n=tq[0][1]))
    if m.n_actions is None:
        acts = [pm.ref(p, s2, n=n)['mu'] for p, n in pis]

        def qa(pn, mu):
            f = M.feats_np(m.sfeat(s2), np.asarray(mu).ravel())
            return float(inv(M.head_np(pn[0], f, m.shapes, False, pn[1], m.off)[0]))
        if alg == 'QLearning':
            return r + i * qa(tq[0], acts[0])
        if alg == 'DoubleQLearning':
            return r + i * qa(q, acts[0])
        return r + i * min(qa(t, a) for t in tq for a in acts)
    vals = [f(m.ref(p, s2, n=n)) for f, (p, n) in zip(tinv, tq)]
    raw = [m.ref(p, s2, n=n) for p, n in tq]
    if alg in ('QLearning', 'DoubleQLearning', 'ClippedDoubleQLearning', 'SoftClippedDoubleQLearning') and not all(T.gap_ok(v) for v in raw):
        return None
    if alg == 'QLearning':
        return r + i * vals[0].max()
    if alg == 'DoubleQLearning':
        return r + i * inv(m.ref(q[0], s2, n=q[1]))[np.argmax(raw[0])]
    if alg == 'SoftQLearning':
        return r + i * m.tau * logsumexp(vals[0] / m.tau)
    if alg == 'ExpectedSarsa':
        pr = softmax(vals[0] / 0.7) if pm is None else softmax(pm.ref(pis[0][0], s2, n=pis[0][1])['logits'])
        return r + i * float(pr @ vals[0])
    return r + i * min(v[np.argmax(u)] for v in vals for u in raw)


def checker(cfgs):
    def check(c):
        cfg = cfgs[c['cfg']]
        alg, m, pm, qs, pis, upd = build(cfg)
        obs, act, vt, loss = cfg[1], cfg[2], cfg[4], cfg[6]
        q = m.obj
        sharp = alg.startswith('Soft') and pm is not None
        tol = dict(rtol=0.03, atol=0.15) if sharp else dict(rtol=2e-3, atol=2e-3)
        f = M.VT_NP[vt][0]
        boot = False
        for step in range(c['steps']):
            # all networks change between the updates
            T.set_fn(q, c['p'] + 31 * step, c['n'][0], 0.2)
            for k, t in enumerate(qs):
                T.set_fn(t, c['p'] + 1 + k + 31 * step, c['n'][1] + k + step, 0.2)
            for k, p in enumerate(pis):
                if pm is not None:
                    T.set_fn(p, c['p'] + 11 + k + 31 * step, c['n'][2] + k + step, 0.2)
                    if sharp:  # sampled actions: make the target policy (nearly) deterministic
                        logvar(pm, p, -40.)
            rows, tb = T.batch(obs, act, c['x'] + step, c['w'], B=T.B if step else c['B'])
            boot |= any(x['i'] > 0 for x in rows)
            pn = lambda o: (plain(tree_snapshot(o.params)), float(jax.tree_util.tree_leaves(o.function_state)[0]))
            Q, TQ = pn(q), [pn(t) for t in qs] or [pn(q)]
            PI = [pn(p) for p in pis] if pm is not None else []
            G = [target(alg, m, pm, Q, TQ, PI, x) for x in rows]
            if any(g is None for g in G):
                raise Reject()
            if np.abs(G).max() > 1e6:  # the scale on which float32 fails
                raise Reject()
            G = f(np.array(G, 'float64'))
            y = np.array([m.ref(Q[0], x['s'], x['a'], train=True, n=Q[1]) if m.what == 'q' else m.ref(Q[0], x['s'], train=True, n=Q[1]) for x in rows])
            kind = 'huber' if loss == 'default' else loss
            if T.near_kink(kind, G, y):
                raise Reject()
            W = T.clipw(rows)
            ell, g = T.loss_np(kind, G, y, W)
            td = -T.loss_np(kind, G, y, np.ones(len(rows)))[1] * len(rows)
            before = [tree_snapshot((o.params, o.function_state)) for o in [q, *qs, *pis]]
            btb = tree_snapshot(tb._asdict())
            close(upd.td_error(tb), td, f'{alg}: TD error', **tol)
            grads, state, metrics, td2 = upd.grads_and_metrics(tb)
            close(td2, td, f'{alg}: TD error along with the gradients', **tol)
            gref = T.lin_grads(m, Q[0], rows, g)
            gscale = max(1., max(np.abs(l).max() for l in jax.tree_util.tree_leaves(gref)))
            gtol = dict(rtol=5e-3, atol=(0.5 if sharp else 4e-3) * gscale)
            tree_close(plain(grads), gref, f'{alg}: gradient of the loss', **gtol)
            close(metrics[f'{alg}/loss'], ell, 'loss', rtol=0.2 if sharp else 5e-3, atol=0.5 if sharp else 5e-3)
            close(metrics[f'{alg}/td_error'], np.mean(W * td), 'mean weighted TD error', rtol=0.1 if sharp else 5e-3, atol=0.5 if sharp else 1e-2)
            for o, b in zip([q, *qs, *pis], before):
                tree_equal((o.params, o.function_state), b, f'{alg}: computing gradients must not change anything')
            r = upd.update(tb, return_td_error=True)
            close(r[1], td, f'{alg}: TD error returned by the update', **tol)
            exp = jax.tree_util.tree_map(lambda p, g: np.asarray(p, 'float64') - LR * g, Q[0], gref)
            tree_close(plain(q.params), exp, f'{alg}: parameters after an sgd step', rtol=1e-3, atol=gtol['atol'])
            tree_close(plain(q.function_state), plain(M.state(q, Q[1] + 1)), f'{alg}: function state after the update', rtol=1e-5, atol=1e-5)
            for o, b in list(zip([q, *qs, *pis], before))[1:]:
                if not hasattr(o, 'temperature'):
                    tree_equal((o.params, o.function_state), b, f'{alg}: the target networks and policies must not change')
            tree_equal(tb._asdict(), btb, f'{alg}: the batch must not change')
        return boot
    return check


# ---- exactly tied actions ------------------------------------------------------------------------------
TIES = [('QLearning', 'd3', 'd3', 2, 'none', False, 'mse', True), ('QLearning', 'd3', 'd3', 2, 'log', False, 'mse', True), ('DoubleQLearning', 'd3', 'd3', 2, 'none', False, 'mse', True),
        ('ClippedDoubleQLearning', 'd3', 'd3', 2, 'none', False, 'mse', 2), ('SoftClippedDoubleQLearning', 'd3', 'd3', 2, 'none', False, 'mse', 2)]


@st.composite
def case_tie(draw):
    cfg = draw(st.integers(0, len(TIES) - 1))
    return dict(cfg=cfg, B=draw(T.sizes(cfg)), p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), hi=draw(st.integers(0, 2)))


def check_tie(c):
    """small-integer tables: the bootstrapped value is that of (a mixture of) the best actions"""
    cfg = TIES[c['cfg']]
    alg, m, pm, qs, pis, upd = build(cfg)
    rnd = np.random.RandomState(c['p'])
    for k, o in enumerate([m.obj, *qs]):
        o.params = jax.tree_util.tree_map(lambda x: jnp.asarray(rnd.randint(0, c['hi'] + 1, np.shape(x)) if x.ndim > 1 else np.zeros(np.shape(x)), 'float32'), o.params)
        o.function_state = M.state(o, 0.)
    rows, tb = T.batch('d3', 'd3', c['x'], 'one', B=c['B'])
    f, inv = M.VT_NP[cfg[4]]
    pn = lambda o: plain(tree_snapshot(o.params))
    Q, TQ = pn(m.obj), [pn(t) for t in qs]
    td = np.asarray(upd.td_error(tb))
    tied = False
    for k, x in enumerate(rows):
        raw = [m.ref(t, x['s2'], n=0.) for t in TQ]
        # (state-independent offsets of the reference model may break ties: only exact ones count)
        best = [np.flatnonzero(np.abs(v - v.max()) < 1e-9) for v in raw]
        tied |= x['i'] > 0 and any(1 < len(b) for b in best)
        ev = [m.ref(Q, x['s2'], n=0.)] if alg == 'DoubleQLearning' else raw
        lo = min(v[b].min() for v in ev for b in best)
        hi = min(v[b].max() for v in ev for b in best)
        y = m.ref(Q, x['s'], x['a'], train=True, n=0.)
        lo, hi = f(x['r'] + x['i'] * inv(lo)) - y, f(x['r'] + x['i'] * inv(hi)) - y
        require(lo - 2e-3 <= td[k] <= hi + 2e-3, f'{alg}: TD error {td[k]} with tied actions, expected between {lo} and {hi} (target values {[v.tolist() for v in raw]})')
    return bool(tied)


# ---- sampled next actions ------------------------------------------------------------------------------
@st.composite
def case_sampled(draw):
    return dict(p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), lv=[draw(st.floats(-2, 1, width=32)) for _ in range(2)], low=draw(st.integers(0, 1)))


def check_sampled(c):
    """soft-clipped double Q-learning: the next action is a sample of the target policy"""
    N = 1024
    alg, m, pm, qs, pis, upd = build(('SoftClippedDoubleQLearning', 'b3', 'ba', 1, 'none', False, 'mse', (2, 1)))
    T.set_fn(m.obj, c['p'], 0, 0.2)
    T.set_fn(qs[0], c['p'] + 1, 0, 0.3)
    new = {'~': dict(plain(qs[0].params)['~'])}
    name = m.shapes[0][0]
    new['~'][name + '_b'] = new['~'][name + '_b'] + 100.   # never the smallest
    qs[1].params = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(qs[1].params), jax.tree_util.tree_leaves(new))
    qs[1].function_state = qs[0].function_state
    if c['low']:
        qs[0].params, qs[1].params = qs[1].params, qs[0].params
    T.set_fn(pis[0], c['p'] + 2, 0, 0.1)
    logvar(pm, pis[0], c['lv'])
    rows, tb = T.batch('b3', 'ba', c['x'], 'one', B=1)
    x = rows[0]
    tb.In = np.array([0.9], 'float32')
    tb = jax.tree_util.tree_map(lambda a: np.repeat(np.asarray(a), N, axis=0), tb)
    pn = lambda o: (plain(tree_snapshot(o.params)), float(jax.tree_util.tree_leaves(o.function_state)[0]))
    out = pm.ref(pn(pis[0])[0], x['s2'], n=0.)
    mu, var = np.asarray(out['mu'], 'float64'), np.exp(np.asarray(out['logvar'], 'float64'))
    qmin = pn(qs[c['low']])
    value = lambda a: float(M.head_np(qmin[0], M.feats_np(m.sfeat(x['s2']), a), m.shapes, False, qmin[1], m.off)[0])
    # the value is quadratic in the action: exact derivatives by differences
    e = np.eye(2)
    v = value(mu)
    jac = np.array([(value(mu + d) - value(mu - d)) / 2 for d in e])
    cur = np.array([(value(mu + d) + value(mu - d)) / 2 - v for d in e])
    cross = value(mu + e[0] + e[1]) - value(mu + e[0]) - value(mu + e[1]) + v
    mean = v + cur @ var
    sd = np.sqrt(jac ** 2 @ var + 2 * cur ** 2 @ var ** 2 + cross ** 2 * var[0] * var[1])
    y = m.ref(pn(m.obj)[0], x['s'], x['a'], train=True, n=0.)
    got = (np.asarray(upd.td_error(tb), 'float64') + y - x['r']) / 0.9
    require(abs(got.mean() - mean) < 9 * sd / np.sqrt(N) + 1e-3 * (1 + abs(mean) + abs(y)), f'mean value of the sampled next actions: {got.mean()}, expected {mean} +- {sd / np.sqrt(N)}')
    require(abs(got.std() - sd) < 0.5 * sd + 1e-2, f'spread of the values of sampled next actions: {got.std()}, expected {sd}')
    return bool(sd > 0.1)


@st.composite
def case_bad(draw):
    return dict(bad=draw(st.sampled_from(['v', 'q', 'vt', 'qt', 'pi', 'reg', 'box_q', 'box_dq', 'box_es', 'box_soft', 'es_nopi', 'clip_none', 'clip_one', 'clip_type', 'clip_box', 'soft_sq'])))


def check_bad(c):
    t = coax.td_learning
    q, v, pi = T.model('q', 'b3', 'd4', 1).obj, T.model('v', 'b3', 'd2', 2).obj, T.model('pi', 'b3', 'd4', 2).obj
    qb = T.model('q', 'b3', 'ba', 1, variate=True).obj
    pb = T.model('pi', 'b3', 'ba', 2).obj
    exc, fn = {
        'v': (TypeError, lambda: t.SimpleTD(q)), 'q': (TypeError, lambda: t.Sarsa(v)), 'vt': (TypeError, lambda: t.SimpleTD(v, v_targ=q)),
        'qt': (TypeError, lambda: t.QLearning(q, q_targ=v)), 'pi': (TypeError, lambda: t.QLearning(qb, pi_targ=q)), 'reg': (TypeError, lambda: t.Sarsa(q, policy_regularizer=pi)),
        'box_q': (TypeError, lambda: t.QLearning(qb)), 'box_dq': (TypeError, lambda: t.DoubleQLearning(qb)), 'box_es': (NotImplementedError, lambda: t.ExpectedSarsa(qb, pb)),
        'box_soft': (NotImplementedError, lambda: t.SoftQLearning(qb)), 'es_nopi': (TypeError, lambda: t.ExpectedSarsa(q, None)),
        'clip_none': (TypeError, lambda: t.ClippedDoubleQLearning(q)), 'clip_one': (ValueError, lambda: t.ClippedDoubleQLearning(q, q_targ_list=[q])),
        'clip_type': (TypeError, lambda: t.ClippedDoubleQLearning(q, q_targ_list=[q, v])), 'clip_box': (TypeError, lambda: t.ClippedDoubleQLearning(qb, q_targ_list=[qb, qb])),
        'soft_sq': (NotImplementedError, lambda: t.SoftQLearning(M.get('sq', 'b3', 'd4', 1, 'none', False).obj))}[c['bad']]
    raises(exc, fn, f'ill-formed updater: {c["bad"]}')
    return True


SUBS = [Sub('state_values', strat(V), checker(V), quick=60, thorough=1500, budget=60, split=strata(cfg=range(len(V)))),
        Sub('discrete', strat(QD), checker(QD), quick=120, thorough=3000, budget=90, split=strata(cfg=range(len(QD)))),
        Sub('continuous', strat(QC), checker(QC), quick=60, thorough=1500, budget=60, split=strata(cfg=range(len(QC)))),
        Sub('clipped', strat(CL), checker(CL), quick=60, thorough=1500, budget=80, split=strata(cfg=range(len(CL)))),
        Sub('ties', case_tie, check_tie, quick=80, thorough=1500, budget=40, split=strata(cfg=range(len(TIES)))),
        Sub('sampled', case_sampled, check_sampled, quick=40, thorough=600, budget=40),
        Sub('reject', case_bad, check_bad, quick=32, thorough=32, budget=40, split=strata(bad=['v', 'q', 'vt', 'qt', 'pi', 'reg', 'box_q', 'box_dq', 'box_es', 'box_soft', 'es_nopi', 'clip_none', 'clip_one', 'clip_type', 'clip_box', 'soft_sq']))]
