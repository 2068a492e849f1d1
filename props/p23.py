from hypothesis import strategies as st
from lib.pbt import Sub, Reject, require, close, raises, tree_equal, tree_close, tree_snapshot, plain, strata
from lib import models as M, td as T, dist as D
import warnings
import jax
import jax.numpy as jnp
import numpy as np
import optax
import coax

RULE = ('Cases: (objective, spaces, preprocessors, parameters and function states of policy and critics, batch of 1, 3, 4 or 40 transitions with importance weights and '
        'propensities, advantages of both signs, epsilon). Non-trivial: advantages of both signs; for critics, not all rows have the same minimal critic.')
ASSUMPTIONS = ['critics use the policy\'s action representation and compute the same in training mode as otherwise', 'cases at a kink of clip/minimum within float32 rounding are skipped',
               'critics: non-discrete actions']
LR = 0.125
PI = [('VanillaPG', 'b3', 'd4', False), ('VanillaPG', 'dict', 'b22', False), ('VanillaPG', 'd3', 'tup', True), ('VanillaPG', 'b3', 'd2', True),
      ('PPOClip', 'b3', 'd4', False), ('PPOClip', 'dict', 'ba', False), ('PPOClip', 'd3', 'tup', False), ('PPOClip', 'b3', 'd2', True)]
CR = [('DeterministicPG', 'b3', 'q', 1, 'none'), ('DeterministicPG', 'dict', 'q', 1, 'log'), ('DeterministicPG', 'd3', 'sq', 1, 'none'), ('SoftPG', 'b3', 'q', 1, 'none'),
      ('SoftPG', 'd3', 'q', 3, 'pair'), ('SoftPG', 'b3', 'sq', 2, 'none'), ('DeterministicPG', 'b3', 'sq', 1, 'log'),
      ('SoftPG', 'b3', 'q/obs sq q', 3, 'pair none log')]   # critics of different kinds, preprocessors and value transforms
DINV = dict(none=lambda x: 1., pair=lambda x: 0.5, log=lambda x: np.exp(abs(x) / 2))
QOFF = (0., 0.25)
_c = {}


def build(cfg):
    if cfg not in _c:
        if cfg[0] in ('VanillaPG', 'PPOClip'):
            alg, obs, act, custom = cfg
            pm = M.Model('pi', obs, act, 2, 'none', custom, off=T.OFF)
            _c[cfg] = pm, [], [], getattr(coax.policy_objectives, alg)(pm.obj, optimizer=optax.sgd(LR))
        else:
            alg, obs, kind, k, vt = cfg
            act = 'b22' if obs == 'dict' else 'ba'
            pm = M.Model('pi', obs, act, 2, 'none', obs == 'b3', off=T.OFF)
            if ' ' in kind:
                qms = [M.Model(a.split('/')[0], obs, act, 1, b, '/' in a and 'obs', off=QOFF, variate=True) for a, b in zip(kind.split(), vt.split())]
                qs = [q.obj for q in qms]
            else:
                qms = [M.Model(kind, obs, act, 1, vt, obs == 'd3' and 'obs', off=QOFF, variate=True)] * k
                qs = [q.obj.copy() for q in qms]
            cls = getattr(coax.policy_objectives, alg)
            _c[cfg] = pm, qms, qs, cls(pm.obj, qs[0] if alg == 'DeterministicPG' else qs, optimizer=optax.sgd(LR))
    return _c[cfg]


def strat(cfgs):
    @st.composite
    def case(draw):
        cfg = draw(st.integers(0, len(cfgs) - 1))
        return dict(cfg=cfg, B=draw(T.sizes(cfg)), p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), n=[draw(st.integers(0, 3)) for _ in range(3)],
                    w=draw(st.sampled_from(['one', 'mixed', 'mixed'])), eps=draw(st.one_of(st.none(), st.sampled_from([0.01, 0.1, 0.5]))), steps=draw(st.integers(1, 2)),
                    spread=draw(st.sampled_from([0.02, 0.3, 1.])))
    return case


def pn(o):
    return plain(tree_snapshot(o.params)), float(jax.tree_util.tree_leaves(o.function_state)[0])


def judge(alg, pm, others, obj, tb, adv, P, obj_ref, grad_ref, loss_tol, gtol, kl=None):
    pi = pm.obj
    before = [tree_snapshot((o.params, o.function_state)) for o in [pi, *others]]
    btb = tree_snapshot(tb._asdict())
    args = (tb,) if adv is None else (tb, adv)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        grads, state, metrics = obj.grads_and_metrics(*args)
    close(metrics[f'{alg}/loss'], -obj_ref, f'{alg}: loss is minus the objective', **loss_tol)
    close(metrics[f'{alg}/loss_bare'], -obj_ref, f'{alg}: bare loss', **loss_tol)
    if kl is not None:
        close(metrics[f'{alg}/kl_div_old'], kl, f'{alg}: divergence from the behaviour policy', rtol=5e-3, atol=5e-3)
    neg = jax.tree_util.tree_map(lambda g: -g, grad_ref)
    tree_close(plain(grads), neg, f'{alg}: gradient of the loss', **gtol)
    for o, b in zip([pi, *others], before):
        tree_equal((o.params, o.function_state), b, f'{alg}: computing gradients must not change anything')
    obj.update(*args)
    exp = jax.tree_util.tree_map(lambda p, g: np.asarray(p, 'float64') - LR * g, P[0], neg)
    tree_close(plain(pi.params), exp, f'{alg}: parameters after an sgd step', rtol=1e-3, atol=gtol['atol'])
    tree_close(plain(pi.function_state), plain(M.state(pi, P[1] + 1)), f'{alg}: function state after the update', rtol=1e-5, atol=1e-5)
    for o, b in list(zip([pi, *others], before))[1:]:
        tree_equal((o.params, o.function_state), b, f'{alg}: critics must not change')
    tree_equal(tb._asdict(), btb, f'{alg}: the batch must not change')


def check_pi(c):
    cfg = PI[c['cfg']]
    alg, obs, act, custom = cfg
    pm, _, _, obj = build(cfg)
    if alg == 'PPOClip':
        obj.epsilon = 0.2 if c['eps'] is None else c['eps']
    both = False
    for step in range(c['steps']):
        rows, tb = T.batch(obs, act, c['x'] + step, c['w'], B=T.B if step else c['B'])
        rnd = np.random.RandomState(c['x'] + 7 + step)
        T.set_fn(pm.obj, c['p'] + 31 * step, c['n'][0] + step, 0.2)
        P = pn(pm.obj)
        outs = [pm.ref(P[0], x['s'], train=True, n=P[1]) for x in rows]
        lps = [D.logp(act, o, x['a']) for o, x in zip(outs, rows)]
        logpi = np.array([l for l, _ in lps])
        if np.any(logpi < -60):
            raise Reject()
        logold = (logpi + c['spread'] * rnd.randn(len(rows))).astype('float32')
        tb.logP = logold
        adv = rnd.randn(len(rows)).astype('float32')
        W = T.clipw(rows)
        if alg == 'VanillaPG':
            J, gl = W * adv * logpi, W * adv
        else:
            r = np.exp(logpi - logold)
            e = float(np.float32(obj.epsilon))
            if np.any(np.abs(r - 1 - e) < 3e-3) or np.any(np.abs(r - 1 + e) < 3e-3):
                raise Reject()
            J = W * np.minimum(adv * r, adv * np.clip(r, 1 - e, 1 + e))
            clipped = np.where(adv > 0, r > 1 + e, r < 1 - e)
            gl = np.where(clipped, 0, W * adv * r)
        gs = [[g * k / len(rows) for k in lp[1]] for g, lp in zip(gl, lps)]
        gref = D.head_grads(pm, [pm.sfeat(x['s']) for x in rows], gs)
        scale = max(1., max(np.abs(l).max() for l in jax.tree_util.tree_leaves(gref)))
        kl = np.mean(np.exp(logold.astype('float64')) * (logold - logpi))
        judge(alg, pm, [], obj, tb, adv, P, np.mean(J), gref, dict(rtol=5e-3, atol=5e-3 * (1 + np.abs(J).max())), dict(rtol=1e-2, atol=5e-3 * scale),
              kl if abs(kl) < 1e3 else None)
        both |= bool(np.any(adv > 0) and np.any(adv < 0))
    return both


def critic(qm, params, n, s, mu):
    """value and derivative with respect to the action"""
    fs = qm.sfeat(s)
    f = M.feats_np(fs, mu)
    p = {k: np.asarray(v, 'float64') for k, v in params['~'].items()}
    name = qm.shapes[0][0]
    k, ka = len(fs), len(mu)
    y = M.head_np(params, f, qm.shapes, False, n, qm.off)[0]
    w = p[name + '_w']
    jac = np.stack([w[k + j] + sum(fs[i] * w[k + ka + i * ka + j] for i in range(k)) + 2 * mu[j] * w[k + ka + k * ka + j] for j in range(ka)])
    f, inv = M.VT_NP[qm.vt_kind]
    if qm.what == 'q':
        return float(inv(float(y))), jac[:, 0] * DINV[qm.vt_kind](float(y))
    lo, hi = map(f, qm.value_range)
    atoms = lo + (hi - lo) / qm.bins * (np.arange(qm.bins) + .5)
    pr = np.exp(y['logits'] if isinstance(y, dict) else y)
    pr /= pr.sum()
    v = pr @ atoms
    return float(inv(v)), jac @ (pr * (atoms - v)) * DINV[qm.vt_kind](v)


def check_cr(c):
    cfg = CR[c['cfg']]
    alg, obs, kind, k, vt = cfg
    pm, qms, qs, obj = build(cfg)
    sharp = alg == 'SoftPG'
    nontriv = False
    for step in range(c['steps']):
        T.set_fn(pm.obj, c['p'] + 31 * step, c['n'][0] + step, 0.2)
        for j, q in enumerate(qs):
            T.set_fn(q, c['p'] + 1 + j + 31 * step, c['n'][1] + j + step, 0.3)
        if sharp:  # sampled actions: make the policy (nearly) deterministic
            new = {'~': dict(plain(pm.obj.params)['~'])}
            lv = pm.shapes[0][0]
            new['~'][lv + '_b'] = jnp.full_like(new['~'][lv + '_b'], -40.)
            new['~'][lv + '_w'] = jnp.zeros_like(new['~'][lv + '_w'])
            pm.obj.params = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(pm.obj.params), jax.tree_util.tree_leaves(new))
        rows, tb = T.batch(obs, pm.act, c['x'] + step, c['w'], B=T.B if step else c['B'])
        P, Q = pn(pm.obj), [pn(q) for q in qs]
        W = T.clipw(rows)
        J, gs, who = [], [], []
        for x, w in zip(rows, W):
            mu = np.ravel(pm.ref(P[0], x['s'], train=True, n=P[1])['mu'])
            if np.abs(mu).max() > 20:
                raise Reject()
            v = [critic(qm, p, n, x['s'], mu) for qm, (p, n) in zip(qms, Q)]
            vals = np.array([a for a, _ in v])
            if np.abs(vals).max() > 200:
                raise Reject()
            if len(vals) > 1 and np.diff(np.sort(vals))[0] < 5e-3 * (1 + np.abs(vals).max()):
                raise Reject()
            i = int(np.argmin(vals))
            who.append(i)
            J.append(w * vals[i])
            gs.append([np.zeros(mu.size), w * v[i][1] / len(rows)])
        gref = D.head_grads(pm, [pm.sfeat(x['s']) for x in rows], gs)
        scale = max(1., max(np.abs(l).max() for l in jax.tree_util.tree_leaves(gref)))
        judge(alg, pm, qs, obj, tb, None, P, np.mean(J), gref, dict(rtol=1e-2, atol=1e-2 * (1 + np.abs(J).max())), dict(rtol=2e-2, atol=(1e-2 if sharp else 5e-3) * scale))
        nontriv |= k == 1 or len(set(who)) > 1
    return nontriv


# ---- the action of SoftPG is a sample ----------------------------------------------------------------
@st.composite
def case_sample(draw):
    return dict(p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), lv=[draw(st.floats(-2, 1, width=32)) for _ in range(2)])


def check_sample(c):
    N = 1024
    pm, (qm,), qs, obj = build(CR[3])
    T.set_fn(pm.obj, c['p'], 0, 0.1)
    T.set_fn(qs[0], c['p'] + 1, 0, 0.3)
    new = {'~': dict(plain(pm.obj.params)['~'])}
    lv = pm.shapes[0][0]
    new['~'][lv + '_w'] = jnp.zeros_like(new['~'][lv + '_w'])
    new['~'][lv + '_b'] = jnp.asarray(c['lv'], 'float32') - T.OFF[0] * (1 + 0.5 * jnp.arange(2))  # training offset
    pm.obj.params = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(pm.obj.params), jax.tree_util.tree_leaves(new))
    rows, tb = T.batch('b3', 'ba', c['x'], 'one', B=1)
    tb = jax.tree_util.tree_map(lambda x: np.repeat(np.asarray(x), N, axis=0), tb)
    P, Q = pn(pm.obj), pn(qs[0])
    out = pm.ref(P[0], rows[0]['s'], train=True, n=P[1])
    mu, var = np.asarray(out['mu']), np.exp(np.asarray(out['logvar']))
    fs = qm.sfeat(rows[0]['s'])
    name = qm.shapes[0][0]
    w = np.asarray(Q[0]['~'][name + '_w'], 'float64')[:, 0]
    c2 = w[-2:]
    v, jac = critic(qm, *Q, rows[0]['s'], mu)
    mean = v + c2 @ var
    sd = np.sqrt(np.sum(jac ** 2 * var + 2 * c2 ** 2 * var ** 2))
    del fs
    _, _, metrics = obj.grads_and_metrics(tb)
    require(abs(-float(metrics['SoftPG/loss']) - mean) < 9 * sd / np.sqrt(N) + 1e-3 * (1 + abs(mean)),
            f'SoftPG: mean value of sampled actions is {-metrics["SoftPG/loss"]}, expected {mean} +- {sd / np.sqrt(N)}')
    return bool(abs(c2 @ var) > 9 * sd / np.sqrt(N))


# ---- refused -------------------------------------------------------------------------------------------
@st.composite
def case_bad(draw):
    return dict(bad=draw(st.sampled_from(['pi', 'reg', 'q', 'qtype', 'list', 'empty', 'qlist', 'ppo_logp', 'vanilla_logp'])))


def check_bad(c):
    o = coax.policy_objectives
    pi, q2, v = T.model('pi', 'b3', 'd4', 2).obj, T.model('q', 'b3', 'd4', 2).obj, T.model('v', 'b3', 'd2', 2).obj
    if c['bad'].endswith('logp'):
        cls = o.PPOClip if c['bad'] == 'ppo_logp' else o.VanillaPG
        _, tb = T.batch('b3', 'd4', 0)
        tb.logP = np.zeros(T.B, 'float32')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            cls(pi).grads_and_metrics(tb, np.ones(T.B, 'float32'))
        require(any('logP' in str(x.message) for x in w) == (c['bad'] == 'ppo_logp'), f'{cls.__name__}: warnings about missing propensities: {[str(x.message) for x in w]}')
        return True
    exc, fn = {'pi': (TypeError, lambda: o.VanillaPG(v)), 'reg': (TypeError, lambda: o.PPOClip(pi, regularizer=v)), 'q': (TypeError, lambda: o.DeterministicPG(pi, v)),
               'qtype': (TypeError, lambda: o.DeterministicPG(pi, q2)), 'list': (TypeError, lambda: o.SoftPG(pi, q2)), 'empty': (ValueError, lambda: o.SoftPG(pi, [])),
               'qlist': (TypeError, lambda: o.SoftPG(pi, [q2, v]))}[c['bad']]
    raises(exc, fn, f'ill-formed objective: {c["bad"]}')
    return True


SUBS = [Sub('policy_gradient', strat(PI), check_pi, quick=120, thorough=3000, budget=70, split=strata(cfg=range(len(PI)))), Sub('critics', strat(CR), check_cr, quick=90, thorough=2500, budget=60, split=strata(cfg=range(len(CR)))),
        Sub('sampled_actions', case_sample, check_sample, quick=40, thorough=600, budget=30), Sub('reject', case_bad, check_bad, quick=18, thorough=18, budget=30, split=strata(bad=['pi', 'reg', 'q', 'qtype', 'list', 'empty', 'qlist', 'ppo_logp', 'vanilla_logp']))]
