from hypothesis import strategies as st
from lib.pbt import Sub, Reject, require, close, raises, tree_equal, tree_close, tree_snapshot, plain, strata
from lib import models as M, td as T, dist as D
from props import p21
import jax
import jax.numpy as jnp
import numpy as np
import optax
import coax

RULE = ('Cases: (kind of regularizer, distribution, coefficient and later change of it, priors, time indices, discount, parameters, function state, batch). Non-trivial: the '
        'coefficient is not 0 and the regularization terms of the rows differ.')
ASSUMPTIONS = ['regularized policies compute the same in training mode as otherwise', 'regularized TD targets: no value transform']
OFF = (0., 0.25)
EV = [('pi', 'b3', 'd4', 2), ('pi', 'd3', 'b22', 2), ('pi', 'dict', 'tup', 2), ('sv', 'b3', 'd2', 2), ('sq', 'b3', 'd4', 1), ('sp', 'd3', 'd3', 1)]
_c = {}
beta = st.one_of(st.sampled_from([0., 0.001, 1., 0.25]), st.floats(0, 4, width=32))


def memo(key, make):
    if key not in _c:
        _c[key] = make()
    return _c[key]


def comp_kind(m):
    return m.act if m.what == 'pi' else m.obs


def rterm(kind, m, out, b, prior):
    """regularization term of one row and its gradient per leaf; out: distribution parameters"""
    if m.what in ('sv', 'sq', 'sr'):
        lp = np.asarray(out['logits']) - np.logaddexp.reduce(out['logits'])
        if kind == 'ent':
            h = -np.exp(lp) @ lp
            return -b * h, [b * np.exp(lp) * (lp + h)]
        lq = np.asarray(prior['logits'], 'float64').ravel()
        lq = lq - np.logaddexp.reduce(lq)
        k = np.exp(lp) @ (lp - lq)
        return b * k, [b * np.exp(lp) * (lp - lq - k)]
    v, g = D.entropy(comp_kind(m), out) if kind == 'ent' else D.kl(comp_kind(m), out, prior)
    s = -b if kind == 'ent' else b
    return s * v, [s * x for x in g]


def mkprior(m, seed):
    """random distribution parameters with a batch axis of length 1"""
    base = m.obj.proba_dist.default_priors
    rnd = np.random.RandomState(seed)
    leaves, td = jax.tree_util.tree_flatten(base)
    return jax.tree_util.tree_unflatten(td, [jnp.asarray(rnd.randn(*l.shape) * 0.7, 'float32') for l in leaves])


def strip(t):
    return jax.tree_util.tree_map(lambda x: np.asarray(x)[0], t)


def mkreg(kind, m, b, prior):
    if kind == 'ent':
        return coax.regularizers.EntropyRegularizer(m.obj) if b is None else coax.regularizers.EntropyRegularizer(m.obj, beta=b)
    kw = {} if prior is None else dict(priors=prior)
    return coax.regularizers.KLDivRegularizer(m.obj, **kw) if b is None else coax.regularizers.KLDivRegularizer(m.obj, beta=b, **kw)


def name(kind):
    return 'EntropyRegularizer' if kind == 'ent' else 'KLDivRegularizer'


# ---- the terms themselves ----------------------------------------------------------------------------
@st.composite
def case(draw):
    cfg = draw(st.integers(0, len(EV) - 1))
    return dict(cfg=cfg, B=draw(T.sizes(cfg)), kind=draw(st.sampled_from(['ent', 'kl', 'kl_default'])), b=draw(st.one_of(st.none(), beta)), b2=draw(beta),
                p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), n=draw(st.integers(0, 3)))


def check(c):
    what, obs, act, t = EV[c['cfg']]
    m = memo(('ev', c['cfg']), lambda: M.Model(what, obs, act, t, 'none', obs == 'b3' and what not in ('p', 'sp'), off=OFF))
    T.set_fn(m.obj, c['p'], c['n'])
    kind = 'ent' if c['kind'] == 'ent' else 'kl'
    prior = mkprior(m, c['p'] + 1) if c['kind'] == 'kl' else None
    reg = memo(('reg', c['cfg'], c['kind']), lambda: mkreg(kind, m, None, prior))
    fresh = mkreg(kind, m, c['b'], prior)
    require(float(fresh.hyperparams['beta']) == (0.001 if c['b'] is None else c['b']), 'beta is a hyperparameter')
    pref = strip(m.obj.proba_dist.default_priors if prior is None else prior)
    if kind == 'kl':
        reg.priors = fresh.priors
    rows, tb = T.batch(obs, act, c['x'], B=c['B'])
    P = plain(tree_snapshot(m.obj.params))
    outs = [m.ref(P, x['s'], *([x['a']] if t == 1 else []), n=float(c['n'])) for x in rows]
    before = tree_snapshot((m.obj.params, m.obj.function_state, tb._asdict()))
    vals = None
    for b in [0.001 if c['b'] is None else c['b'], c['b2']]:
        reg.beta = b
        vals = np.array([rterm(kind, m, o, float(np.float32(b)), pref)[0] for o in outs])
        dp = jax.tree_util.tree_map(lambda *l: jnp.asarray(np.stack(l), 'float32'), *outs)
        tol = dict(rtol=2e-3, atol=2e-3 * max(b, 1e-3))
        close(reg.function(dp, **reg.hyperparams), vals, f'{c["kind"]}: regularization term', **tol)
        r, metrics = reg.batch_eval(m.obj.params, reg.hyperparams, m.obj.function_state, m.obj.rng, tb)
        close(r, vals, f'{c["kind"]}: regularization term of a batch', **tol)
        unit = np.mean([rterm(kind, m, o, -1. if kind == 'ent' else 1., pref)[0] for o in outs]) * (1 if kind == 'kl' else 1)
        key = f'{name(kind)}/' + ('entropy' if kind == 'ent' else 'kl_div')
        for mt in (metrics, reg.metrics_func(dp, **reg.hyperparams)):
            close(mt[key], unit, f'metric {key}', rtol=2e-3, atol=2e-3)
            close(mt[f'{name(kind)}/beta'], b, 'metric beta', rtol=1e-6)
        if kind == 'kl':
            require(np.all(np.asarray(r) >= -1e-4 * max(b, 1)), f'negative divergence: {r}')
    tree_equal(tree_snapshot((m.obj.params, m.obj.function_state, tb._asdict())), before, 'evaluating a regularizer must not change anything')
    return c['b2'] > 0 and (c['B'] == 1 or float(np.ptp(vals)) > 1e-6)


# ---- regularized policy objectives -------------------------------------------------------------------
OB = [('VanillaPG', 'b3', 'd4'), ('PPOClip', 'd3', 'b22'), ('VanillaPG', 'dict', 'tup'), ('DeterministicPG', 'b3', 'ba'), ('SoftPG', 'b3', 'ba')]


@st.composite
def case_obj(draw):
    cfg = draw(st.integers(0, len(OB) - 1))
    return dict(cfg=cfg, B=draw(T.sizes(cfg)), kind=draw(st.sampled_from(['ent', 'kl'])), b=[draw(beta), draw(beta)], p=draw(st.integers(0, 2**20)),
                x=draw(st.integers(0, 2**20)), n=draw(st.integers(0, 3)), w=draw(st.sampled_from(['one', 'mixed', 'mixed'])))


def build_obj(i, kind):
    alg, obs, act = OB[i]
    m = M.Model('pi', obs, act, 2, 'none', obs == 'b3', off=OFF)
    prior = mkprior(m, 5)
    reg = mkreg(kind, m, 1., prior)
    cls = getattr(coax.policy_objectives, alg)
    args = [m.obj]
    if alg in ('DeterministicPG', 'SoftPG'):
        q = M.Model('q', obs, act, 1, 'none', False, off=OFF, variate=True).obj
        args.append(q if alg == 'DeterministicPG' else [q])
    return m, reg, strip(prior), cls(*args, optimizer=optax.sgd(0.01)), cls(*args, optimizer=optax.sgd(0.01), regularizer=reg)


def check_obj(c):
    alg, obs, act = OB[c['cfg']]
    kind = c['kind']
    m, reg, prior, bare, full = memo(('obj', c['cfg'], kind), lambda: build_obj(c['cfg'], kind))
    require(full.regularizer is reg and bare.regularizer is None, 'regularizer attribute')
    rows, tb = T.batch(obs, act, c['x'], c['w'], B=c['B'])
    args = (tb, np.random.RandomState(c['x']).randn(len(rows)).astype('float32')) if alg in ('VanillaPG', 'PPOClip') else (tb,)
    W = T.clipw(rows)
    nt = False
    for i, b in enumerate(c['b']):
        reg.beta = b
        T.set_fn(m.obj, c['p'] + 31 * i, c['n'] + i, 0.15)
        P, n = plain(tree_snapshot(m.obj.params)), float(jax.tree_util.tree_leaves(m.obj.function_state)[0])
        outs = [m.ref(P, x['s'], n=n) for x in rows]
        if max(np.abs(l).max() for l in jax.tree_util.tree_leaves(outs)) > 20:
            raise Reject()
        # same key: compare the two objectives at the same state of the random stream
        m.obj.random_seed = c['x']
        g0, _, m0 = bare.grads_and_metrics(*args)
        m.obj.random_seed = c['x']
        g1, s1, m1 = full.grads_and_metrics(*args)
        rt = [rterm(kind, m, o, float(np.float32(b)), prior) for o in outs]
        add = np.mean(W * np.array([v for v, _ in rt]))
        close(m1[f'{alg}/loss_bare'], float(m0[f'{alg}/loss']), 'the bare loss is the loss without regularizer', rtol=1e-3, atol=1e-3)
        sc = 1 + abs(float(m0[f'{alg}/loss'])) + abs(add)
        close(m1[f'{alg}/loss'], float(m0[f'{alg}/loss']) + add, f'{alg}: loss = bare loss + weighted mean of the regularization term', rtol=2e-3, atol=1e-3 * sc)
        gref = D.head_grads(m, [m.sfeat(x['s']) for x in rows], [[w * g / len(rows) for g in r[1]] for w, r in zip(W, rt)])
        tot = jax.tree_util.tree_map(lambda a, b_: np.asarray(a, 'float64') + b_, plain(g0), gref)
        scale = max(1., max(np.abs(l).max() for l in jax.tree_util.tree_leaves((tot, gref))))
        tree_close(plain(g1), tot, f'{alg}: gradient of the regularization term is added', rtol=1e-2, atol=3e-3 * scale)
        close(m1[f'{alg}/{name(kind)}/beta'], b, 'metric beta', rtol=1e-6)
        nt |= b > 0.01
        full.update(*args)
    return nt


# ---- regularized TD targets ----------------------------------------------------------------------------
TD = [('SimpleTD', 'v', 'b3', 'd4', 2), ('Sarsa', 'q', 'd3', 'd4', 1), ('QLearning', 'q', 'b3', 'd4', 2), ('DoubleQLearning', 'q', 'b3', 'd4', 1), ('ExpectedSarsa', 'q', 'b3', 'd4', 2),
      ('SoftQLearning', 'q', 'b3', 'd4', 2), ('ClippedDoubleQLearning', 'q', 'b3', 'd4', 1), ('SoftClippedDoubleQLearning', 'q', 'b3', 'd4', 2), ('QLearning', 'q', 'b3', 'ba', 1),
      ('ClippedDoubleQLearning', 'q', 'b3', 'ba', 1), ('SimpleTD', 'sv', 'b3', 'd4', 2), ('Sarsa', 'sq', 'b3', 'd4', 1), ('QLearning', 'sq', 'b3', 'd4', 2), ('Sarsa', 'quant', 'b3', 'd4', 1),
      ('QLearning', 'quant', 'b3', 'd4', 2)]


@st.composite
def case_td(draw):
    cfg = draw(st.integers(0, len(TD) - 1))
    return dict(cfg=cfg, B=draw(T.sizes(cfg)), kind=draw(st.sampled_from(['ent', 'kl'])), b=[draw(beta), draw(beta)], p=draw(st.integers(0, 2**20)),
                x=draw(st.integers(0, 2**20)), n=draw(st.integers(0, 3)), w=draw(st.sampled_from(['one', 'mixed', 'mixed'])))


def build_td(i, kind):
    alg, what, obs, act, t = TD[i]
    if what == 'quant':
        m = p21.QuantileModel(obs, act, t, 'none', False)
    else:
        kw = dict(value_range=(-200., 200.), bins=41) if what in ('sv', 'sq') else {}
        m = M.Model(what, obs, act, t, 'none', False, off=T.OFF, variate=act == 'ba', **kw)
    pm = M.Model('pi', obs, act, 2, 'none', True, off=OFF)
    prior = mkprior(pm, 5)
    reg = mkreg(kind, pm, 1., prior)
    cls = getattr(coax.td_learning, alg)
    kw = dict(optimizer=optax.sgd(0.125), loss_function=coax.value_losses.mse)
    targ = m.obj.copy()
    if 'Clipped' in alg:
        kw.update(q_targ_list=[targ, targ.copy()])
        if act == 'ba':
            kw.update(pi_targ_list=[pm.obj])
    else:
        kw['v_targ' if alg == 'SimpleTD' else 'q_targ'] = targ
        if act == 'ba' or alg == 'ExpectedSarsa':
            kw['pi_targ'] = pm.obj
    return m, pm, reg, strip(prior), T.quiet(cls, m.obj, **kw), T.quiet(cls, m.obj, policy_regularizer=reg, **kw)


def check_td(c):
    alg, what, obs, act, t = TD[c['cfg']]
    kind = c['kind']
    m, pm, reg, prior, bare, full = memo(('td', c['cfg'], kind), lambda: build_td(c['cfg'], kind))
    rows, tb = T.batch(obs, act, c['x'], c['w'], B=c['B'])
    W = T.clipw(rows)
    nt = False
    for i, b in enumerate(c['b']):
        T.set_fn(m.obj, c['p'] + 31 * i, c['n'] + i, 0.2)
        T.set_fn(pm.obj, c['p'] + 3 + 31 * i, c['n'] + i, 0.2)
        outs = [pm.ref(plain(pm.obj.params), x['s'], n=float(c['n'] + i)) for x in rows]
        before = tree_snapshot((pm.obj.params, pm.obj.function_state))
        reg.beta = b
        r = np.array([rterm(kind, pm, o, float(np.float32(b)), prior)[0] for o in outs])
        if np.abs(r).max() > 60:
            raise Reject()
        if 'Soft' in alg and act == 'ba':
            raise Reject()
        m.obj.random_seed = c['x']
        td0 = np.asarray(bare.td_error(tb), 'float64')
        m.obj.random_seed = c['x']
        g0, _, _, _ = bare.grads_and_metrics(tb)
        m.obj.random_seed = c['x']
        td1 = full.td_error(tb)
        tol = dict(rtol=2e-3, atol=3e-3 * (1 + np.abs(r).max()))
        close(td1, td0 - r, f'{alg}: the regularization term is subtracted from the TD target', **tol)
        m.obj.random_seed = c['x']
        g1, _, metrics, td2 = full.grads_and_metrics(tb)
        close(td2, td0 - r, f'{alg}: the regularization term is subtracted from the TD target (gradients)', **tol)
        close(metrics[f'{alg}/{name(kind)}/beta'], b, 'metric beta', rtol=1e-6)
        if what in ('q', 'v'):
            exp = T.lin_grads(m, plain(m.obj.params), rows, -W * (td0 - r) / len(rows))
            scale = max(1., max(np.abs(l).max() for l in jax.tree_util.tree_leaves(exp)))
            tree_close(plain(g1), exp, f'{alg}: gradient of the regularized loss', rtol=1e-2, atol=5e-3 * scale)
        elif b == 0:
            tree_close(plain(g1), plain(tree_snapshot(g0)), f'{alg}: a coefficient of zero has no effect', rtol=1e-2, atol=1e-3)
        full.update(tb)
        tree_equal((pm.obj.params, pm.obj.function_state), before, f'{alg}: the regularized policy must not change')
        nt |= b > 0.01
    return nt


# ---- n-step entropy --------------------------------------------------------------------------------------
NS = [('b3', 'b22'), ('d3', 'd4'), ('dict', 'tup')]


@st.composite
def case_n(draw):
    N = 4
    return dict(cfg=draw(st.integers(0, len(NS) - 1)), n=draw(st.lists(st.integers(0, N), min_size=1, max_size=4, unique=True)), b=[draw(beta), draw(beta)],
                gamma=draw(st.sampled_from([0.9, 0.5, 1.])), p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), k=draw(st.integers(0, 3)),
                lens=[draw(st.integers(1, 8)) for _ in range(3)], sort=draw(st.booleans()), cont=draw(st.booleans()))


def check_n(c):
    obs, act = NS[c['cfg']]
    N = 4
    m = memo(('n', c['cfg']), lambda: M.Model('pi', obs, act, 2, 'none', obs == 'b3', off=OFF))
    T.set_fn(m.obj, c['p'], c['k'], 0.3)
    n = sorted(c['n']) if c['sort'] else c['n']
    if c['cont']:
        n = list(range(len(n)))
    key = ('nreg', c['cfg'], tuple(n), c['gamma'])
    if len([k for k in _c if k[0] == 'nreg']) > 60 and key not in _c:
        for k in [k for k in _c if k[0] == 'nreg']:
            del _c[k]
    reg = memo(key, lambda: coax.regularizers.NStepEntropyRegularizer(m.obj, n=n, beta=1., gamma=c['gamma']))
    rnd = np.random.RandomState(c['x'])
    tracer = coax.reward_tracing.NStep(N, 0.9, record_extra_info=True)
    P = plain(m.obj.params)
    singles, exp, cnt, states_all = [], [], [], []
    for L in c['lens']:
        states = [M.element(obs, rnd) for _ in range(L)]
        for t, s in enumerate(states):
            tracer.add(s, M.element(act, rnd), 1., t == L - 1)
        t = 0
        while tracer:
            singles.append(tracer.pop())
            ks = [k for k in n if t + k < L]
            exp.append(sum(c['gamma'] ** k * D.entropy(act, m.ref(P, states[t + k], n=float(c['k'])))[0] for k in ks))
            cnt.append(len(ks))
            t += 1
    pad = 8
    idx = np.resize(np.random.RandomState(c['x'] + 1).permutation(len(singles)), pad)
    tb = jax.tree_util.tree_map(lambda *l: np.concatenate([np.atleast_1d(np.asarray(v)) for v in l]), *[singles[i] for i in idx])
    exp, cnt = np.array(exp)[idx], np.array(cnt)[idx]
    for b in c['b']:
        reg.beta = b
        r, metrics = reg.batch_eval(m.obj.params, reg.hyperparams, m.obj.function_state, m.obj.rng, tb)
        close(r, -b * exp, f'n-step entropy term for n={n}', rtol=2e-3, atol=2e-3 * max(b, 1e-3))
        close(metrics['EntropyRegularizer/beta'], b, 'metric beta', rtol=1e-6)
        if cnt.min() > 0:
            close(metrics['EntropyRegularizer/entropy'], np.mean(exp / cnt), 'metric entropy', rtol=3e-3, atol=3e-3)
    return c['b'][1] > 0 and bool(cnt.min() != cnt.max())


# ---- refused -----------------------------------------------------------------------------------------------
@st.composite
def case_bad(draw):
    return dict(bad=draw(st.sampled_from(['ent', 'kl', 'nstep', 'n_type', 'n_empty', 'n_info', 'obj', 'td'])))


def check_bad(c):
    R = coax.regularizers
    pi, q = T.model('pi', 'b3', 'd4', 2).obj, T.model('q', 'b3', 'd4', 1).obj
    _, tb = T.batch('b3', 'd4', 0)

    def n_info():
        r = R.NStepEntropyRegularizer(pi, n=[0, 1])
        return r.batch_eval(pi.params, r.hyperparams, pi.function_state, pi.rng, tb)
    exc, fn = {'ent': (TypeError, lambda: R.EntropyRegularizer(q)), 'kl': (TypeError, lambda: R.KLDivRegularizer(q)), 'nstep': (TypeError, lambda: R.NStepEntropyRegularizer(q, n=[1])),
               'n_type': (TypeError, lambda: R.NStepEntropyRegularizer(pi, n=2)), 'n_empty': (ValueError, lambda: R.NStepEntropyRegularizer(pi, n=[])), 'n_info': (TypeError, n_info),
               'obj': (TypeError, lambda: coax.policy_objectives.VanillaPG(pi, regularizer=pi)), 'td': (TypeError, lambda: coax.td_learning.QLearning(q, policy_regularizer=pi))}[c['bad']]
    raises(exc, fn, f'ill-formed regularizer: {c["bad"]}')
    return True


SUBS = [Sub('terms', case, check, quick=100, thorough=2500, budget=60, split=strata(cfg=range(len(EV)), kind=['ent', 'kl', 'kl_default'])), Sub('objectives', case_obj, check_obj, quick=60, thorough=1500, budget=60, split=strata(cfg=range(len(OB)), kind=['ent', 'kl'])),
        Sub('targets', case_td, check_td, quick=90, thorough=2000, budget=100, split=strata(cfg=range(len(TD)), kind=['ent', 'kl'])), Sub('nstep', case_n, check_n, quick=60, thorough=1500, budget=60, split=strata(cfg=range(len(NS)))),
        Sub('reject', case_bad, check_bad, quick=16, thorough=16, budget=30, split=strata(bad=['ent', 'kl', 'nstep', 'n_type', 'n_empty', 'n_info', 'obj', 'td']))]
