from hypothesis import strategies as st
from lib.pbt import Sub, require, close, raises, tree_close, tree_equal, tree_snapshot, chi2_ok, short, strata
from lib import models as M
from lib import spaces as S
from props.p15 import leaves_of, squash, contains, _tie
import warnings
import jax
import jax.numpy as jnp
import numpy as np
import coax
from gymnasium.spaces import Discrete

RULE = ('Cases: (kind of model, observation space, action space, model type, value transform, custom preprocessors, parameters, function '
        'state, observation, action). Non-trivial: all (fresh random parameters each).')
ASSUMPTIONS = ['the forward pass does not depend on its key',
               'quantile-based value distributions are judged by their mean and forward pass only']

VALUE = [('sq', 'd3', 'd11', 1, 'none', False), ('sq', 'b3', 'd11', 2, 'none', False), ('sv', 'b3', 'd2', 2, 'none', False), ('sv', 'dict', 'd2', 2, 'log', True), ('sq', 'b3', 'd4', 1, 'none', False),
         ('sq', 'd3', 'd3', 2, 'log', False), ('sq', 'dict', 'd2', 1, 'pair', True), ('sq', 'b3', 'ba', 1, 'log', False),
         ('sr', 'd3', 'd2', 1, 'none', True), ('sr', 'b3', 'd3', 2, 'pair', False)]


@st.composite
def case(draw):
    return dict(cfg=draw(st.integers(0, len(VALUE) - 1)), p=draw(st.integers(0, 2**20)), p2=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)),
                n=draw(st.integers(0, 2)), scale=draw(st.sampled_from([0.1, 0.3, 3., 0., 0.])), seed=draw(st.integers(0, 2**20)), train=draw(st.booleans()))


def softmax(l):
    return np.exp(S.log_softmax(l))


def atoms_of(m):
    f = M.VT_NP[m.vt_kind][0]
    lo, hi = f(m.value_range[0]), f(m.value_range[1])
    return lo + (np.arange(m.bins) + .5) * (hi - lo) / m.bins


def check(c):
    m = M.get(*VALUE[c['cfg']])
    q, v = m.obj, VALUE[c['cfg']][0] == 'sv'
    z, inv = atoms_of(m), M.VT_NP[m.vt_kind][1]
    close(q.proba_dist.atoms, z, 'atoms span the (transformed) value range', rtol=1e-4, atol=1e-4)
    require(q.num_bins == m.bins, 'num_bins')
    rnd = np.random.RandomState(c['x'])
    ss, aa = [M.element(m.obs, rnd) for _ in range(3)], [M.element(m.act, rnd) for _ in range(3)]
    s, a = ss[0], aa[0]
    m.reset(c['p'], scale=c['scale'])
    n = c['n'] / 100
    if c['scale'] == 0.:   # all mass on one atom (per action): mean, mode and samples are known exactly
        n = 0.
        pk = np.random.RandomState(c['p'])
        b = np.asarray(q.params['~'][m.shapes[0][0] + '_b'])
        rows = np.zeros((b.size // m.bins, m.bins), 'float32')
        rows[np.arange(len(rows)), pk.randint(m.bins, size=len(rows))] = 200.
        m.shift(m.shapes[0][0], jnp.asarray(rows.reshape(b.shape)))
    q.function_state = M.state(q, n)
    before = tree_snapshot((q.params, q.function_state))
    q.random_seed = c['seed']
    big = c['scale'] > 1
    tol = dict(rtol=2e-3, atol=2e-3 * (20 if big else 1))

    def judge(lg, mean, mode, sample, lp, what):
        pr = softmax(lg)
        close(mean, inv(pr @ z), f'{what}: mean', **tol)
        top = np.sort(lg)
        if len(top) > 1 and top[-1] - top[-2] > 3:
            close(mode, inv(z[np.argmax(lg)]), f'{what}: mode', **tol)
        lo, hi = m.value_range
        for y in (mean, mode, sample):
            require(np.shape(y) == () and lo - 1e-3 <= float(y) <= hi + 1e-3, f'{what}: {y} is no value in {m.value_range}')
        if top[-1] - top[-2] > 40:
            close(sample, inv(z[np.argmax(lg)]), f'{what}: sample from a peaked distribution', **tol)
        l = S.log_softmax(lg)
        require(l.min() - 0.05 - 1e-3 * abs(l.min()) <= float(lp) <= 1e-3, f'{what}: log-probability {lp}')

    if v:
        lg = m.ref(q.params, s, n=n)
        tree_close(q.dist_params(s), lg, 'distribution parameters', rtol=1e-3, atol=5e-3)
        judge(lg['logits'], q.mean(s), q.mode(s), *q(s, return_logp=True), 'v(s)')
        require(np.shape(q(s)) == (), 'v(s)')
    else:
        lg = m.ref(q.params, s, a, n=n)
        tree_close(q.dist_params(s, a), lg, 'distribution parameters', rtol=1e-3, atol=5e-3)
        judge(lg['logits'], q.mean(s, a), q.mode(s, a), *q(s, a, return_logp=True), 'q(s, a)')
        if m.n_actions:
            lgs = m.ref(q.params, s, n=n)['logits']
            dp, me, mo, (xs, lps) = q.dist_params(s), q.mean(s), q.mode(s), q(s, return_logp=True)
            for name, l in (('dist_params', dp), ('mean', me), ('mode', mo), ('samples', xs), ('log-probabilities', lps), ('samples', q(s))):
                require(isinstance(l, list) and len(l) == m.n_actions, f'{name} of all actions: {short(l)}')
            for b in range(m.n_actions):
                close(dp[b]['logits'], lgs[b], f'distribution parameters of action {b}', rtol=1e-3, atol=5e-3)
                judge(lgs[b], me[b], mo[b], xs[b], lps[b], f'q(s, .)[{b}]')
    # batched pure functions with explicit parameters
    p2, st2, key = M.rand_params(q.params, c['p2']), M.state(q), jax.random.PRNGKey(c['seed'])
    Sb = m.S(ss)
    if v:
        out, new = q.function(p2, st2, key, Sb, c['train'])
        refs = [m.ref(p2, x, train=c['train']) for x in ss]
        X, logP = q.sample_func(p2, st2, key, Sb)
        means = q.mean_func(p2, st2, key, Sb)
    else:
        Ab = m.A(aa)
        out, new = q.function_type1(p2, st2, key, Sb, Ab, c['train'])
        refs = [m.ref(p2, x, b, train=c['train']) for x, b in zip(ss, aa)]
        X, logP = q.sample_func_type1(p2, st2, key, Sb, Ab)
        means = q.mean_func_type1(p2, st2, key, Sb, Ab)
        if m.n_actions:
            out2, new2 = q.function_type2(p2, st2, key, Sb, c['train'])
            close(out2['logits'], np.stack([m.ref(p2, x, train=c['train'])['logits'] for x in ss]), 'batched parameters, all actions', rtol=1e-3, atol=5e-3)
            tree_equal(new2, M.state(q, 1.), 'new function state')
            X2, logP2 = q.sample_func_type2(p2, st2, key, Sb)
            l2 = S.log_softmax(np.stack([m.ref(p2, x)['logits'] for x in ss]))
            require(np.shape(X2) == l2.shape, f'samples for all actions have shape {np.shape(X2)}')
            close(logP2, (np.asarray(X2) * l2).sum(-1), 'log-probabilities of samples for all actions', rtol=1e-2, atol=1e-2)
            close(q.mean_func_type2(p2, st2, key, Sb), np.exp(l2), 'raw means for all actions', rtol=1e-2, atol=5e-3)
            mo2 = np.asarray(q.mode_func_type2(p2, st2, key, Sb))
            require(np.array_equal(mo2.argmax(-1), l2.argmax(-1)) or _tie(l2.reshape(-1, l2.shape[-1])), 'raw modes for all actions')
        else:
            raises(ValueError, lambda: q.function_type2, 'all actions of a non-discrete space')
            raises(ValueError, lambda: q.mean(s), 'all actions of a non-discrete space')
    close(out['logits'], np.stack([r['logits'] for r in refs]), 'batched parameters', rtol=1e-3, atol=5e-3)
    refs = [m.ref(p2, x) if v else m.ref(p2, x, b) for x, b in zip(ss, aa)]    # sampling is not training
    l = S.log_softmax(np.stack([r['logits'] for r in refs]))
    close(logP, (np.asarray(X) * l).sum(-1), 'log-probabilities of samples', rtol=1e-2, atol=1e-2)
    close(means, np.exp(l), 'raw means', rtol=1e-2, atol=5e-3)
    mo1 = np.asarray(q.mode_func(p2, st2, key, Sb) if v else q.mode_func_type1(p2, st2, key, Sb, Ab))
    require(mo1.shape == l.shape and (np.array_equal(mo1.argmax(-1), l.argmax(-1)) or _tie(l)), 'raw modes')
    tree_equal(new, M.state(q, 1.), 'new function state')
    tree_equal((q.params, q.function_state), before, 'parameters and state after evaluation')
    return True


DYN = [('p', 'd3', 'd11', 1, 'none', False), ('sp', 'd11', 'd11', 2, 'none', False), ('p', 'b3', 'd4', 1, 'none', False), ('p', 'd3', 'd2', 2, 'none', False), ('p', 'dict', 'd3', 1, 'none', False), ('p', 'dict', 'd2', 2, 'none', False),
       ('p', 'b22', 'ba', 1, 'none', False), ('sp', 'b3', 'd3', 1, 'none', False), ('sp', 'd3', 'd2', 1, 'none', False),
       ('sp', 'dict', 'd4', 2, 'none', False), ('sp', 'dict', 'b22', 1, 'none', False), ('sp', 'b22', 'd2', 2, 'none', True), ('sp', 'd3', 'd3', 1, 'none', True),
       ('p', 'img', 'd2', 1, 'none', False), ('sp', 'img', 'd3', 2, 'none', False), ('p', 'md', 'd2', 2, 'none', False), ('sp', 'mb', 'ba', 1, 'none', False),
       ('sp', 'tup', 'd2', 1, 'none', False), ('p', 'b3', 'tup', 1, 'none', False), ('sp', 'd3', 'md', 1, 'none', False)]


@st.composite
def case_dyn(draw):
    return dict(cfg=draw(st.integers(0, len(DYN) - 1)), p=draw(st.integers(0, 2**20)), p2=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)),
                n=draw(st.integers(0, 2)), seed=draw(st.integers(0, 2**20)), train=draw(st.booleans()))


def check_dyn(c):
    m = M.get(*DYN[c['cfg']])
    p, stoch, sp = m.obj, m.what == 'sp', M.space(m.obs)
    rnd = np.random.RandomState(c['x'])
    ss, aa = [M.element(m.obs, rnd) for _ in range(3)], [M.element(m.act, rnd) for _ in range(3)]
    if m.obs == 'img':    # the ends of the box are represented by +-34.5, far outside the range of usual parameters
        ss = [np.clip(x, 1, 4) for x in ss]
    s, a = ss[0], aa[0]
    m.reset(c['p'], scale=0.2)
    n = c['n'] / 100
    p.function_state = M.state(p, n)
    p.random_seed = c['seed']
    before = tree_snapshot((p.params, p.function_state))

    def point(ref, y, what):
        """y is the state that the raw output / mean parameters stand for"""
        contains(sp, y, what)
        for lsp, prm, x in leaves_of(sp, ref, y):
            if isinstance(lsp, Discrete):
                l = np.asarray(prm['logits'] if stoch else prm)
                require(l[x] >= l.max() - 1e-3, f'{what}: picks {x} for {l}')
            else:
                close(x, squash(lsp, prm['mu'] if stoch else prm), f'{what}: box component', rtol=1e-3, atol=0.501 if lsp.dtype.kind in 'iu' else 1e-3)

    ref = m.ref(p.params, s, a, n=n)
    if stoch:
        tree_close(p.dist_params(s, a), ref, 'distribution parameters', rtol=1e-3, atol=2e-3)
        point(ref, p.mean(s, a), 'mean')
        point(ref, p.mode(s, a), 'mode')
        x, lp = p(s, a, return_logp=True)
        contains(sp, x, 'sampled next state')
        require(np.shape(lp) == (), 'log-probability')
        contains(sp, p(s, a), 'sampled next state')
    else:
        point(ref, p(s, a), 'next state')
    if m.n_actions:
        refs = [jax.tree_util.tree_map(lambda l: l[b], m.ref(p.params, s, n=n)) for b in range(m.n_actions)]
        fs = (('mean', p.mean), ('mode', p.mode)) if stoch else (('next state', p),)
        for name, f in fs:
            out = f(s)
            require(isinstance(out, list) and len(out) == m.n_actions, f'{name} for all actions: {short(out)}')
            for b in range(m.n_actions):
                point(refs[b], out[b], f'{name} of action {b}')
        if stoch:
            dp = p.dist_params(s)
            require(isinstance(dp, list) and len(dp) == m.n_actions, 'parameters for all actions')
            for b in range(m.n_actions):
                tree_close(dp[b], refs[b], f'parameters of action {b}', rtol=1e-3, atol=2e-3)
            xs, lps = p(s, return_logp=True)
            require(len(xs) == len(lps) == m.n_actions, 'samples for all actions')
            [contains(sp, x, 'sampled next state') for x in xs]
    p2, st2, key = M.rand_params(p.params, c['p2']), M.state(p), jax.random.PRNGKey(c['seed'])
    Sb, Ab = m.S(ss), m.A(aa)
    up = lambda ts: jax.tree_util.tree_map(lambda *l: np.stack(l), *ts)
    out, new = p.function_type1(p2, st2, key, Sb, Ab, c['train'])
    tree_close(out, up([m.ref(p2, x, b, train=c['train']) for x, b in zip(ss, aa)]), 'batched forward pass', rtol=1e-3, atol=3e-3)
    tree_equal(new, M.state(p, 1.), 'new function state')
    if m.n_actions:
        out, new = p.function_type2(p2, st2, key, Sb, c['train'])
        tree_close(out, up([m.ref(p2, x, train=c['train']) for x in ss]), 'batched forward pass, all actions', rtol=1e-3, atol=3e-3)
        tree_equal(new, M.state(p, 1.), 'new function state')
    else:
        raises(ValueError, lambda: p.function_type2, 'all actions of a non-discrete space')
    if stoch:
        X, logP = p.sample_func_type1(p2, st2, key, Sb, Ab)
        spec = SPECS[m.obs]
        prm = up([m.ref(p2, x, b) for x, b in zip(ss, aa)])
        exp = sum(S.ref_logp(leaf, S.get(prm, path), S.get(X, path)) for path, leaf in S.components(spec))
        close(logP, exp, 'log-probability of sampled variates', rtol=1e-2, atol=2e-2)
        if m.n_actions:
            X, logP = p.sample_func_type2(p2, st2, key, Sb)
            rep = lambda t: jax.tree_util.tree_map(lambda l: np.asarray(l).reshape(-1, *l.shape[2:]), t)
            prm, X = rep(up([m.ref(p2, x) for x in ss])), rep(X)
            exp = sum(S.ref_logp(leaf, S.get(prm, path), S.get(X, path)) for path, leaf in S.components(spec))
            close(logP, np.reshape(exp, (3, m.n_actions)), 'log-probability of sampled variates, all actions', rtol=1e-2, atol=2e-2)
    tree_equal((p.params, p.function_state), before, 'parameters and state after evaluation')
    return True


SPECS = dict(d11=dict(t='discrete', n=11), d3=dict(t='discrete', n=3), b3=dict(t='box', low=-5., high=5., shape=[3]), b22=dict(t='box', low=-2., high=3., shape=[2, 2]),
             img=dict(t='box', low=0., high=5., shape=[2, 1, 2]), mb=dict(t='multibinary', n=3), md=dict(t='multidiscrete', nvec=[2, 3]),
             tup=dict(t='tuple', of=[dict(t='discrete', n=2), dict(t='box', low=-1., high=1., shape=[1])]),
             dict=dict(t='dict', of=[['a', dict(t='discrete', n=2)], ['b', dict(t='box', low=-5., high=5., shape=[2])]]))

COMP = [(p, r, v, vtk, t, rvt) for rvt in ('none', 'log') for p in ('p', 'sp') for r in ('r', 'sr') for v, vtk in (('v', 'none'), ('v', 'log'), ('sv', 'log'), ('sv', 'none')) for t in (1, 2)]
COMPS = [0, 3, 5, 8, 10, 13, 15, 18, 20, 23, 25, 28, 31] + [32 + k for k in (1, 6, 13, 20, 27, 30)]
_ssq = {}


@st.composite
def case_comp(draw):
    return dict(cfg=draw(st.sampled_from(COMPS)), p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)),
                gamma=draw(st.sampled_from([0., 0.5, 0.9, 1.])), regamma=draw(st.booleans()))


def check_comp(c):
    p, r, v, vtk, t, rvt = cfg = COMP[c['cfg']]
    mp, mr, mv = M.get(p, 'b3', 'd3', t), M.get(r, 'b3', 'd3', 3 - t, rvt), M.get(v, 'b3', 'd3', 2, vtk)
    for k, m in enumerate((mp, mr, mv)):
        m.reset(c['p'] + k, scale=0.15)
    if cfg not in _ssq:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _ssq[cfg] = coax.SuccessorStateQ(mv.obj, mp.obj, mr.obj, gamma=0.7)
    q = _ssq[cfg]
    q.gamma = c['gamma']
    rnd = np.random.RandomState(c['x'])
    s, a = M.element('b3', rnd), int(rnd.randint(3))
    f, inv = M.VT_NP[vtk]
    z = M.variate_np('b3', s)

    def ref(b):
        fs = M.feats_np(z, np.eye(3)[b])
        fwd = lambda m, out: out if m.mtype == 1 else jax.tree_util.tree_map(lambda l: l[b], out)
        nxt = fwd(mp, mp._un(M.head_np(mp.obj.params, fs if mp.mtype == 1 else z, mp.shapes)))
        nxt = nxt['mu'] if p == 'sp' else nxt
        R = fwd(mr, mr._un(M.head_np(mr.obj.params, fs if mr.mtype == 1 else z, mr.shapes)))
        R = softmax(R['logits']) @ atoms_of(mr) if r == 'sr' else R
        V = mv._un(M.head_np(mv.obj.params, nxt, mv.shapes))
        V = softmax(V['logits']) @ atoms_of(mv) if v == 'sv' else V
        return float(M.VT_NP[rvt][1](R) + c['gamma'] * inv(V))

    exp = [ref(b) for b in range(3)]
    tol = dict(rtol=5e-3, atol=2e-2)
    close(q(s, a), exp[a], f'q(s, a) = r + gamma v(s\') for {cfg}', **tol)
    close(q(s), exp, f'q(s) for {cfg}', **tol)
    S2 = mp.S([s, s])
    st_ = q.function_state
    A2 = np.eye(3)[[a, (a + 1) % 3]]
    out, new = q.function_type1(q.params, st_, jax.random.PRNGKey(0), S2, jnp.asarray(A2, 'float32'), False)
    close(out, f(np.array([exp[a], exp[(a + 1) % 3]])), 'batched q(s, a), transformed', **tol)
    for k, m in (('p', mp), ('r', mr), ('v', mv)):
        tree_equal(jax.tree_util.tree_leaves(new[k]), jax.tree_util.tree_leaves(M.state(m.obj, 1.)), f'new function state of {k}')
        tree_equal(m.obj.function_state, M.state(m.obj, 0.), f'function state of {k}')
    out, new = q.function_type2(q.params, st_, jax.random.PRNGKey(0), S2, False)
    close(out, f(np.array([exp, exp])), 'batched q(s, .), transformed', **tol)
    return True


@st.composite
def case_quant(draw):
    return dict(p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), t=draw(st.sampled_from([1, 2])))


_qq = {}


def check_quant(c):
    """quantile-based value distribution: mean over quantile values"""
    K, t = 5, c['t']
    import haiku as hk
    if t not in _qq:
        def body(x, n):
            w = hk.get_parameter('w', (x.shape[1], n * K), init=hk.initializers.RandomNormal())
            y = jnp.dot(x, w)
            y = y.reshape(-1, n, K) if n > 1 else y
            fr = jnp.broadcast_to((jnp.arange(K) + .5) / K, y.shape)
            return {'values': y, 'quantile_fractions': fr}
        f1 = lambda S, A, is_training: body(M.feats(S, A), 1)
        f2 = lambda S, is_training: body(M.feats(S), 3)
        _qq[t] = coax.StochasticQ(f1 if t == 1 else f2, M.env('b3', 'd3'), value_range=None, num_bins=K)
    q = _qq[t]
    q.params = M.rand_params(q.params, c['p'])
    s = M.element('b3', np.random.RandomState(c['x']))
    w = np.asarray(q.params['~']['w'], 'float64')
    f = M.pre_np('b3', s, False)
    exp = [(M.feats_np(f, np.eye(3)[b]) @ w) if t == 1 else (f @ w).reshape(3, K)[b] for b in range(3)]
    dp = q.dist_params(s)
    for b in range(3):
        close(dp[b]['values'], exp[b], 'quantile values of all actions', rtol=1e-3, atol=1e-3)
        close(q.dist_params(s, b)['values'], exp[b], 'quantile values', rtol=1e-3, atol=1e-3)
        close(np.ravel(q.mean(s, b))[0], exp[b].mean(), 'mean of the quantile values', rtol=1e-3, atol=1e-3)
    return True


@st.composite
def case_bad(draw):
    return dict(what=draw(st.sampled_from(['sv', 'sq', 'p', 'sp'])), bad=draw(st.sampled_from(['signature', 'extra', 'structure', 'shape', 'type2box', 'range'])))


def check_bad(c):
    env = M.env('b3', 'd3')
    w, b = c['what'], c['bad']
    mk = dict(sv=lambda f, e: coax.StochasticV(f, e, (-1., 1.), num_bins=4), sq=lambda f, e: coax.StochasticQ(f, e, (-1., 1.), num_bins=4),
              p=coax.TransitionModel, sp=coax.StochasticTransitionModel)[w]
    out = dict(sv=lambda S: {'logits': jnp.zeros((S.shape[0], 4))}, sq=lambda S: {'logits': jnp.zeros((S.shape[0], 4))}, p=lambda S: S,
               sp=lambda S: {'mu': S, 'logvar': S})[w]
    good = (lambda S, is_training: out(S)) if w == 'sv' else (lambda S, A, is_training: out(S))
    wrap = lambda g: (lambda S, is_training: g(out(S))) if w == 'sv' else (lambda S, A, is_training: g(out(S)))
    mk(good, env)
    if w == 'sq':   # a reward function's value range defaults to that of the environment
        r = coax.StochasticRewardFunction(good, env, num_bins=4)
        close(r.proba_dist.atoms, -2. + (np.arange(4) + .5) * 5. / 4, 'atoms span the reward range', rtol=1e-4, atol=1e-4)
    bad = dict(signature=lambda S, a, is_training: out(S), extra=lambda S, A, is_training, x: out(S), structure=wrap(lambda y: (y,)),
               shape=wrap(lambda y: jax.tree_util.tree_map(lambda l: l[:, :2], y)), type2box=lambda S, is_training: out(S), range=None)[b]
    if b == 'range':
        if w == 'sv':
            for r in ((1., 1.), (2., 1.), 3, ('a', 'b')):
                raises(TypeError, lambda: coax.StochasticV(good, env, r, num_bins=4), f'value range {r}')
        return w == 'sv'
    if b == 'type2box':
        if w == 'sv':
            return False
        env = M.env('b3', 'ba')
    raises(TypeError, lambda: mk(bad, env), f'{w} with bad {b}')
    return True


BATCH = 3000


@st.composite
def case_draw(draw):
    return dict(cfg=draw(st.sampled_from([('sv', 'b3', 'd2', 2, 'none', False), ('sq', 'b3', 'd4', 1, 'none', False), ('sq', 'd3', 'd3', 2, 'log', False),
                                          ('sp', 'd3', 'd2', 1, 'none', False), ('sp', 'b3', 'd3', 1, 'none', False), ('sp', 'dict', 'd4', 2, 'none', False)])),
                p=draw(st.integers(0, 2**20)), x=draw(st.integers(0, 2**20)), seed=draw(st.integers(0, 2**20)), all=draw(st.booleans()))


def check_draw(c):
    """batched sampling: rows are independent draws with the parametrised frequencies, determined by the key"""
    m = M.get(*c['cfg'])
    q, v = m.obj, m.what == 'sv'
    rnd = np.random.RandomState(c['x'])
    s, a = M.element(m.obs, rnd), M.element(m.act, rnd)
    m.reset(c['p'], scale=0.1)
    rep = lambda t: jax.tree_util.tree_map(lambda l: jnp.repeat(l, BATCH, axis=0), t)
    Sb, st2 = rep(m.S([s])), M.state(q)
    args = () if v or c['all'] else (rep(m.A([a])),)
    f = q.sample_func if v else q.sample_func_type2 if c['all'] else q.sample_func_type1
    run = lambda k: f(q.params, st2, jax.random.PRNGKey(k), Sb, *args)[0]
    X = run(c['seed'])
    tree_equal(X, run(c['seed']), 'same key, same samples')
    Y = run(c['seed'] + 1)
    require(any(not np.array_equal(x, y) for x, y in zip(jax.tree_util.tree_leaves(X), jax.tree_util.tree_leaves(Y))), 'different keys give the same samples')
    many = c['all'] and not v
    ref = m.ref(q.params, s) if v or many else m.ref(q.params, s, a)
    for b in range(m.n_actions if many else 1):
        pick = (lambda t: jax.tree_util.tree_map(lambda l: np.asarray(l)[:, b], t)) if many else (lambda t: t)
        prm = jax.tree_util.tree_map(lambda l: l[b], ref) if many else ref
        spec = SPECS[m.obs] if m.what == 'sp' else dict(t='discrete', n=m.bins)
        for path, leaf in S.components(spec):
            for x in (S.get(pick(X), path), S.get(pick(Y), path)):
                x, pp = np.asarray(x, 'float64'), S.get(prm, path)
                if leaf['t'] == 'discrete':
                    chi2_ok(np.bincount(x.argmax(-1), minlength=leaf['n']), softmax(pp['logits']), 'sampling frequencies')
                else:
                    z = ((x - pp['mu']) * np.exp(-0.5 * pp['logvar'])).reshape(BATCH, -1)
                    require(np.all(np.abs(z.mean(0)) < 9 / np.sqrt(BATCH)), f'sample mean off by {z.mean(0)} standard deviations')
                    require(np.all(np.abs((z ** 2).mean(0) - 1) < 9 * np.sqrt(2 / BATCH)), f'sample variance off: {(z ** 2).mean(0)}')
    return True


SUBS = [Sub('draws', case_draw, check_draw, quick=40, thorough=400, budget=60), Sub('values', case, check, quick=120, thorough=1500, budget=90, split=strata(cfg=range(len(VALUE)))),
        Sub('dynamics', case_dyn, check_dyn, quick=100, thorough=1500, budget=90, split=strata(cfg=range(len(DYN)))),
        Sub('composite', case_comp, check_comp, quick=60, thorough=600, budget=90, split=strata(cfg=COMPS)),
        Sub('quantiles', case_quant, check_quant, quick=40, thorough=400, budget=30),
        Sub('reject', case_bad, check_bad, quick=24, thorough=24, budget=30, split=strata(what=['sv', 'sq', 'p', 'sp'], bad=['signature', 'extra', 'structure', 'shape', 'type2box', 'range']))]
