from hypothesis import strategies as st
from lib.pbt import Sub, Reject, require, raises, tree_equal, tree_close, tree_snapshot, plain, equal, strata
from lib import models as M, td as T
import jax
import jax.numpy as jnp
import numpy as np
import optax
import coax

RULE = ('Histories over one updater: updates on random batches, optimizer replaced (compatible or not), optimizer state saved and restored (or refused), gradients of another batch or of the '
        'user applied, updates that produce nan. Non-trivial: at least two parameter changes, or one plus a refused or failed operation or change of the optimizer.')
ASSUMPTIONS = ['optimizers are optax gradient transformations', 'updaters whose gradient does not depend on sampled actions']
KINDS = ['SimpleTD', 'Sarsa', 'QLearning', 'DoubleQLearning', 'ExpectedSarsa', 'ClippedDoubleQLearning', 'VanillaPG', 'PPOClip', 'DeterministicPG', 'ModelUpdater/r', 'ModelUpdater/p', 'QLearning/sq']
OPT = dict(sgd=lambda: optax.sgd(0.05), sgd2=lambda: optax.sgd(0.01), mom=lambda: optax.sgd(0.05, momentum=0.9), adam=lambda: optax.adam(0.01), adam2=lambda: optax.adam(0.002),
           clip=lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.adam(0.01)), decay=lambda: optax.adamw(0.01, weight_decay=0.1),
           sched=lambda: optax.chain(optax.scale_by_schedule(lambda n: 1. / (1 + n)), optax.scale(-0.1)))
OPTS = {k: v() for k, v in OPT.items()}
GROUP = dict(sgd=['sgd2'], mom=[], adam=['adam2'], clip=[], decay=[], default=['adam', 'adam2'], sched=[], sgd2=['sgd'], adam2=['adam'])
_c = {}


def build(kind, opt):
    key = (kind, opt)
    if key not in _c:
        alg, _, sub = kind.partition('/')
        o = {} if opt == 'default' else dict(optimizer=OPTS[opt])
        others = []
        if alg == 'ModelUpdater':
            m = M.Model(sub, 'b3', 'd4', 1, 'none', False, off=T.OFF)
            upd = coax.model_updaters.ModelUpdater(m.obj, **o)
        elif alg in ('VanillaPG', 'PPOClip', 'DeterministicPG'):
            act = 'ba' if alg == 'DeterministicPG' else 'd4'
            m = M.Model('pi', 'b3', act, 2, 'none', False, off=T.OFF)
            if alg == 'DeterministicPG':
                others = [M.Model('q', 'b3', 'ba', 1, 'none', False, off=T.OFF, variate=True).obj]
            upd = getattr(coax.policy_objectives, alg)(m.obj, *others, **o)
        else:
            m = M.Model('v' if alg == 'SimpleTD' else sub or 'q', 'b3', 'd4', 2, 'none', False, off=T.OFF)
            cls = getattr(coax.td_learning, alg)
            t = m.obj.copy()
            others = [t]
            if alg == 'SimpleTD':
                upd = cls(m.obj, v_targ=t, **o)
            elif 'Clipped' in alg:
                others = [t, t.copy()]
                upd = cls(m.obj, q_targ_list=others, **o)
            else:
                kw = dict(o)
                if alg == 'ExpectedSarsa':
                    kw['pi_targ'] = M.Model('pi', 'b3', 'd4', 2, 'none', False, off=T.OFF).obj
                    others = [t, kw['pi_targ']]
                upd = cls(m.obj, q_targ=t, **kw)
        _c[key] = alg, m.obj, others, upd, OPTS.get(opt), tree_snapshot(upd.optimizer_state)
    return _c[key]


@st.composite
def case(draw):
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('update'), st.integers(0, 2**16)), st.tuples(st.just('update'), st.integers(0, 2**16)), st.tuples(st.just('grads'), st.integers(0, 2**16)),
        st.tuples(st.just('apply'), st.integers(0, 2**16)), st.tuples(st.just('nan'), st.integers(0, 2**16)), st.tuples(st.just('save')), st.tuples(st.just('restore')),
        st.tuples(st.just('opt')), st.tuples(st.just('badopt')), st.tuples(st.just('badstate'))), min_size=3, max_size=8))
    return dict(kind=draw(st.sampled_from(KINDS)), opt=draw(st.sampled_from(['sgd', 'mom', 'adam', 'default', 'clip', 'decay', 'sched'])), p=draw(st.integers(0, 2**16)), ops=[list(o) for o in ops])


def check(c):
    alg, f, others, upd, opt, st0 = build(c['kind'], c['opt'])
    act = 'ba' if alg == 'DeterministicPG' else 'd4'
    if c['opt'] == 'default':
        opt = optax.adam(1e-3)
    T.set_fn(f, c['p'], 0, 0.2)
    for k, o in enumerate(others):
        T.set_fn(o, c['p'] + 1 + k, 1, 0.2)
    # bring the (cached) updater back to its initial state
    if upd.optimizer is not (OPTS.get(c['opt']) or upd.optimizer):
        upd.optimizer = OPTS[c['opt']]
    upd.optimizer_state = jax.tree_util.tree_map(lambda a, b: jnp.asarray(b, np.asarray(a).dtype), upd.optimizer_state, st0)
    P = tree_snapshot(f.params)
    S = opt.init(P)
    tree_close(jax.tree_util.tree_leaves(upd.optimizer_state), jax.tree_util.tree_leaves(S), 'initial optimizer state')
    F = tree_snapshot(f.function_state)
    other0 = [tree_snapshot((o.params, o.function_state)) for o in others]
    saved = None
    changes, between = 0, False

    def args(seed, nan=False):
        rows, tb = T.batch('b3', act, seed, B=2 if seed % 4 == 3 else T.B)
        if alg in ('VanillaPG', 'PPOClip'):
            adv = np.random.RandomState(seed).randn(len(rows)).astype('float32')
            if nan:
                adv[1] = np.nan
            return tb, adv
        if nan:
            if alg == 'DeterministicPG' or c['kind'].endswith('/p'):
                tb.W = np.array([1., np.nan, 1., 1.][:len(rows)], 'float32')
            else:
                tb.Rn = np.array(tb.Rn)
                tb.Rn[1] = np.nan
        return (tb,)

    def step(P, S, grads):
        u, S2 = opt.update(grads, S, P)
        return tree_snapshot(optax.apply_updates(P, u)), S2
    for op in c['ops']:
        k = op[0]
        if k in ('update', 'grads', 'apply'):
            a = args(op[1])
            g = upd.grads_and_metrics(*a)
            tree_equal(plain(f.params), plain(P), f'{alg}: computing gradients must not change parameters')
            if k == 'update':
                m = upd.update(*a)
                require(isinstance(m, dict) and all(np.ndim(v) == 0 for v in m.values()), f'{alg}: metrics are scalars: {m}')
                require(set(m) == set(g[2]), f'{alg}: metrics of the update and of the gradients differ')
                P, S = step(P, S, tree_snapshot(g[0]))
                F = tree_snapshot(g[1])
            elif k == 'apply':
                grads = jax.tree_util.tree_map(lambda x: np.asarray(x) * 0.5 + 0.01, g[0])
                upd.apply_grads(grads, g[1])
                P, S = step(P, S, grads)
                F = tree_snapshot(g[1])
            changes += k != 'grads'
        elif k == 'nan':
            raises(RuntimeError, lambda: upd.update(*args(op[1], True)), f'{alg}: update with nan gradients')
            between |= changes > 0
        elif k == 'save':
            saved = (upd.optimizer_state, S)
        elif k == 'restore' and saved is not None:
            upd.optimizer_state, S = saved
            between |= changes > 0
        elif k == 'opt' and GROUP[c['opt']]:
            new = OPTS[GROUP[c['opt']][0]]
            upd.optimizer = new
            require(upd.optimizer is new, f'{alg}: the new optimizer is used')
            opt = new
            between |= changes > 0
        elif k == 'badopt':
            bad = OPTS['mom' if c['opt'] != 'mom' else 'adam']
            cur = upd.optimizer
            raises(AttributeError, lambda: setattr(upd, 'optimizer', bad), f'{alg}: optimizer whose state does not match')
            require(upd.optimizer is cur, f'{alg}: a refused optimizer has no effect')
        elif k == 'badstate' and alg not in ('VanillaPG', 'PPOClip', 'DeterministicPG'):
            raises(AttributeError, lambda: setattr(upd, 'optimizer_state', (upd.optimizer_state, 1.)), f'{alg}: optimizer state that does not match')
        tree_close(plain(tree_snapshot(f.params)), plain(P), f'{alg}: parameters after {k} follow the optimizer', rtol=2e-4, atol=2e-5)
        tree_close(plain(tree_snapshot(f.function_state)), plain(F), f'{alg}: function state after {k}', rtol=1e-6, atol=1e-6)
        a, b = jax.tree_util.tree_leaves(upd.optimizer_state), jax.tree_util.tree_leaves(S)
        require(len(a) == len(b), f'{alg}: optimizer state')
        tree_close(a, b, f'{alg}: optimizer state after {k}', rtol=1e-3, atol=1e-4)
        P, F = tree_snapshot(f.params), tree_snapshot(f.function_state)
        for o, x in zip(others, other0):
            tree_equal((o.params, o.function_state), x, f'{alg}: nothing but the learned function changes')
    if c['opt'] == 'default' or upd.optimizer is not OPTS.get(c['opt']):
        _c.pop((c['kind'], c['opt']))
    return changes >= 2 or between


# ---- gradients that are only partly nan ----------------------------------------------------------------
def case_nan():
    return st.fixed_dictionaries(dict(alg=st.sampled_from(['VanillaPG', 'PPOClip', 'DeterministicPG', 'SoftPG', 'Sarsa', 'SimpleTD', 'ModelUpdater']), p=st.integers(0, 2**16), state=st.integers(0, 2),
                                      where=st.integers(0, 3), fine=st.sampled_from([False, False, False, True]), leaf=st.sampled_from(['', 'a0', 'z9'])))


def table(alg, extra):
    """tabular functions: the gradient of a row of the batch is confined to the row's state"""
    import haiku as hk
    # two parameters without effect; their gradient is nan where they are zero
    zero = lambda: sum(0. * jnp.sqrt(jnp.abs(hk.get_parameter(name, (), init=jnp.ones))) for name in ('a0', 'z9')) if extra else 0.   # without them, no leaf is nan as a whole
    look = lambda name, S, *shape: hk.get_parameter(name, (3, *shape), init=jnp.zeros)[jnp.argmax(S, axis=-1)] + zero()
    act = 'ba' if alg in ('DeterministicPG', 'SoftPG') else 'd4'
    env = M.env('d3', act)
    opt = dict(optimizer=optax.sgd(0.05))
    if alg in ('VanillaPG', 'PPOClip'):
        f = coax.Policy(lambda S, is_training: {'logits': look('w', S, 4)}, env)
        return f, getattr(coax.policy_objectives, alg)(f, **opt), act
    if act == 'ba':
        f = coax.Policy(lambda S, is_training: {'mu': look('w', S, 2), 'logvar': jnp.zeros((S.shape[0], 2)) - 8.}, env)
        q = coax.Q(lambda S, A, is_training: look('w', S) + A.sum(-1), env, action_preprocessor=f.proba_dist.preprocess_variate)
        return f, getattr(coax.policy_objectives, alg)(f, q if alg == 'DeterministicPG' else [q], **opt), act
    if alg == 'SimpleTD':
        f = coax.V(lambda S, is_training: look('w', S), env)
        return f, coax.td_learning.SimpleTD(f, f.copy(), **opt), act
    f = (coax.Q if alg == 'Sarsa' else coax.RewardFunction)(lambda S, is_training: look('w', S, 4), env)
    return f, coax.td_learning.Sarsa(f, f.copy(), **opt) if alg == 'Sarsa' else coax.model_updaters.ModelUpdater(f, **opt), act


def check_nan(c):
    alg = c['alg']
    leaf = '' if c['fine'] else c['leaf']
    if (alg, bool(leaf)) not in _c:
        _c[alg, bool(leaf)] = table(alg, bool(leaf))
    f, upd, act = _c[alg, bool(leaf)]
    params = {k: {n: jnp.full((), float(n != leaf)) if n in ('a0', 'z9') else x for n, x in v.items()} for k, v in plain(M.rand_params(f.params, c['p'], 0.3)).items()}
    f.params = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(f.params), jax.tree_util.tree_leaves(params))
    _, tb = T.batch('d3', act, c['p'])
    S = np.array(tb.S)
    S[:] = c['state']
    k = c['where']
    S[k] = (c['state'] + 1) % 3
    tb.S = S
    adv = np.random.RandomState(c['p']).randn(T.B).astype('float32')
    before = tree_snapshot((f.params, f.function_state, upd.optimizer_state))
    if not c['fine'] and not leaf:
        bad = dict(VanillaPG='adv', PPOClip='adv', DeterministicPG='W', SoftPG='W').get(alg, 'Rn')
        if bad == 'adv':
            adv[k] = np.nan
        else:
            x = np.array(getattr(tb, bad))
            x[k] = np.nan
            setattr(tb, bad, x)
    args = (tb, adv) if alg in ('VanillaPG', 'PPOClip') else (tb,)
    grads = jax.tree_util.tree_leaves(upd.grads_and_metrics(*args)[0])
    frac = np.mean([np.isnan(np.asarray(g)).mean() for g in grads])
    if c['fine']:
        upd.update(*args)
        require(all(np.all(np.isfinite(np.asarray(x))) for x in jax.tree_util.tree_leaves(f.params)), f'{alg}: finite parameters after a regular update')
        return False
    if frac == 0:
        raise Reject()
    raises(RuntimeError, lambda: upd.update(*args), f'{alg}: update with gradients of which a fraction of {frac:.2f} is nan')
    tree_equal(tree_snapshot((f.params, f.function_state, upd.optimizer_state)), before, f'{alg}: a failed update has no effect')
    return bool(0 < frac < 1)


SUBS = [Sub('partial_nan', case_nan, check_nan, quick=84, thorough=600, budget=50, split=strata(alg=['VanillaPG', 'PPOClip', 'DeterministicPG', 'SoftPG', 'Sarsa', 'SimpleTD', 'ModelUpdater'], leaf=['', 'a0', 'z9'])),
        Sub('history', case, check, quick=150, thorough=3000, budget=110, split=strata(kind=KINDS))]
