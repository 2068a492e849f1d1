from hypothesis import strategies as st
from lib.pbt import Sub, require, equal, close, raises, tree_equal, short, strata
from lib import trans as T
import jax
import numpy as np
from coax.reward_tracing import TransitionBatch
from coax.utils import chunks_pow2

RULE = ('Cases: (structure, batch size 1..150, optional fields present or absent, perturbed field) or one single transition. '
        'Non-trivial: batch size >= 2 with nested observations, or optional fields absent.')
ASSUMPTIONS = ['equality tolerance is numerical closeness, so perturbations are larger than 0.1']


@st.composite
def case(draw):
    return dict(cfg=draw(T.CFG), n=draw(st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 150, 300]))),
                start=draw(st.integers(0, 50)), perturb=draw(st.sampled_from(T.FIELDS)), which=draw(st.integers(0, 1000)))


def concat(tbs):
    return jax.tree_util.tree_map(lambda *xs: np.concatenate(xs, axis=0), *tbs)


def check(c):
    cfg, n = c['cfg'], c['n']
    uids = list(range(c['start'], c['start'] + n))
    tb = T.batch(cfg, uids)
    require(np.shape(tb.idx) == (n,) and len(set(np.asarray(tb.idx).tolist())) == n, f'the default ids of a batch of {n} are not distinct: {tb.idx}')
    tb.idx = np.arange(n) * 3 + 5
    require(tb.batch_size == n, f'batch_size {tb.batch_size} != {n}')

    # split into singles and join again
    singles = list(tb.to_singles())
    require(len(singles) == n, f'{len(singles)} singles from a batch of {n}')
    order = [T.uids_of(s)[0] for s in singles]
    require(order == uids, f'singles hold transitions {order}, expected {uids}')
    for s, u in zip(singles, order):
        require(isinstance(s, TransitionBatch) and s.batch_size == 1, 'a single is not a TransitionBatch of size 1')
        T.same(s, cfg, [u], 'single')
        equal(s.idx, [(u - c['start']) * 3 + 5], 'single: idx')
    # singles own their header: changing one field of a single does not reach the batch or other singles
    singles[0].idx = np.array([12345])
    equal(tb.idx, np.arange(n) * 3 + 5, 'ids of the batch after an id of a single was replaced')
    T.same(concat(list(tb.to_singles())), cfg, uids, 'rejoined singles')

    # power-of-two chunks
    chunks = list(chunks_pow2(tb))
    sizes = [x.batch_size for x in chunks]
    require(sum(sizes) == n and all(k & (k - 1) == 0 and k > 0 for k in sizes), f'chunk sizes {sizes} for batch of {n}')
    require(len(set(sizes)) == len(sizes), f'chunk sizes {sizes} for batch of {n} are not distinct powers of two')
    whole = concat(chunks) if len(chunks) > 1 else chunks[0]
    T.same(whole, cfg, uids, 'rejoined chunks')
    equal(whole.idx, tb.idx, 'rejoined chunks: idx')

    # views of the same content
    names = [k for k, _ in tb.items()]
    require(set(names) == set(T.FIELDS) | {'idx'}, f'field names {names}')
    d = tb._asdict()
    for k, v in tb.items():
        require(d[k] is v and getattr(tb, k) is v, f'field {k} differs between views')
    require(all(a is b for a, b in zip(tuple(tb), (v for _, v in tb.items()))), 'iteration order differs from items()')
    require(tb[0] is tb.S and tb[1] is tb.A and tb[-1] is tb.extra_info, 'positional access')

    # pytree behaviour
    leaves, td = jax.tree_util.tree_flatten(tb)
    back = jax.tree_util.tree_unflatten(td, leaves)
    require(isinstance(back, TransitionBatch), 'unflatten does not give a TransitionBatch')
    T.same(back, cfg, uids, 'flatten/unflatten')
    equal(back.idx, tb.idx, 'flatten/unflatten: idx')
    shifted = jax.tree_util.tree_map(lambda x: x + 1, tb)
    tree_equal(shifted.S, jax.tree_util.tree_map(lambda x: x + 1, tb.S), 'tree_map on S')
    tree_equal(shifted.Rn, tb.Rn + 1, 'tree_map on Rn')
    equal(shifted.W, tb.W + 1, 'tree_map on W')

    # copies
    deep = tb.copy(deep=True)
    require(deep == tb and tb == deep, 'deep copy is not equal to the original')
    for (k, x), (_, y) in zip(tb.items(), deep.items()):
        for a, b in zip(jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(y)):
            require(not np.shares_memory(a, b), f'a deep copy shares the data of field {k} with the original')
    deep.Rn[0] += 5
    T.same(tb, cfg, uids, 'original after mutating a deep copy')
    shallow = tb.copy()
    shallow.idx = np.zeros(n, 'int32')
    equal(tb.idx, np.arange(n) * 3 + 5, 'original idx after rebinding a field of a copy')

    # equality is exactly: same fields, same structure, same shapes, close values
    twin = T.batch(cfg, uids)
    twin.idx = np.arange(n) * 3 + 5
    require(tb == twin, 'batches with equal content compare unequal')
    require(not (tb == 'x') and not (tb == None) and tb != tuple(tb), 'equal to something that is not a batch')  # noqa: E711
    f = c['perturb']
    v = getattr(twin, f)
    if v is None:
        setattr(twin, f, np.zeros(n))
        require(not (tb == twin) and not (twin == tb), f'equal although only one has field {f}')
    else:
        lv, ltd = jax.tree_util.tree_flatten(v)
        k = c['which'] % len(lv)
        pos = c['which'] % n
        lv = [np.array(x) for x in lv]
        lv[k][pos] += 1
        setattr(twin, f, jax.tree_util.tree_unflatten(ltd, lv))
        require(not (tb == twin) and not (twin == tb), f'equal although entry {pos} of field {f} (leaf {k}) differs')
        # small values that differ
        lv, ltd = jax.tree_util.tree_flatten(v)
        if np.issubdtype(np.asarray(lv[k]).dtype, np.floating):
            two = []
            for z in (1e-7, 4e-7):
                t, l = T.batch(cfg, uids), [np.array(x) for x in lv]
                t.idx = np.array(tb.idx)
                l[k][pos] = z
                setattr(t, f, jax.tree_util.tree_unflatten(ltd, l))
                two.append(t)
            require(not (two[0] == two[1]) and not (two[1] == two[0]), f'equal although entry {pos} of field {f} (leaf {k}) is 1e-7 in one and 4e-7 in the other')
    longer = T.batch(cfg, uids + [uids[-1]])
    require(not (tb == longer) and not (longer == tb), 'equal although the batch sizes differ')
    rep = T.batch(cfg, [uids[0]] * 3)
    one = T.batch(cfg, [uids[0]])
    one.idx = rep.idx[:1]
    rep.idx = np.full(3, rep.idx[0])
    require(not (one == rep) and not (rep == one), 'one transition compares equal to three copies of itself')
    return (n >= 2 and cfg['obs'] in ('dict', 'tuple', 'nested')) or not cfg['next']


@st.composite
def case_single(draw):
    return dict(obs=draw(st.sampled_from(T.OBS)), act=draw(st.sampled_from(T.ACT)), x=draw(st.integers(0, 30)),
                logp=draw(st.sampled_from([0, 0.0, -1.5, -20.0])), r=draw(st.sampled_from([0, 1, -2.5, [1.0, 2.0]])),
                done=draw(st.booleans()), gamma=draw(st.sampled_from([0, 1, 0.0, 0.5, 0.99, 1.0])),
                nxt=draw(st.booleans()), nxta=draw(st.booleans()), w=draw(st.sampled_from([None, 1, 0.5, 3.0, 0.1, 1234.567])),
                idx=draw(st.sampled_from([None, 0, 7])), extra=draw(st.booleans()),
                bad=draw(st.sampled_from(['', '', 'logp', 'done', 'gamma', 'gamma2', 'w', 'r', 'logp_next', 'w0', 'logp_vec', 'logp_next_vec', 'gamma_str', 'done_none', 'r_none', 'logp_str', 'w_str'])))


def check_single(c):
    r = np.asarray(c['r']) if isinstance(c['r'], list) else c['r']
    kw = dict(s=T.obs(c['obs'], c['x']), a=T.act(c['act'], c['x']), logp=c['logp'], r=r, done=c['done'], gamma=c['gamma'])
    if c['nxt']:
        kw['s_next'] = T.obs(c['obs'], c['x'] + 1)
    if c['nxta']:
        kw.update(a_next=T.act(c['act'], c['x'] + 1), logp_next=-0.75)
    if c['w'] is not None:
        kw['w'] = c['w']
    if c['idx'] is not None:
        kw['idx'] = c['idx']
    if c['extra']:
        kw['extra_info'] = {'a': (1, np.arange(3))}
    if c['bad']:
        kw[{'gamma2': 'gamma', 'w0': 'w', 'logp_vec': 'logp', 'logp_next_vec': 'logp_next', 'gamma_str': 'gamma', 'done_none': 'done', 'r_none': 'r', 'logp_str': 'logp',
            'w_str': 'w'}.get(c['bad'], c['bad'])] = dict(
            logp=0.25, done=1, gamma=1.5, gamma2=-0.1, w=-1.0, w0=0.0, r='x', logp_next=0.5, logp_vec=np.array([-1., .5]), logp_next_vec=np.array([0.5, -1.]), gamma_str='0.5', done_none=None, r_none=None, logp_str='0', w_str='1')[c['bad']]
        raises(TypeError, lambda: TransitionBatch.from_single(**kw), f'invalid {c["bad"]}')
        return True
    tb = TransitionBatch.from_single(**kw)
    ax = lambda x: jax.tree_util.tree_map(lambda y: np.asarray(y)[None], x)
    require(tb.batch_size == 1, 'batch_size of a single transition')
    tree_equal(tb.S, ax(kw['s']), 'S')
    tree_equal(tb.A, ax(kw['a']), 'A')
    equal(tb.logP, ax(c['logp']), 'logP')
    equal(tb.Rn, ax(r), 'Rn')
    equal(tb.In, [0. if c['done'] else c['gamma']], 'bootstrap factor')
    close(tb.W, [1. if c['w'] is None else c['w']], 'W', 1e-6)
    require(np.issubdtype(np.asarray(tb.W).dtype, np.floating) and np.issubdtype(np.asarray(tb.In).dtype, np.floating), f'weights of dtype {np.asarray(tb.W).dtype}, bootstrap factors of dtype {np.asarray(tb.In).dtype}')
    equal(tb.idx, [c['idx'] or 0], 'idx')
    for f, k in [('S_next', 's_next'), ('A_next', 'a_next'), ('logP_next', 'logp_next'), ('extra_info', 'extra_info')]:
        if k in kw:
            tree_equal(getattr(tb, f), ax(kw[k]), f)
        else:
            require(getattr(tb, f) is None, f'{f} should be absent')
    return True


SUBS = [Sub('batch', case, check, quick=300, thorough=8000, budget=60, split=strata(perturb=T.FIELDS)),
        Sub('single', case_single, check_single, quick=400, thorough=5000, budget=30)]
