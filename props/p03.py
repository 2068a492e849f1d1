from hypothesis import strategies as st
from lib.pbt import Sub, require, equal, chi2_ok, raises, short
from lib import trans as T
import random
import numpy as np
from coax.experience_replay import SimpleReplayBuffer

RULE = ('Cases: histories of add (batches of 1..9, re-adds of an earlier batch object) / sample / clear / tampering with global '
        'random state, on capacities 1..150, over seven observation structures. Non-trivial: at least one eviction and one '
        'sample of size >= 2 happened.')
ASSUMPTIONS = ['all transitions put into one buffer share the same structure', 'capacity is a positive int']


@st.composite
def case(draw):
    cap = draw(st.integers(1, 12))
    ops = []
    for _ in range(draw(st.integers(5, 16))):
        ops.append(draw(st.one_of(
            st.tuples(st.just('add'), st.integers(1, 9)), st.tuples(st.just('add'), st.integers(1, 3)),
            st.tuples(st.just('add'), st.just(1)),
            st.tuples(st.just('sample'), st.integers(1, 8)), st.tuples(st.just('sample'), st.integers(1, 8)),
            st.tuples(st.just('readd'), st.integers(0, 3)),
            st.tuples(st.just('tamper'), st.integers(0, 99)),
            st.tuples(st.sampled_from(['clear', 'oversample']), st.just(0)))))
    return dict(cfg=draw(T.CFG), capacity=cap, seed=draw(st.integers(0, 1000)), ops=ops)


def check(c):
    cfg, cap = c['cfg'], c['capacity']
    before = random.getstate()
    try:
        return _check(c, cfg, cap)
    finally:
        random.setstate(before)


def _check(c, cfg, cap):
    buf = SimpleReplayBuffer(cap, random_seed=c['seed'])
    twin = SimpleReplayBuffer(cap, random_seed=c['seed'])  # same history, global randomness not tampered with
    require(buf.capacity == cap, 'capacity attribute')
    model, uid, evicted, sampled = [], 0, False, False   # model: list of (uid, id)
    added = []

    def contents(what):
        require(len(buf) == len(model), f'{what}: length {len(buf)} != {len(model)}')
        require(bool(buf) == bool(model), f'{what}: truth value')
        items = list(buf)
        require(len(items) == len(model), f'{what}: iteration yields {len(items)} items, expected {len(model)}')
        for it, (u, i) in zip(items, model):
            require(it.batch_size == 1, f'{what}: stored item has batch_size {it.batch_size}')
            T.same(it, cfg, [u], f'{what}: stored transition')
            equal(it.idx, [i], f'{what}: id of transition {u}')

    contents('initially')
    for op, arg in c['ops']:
        if op in ('add', 'readd'):
            if op == 'readd' and not added:
                continue
            if op == 'add':
                uids = list(range(uid, uid + arg))
                uid += arg
                tb = T.batch(cfg, uids)
                added.append((tb, uids))
            else:
                tb, uids = added[-1 - arg % len(added)]
            buf.add(tb)
            T.same(tb, cfg, uids, 'the batch handed to add')
            ids = np.asarray(tb.idx).tolist()
            require(len(ids) == len(uids), f'batch got {len(ids)} ids')
            twin.add(T.batch(cfg, uids))
            evicted |= len(model) + len(uids) > cap
            model = (model + list(zip(uids, ids)))[-cap:]
            require(len({i for _, i in model}) == len(model), f'ids are not unique: {model}')
        elif op == 'clear':
            buf.clear()
            twin.clear()
            model = []
        elif op == 'tamper':
            random.seed(arg)
            np.random.seed(arg)
            other = SimpleReplayBuffer(3, random_seed=arg)  # another buffer in the same process
            other.add(T.batch(cfg, [5, 6, 7]))
            other.sample(2)
        elif op == 'oversample':
            raises(Exception, lambda: buf.sample(len(model) + 1), 'sampling more than is stored')
        elif op == 'sample':
            n = min(arg, len(model))
            if n < 1:
                continue
            s = buf.sample(batch_size=n)
            uids, ids = T.uids_of(s), np.asarray(s.idx).tolist()
            T.same(s, cfg, uids, 'sampled batch')
            require(len(ids) == n and len(set(ids)) == n, f'sample of {n} has ids {ids}')
            for u, i in zip(uids, ids):
                require((u, i) in model, f'sampled transition {(u, i)} is not among the stored ones {model}')
            t = twin.sample(batch_size=n)
            equal(t.idx, ids, 'same seed and history must give the same sample')
            s.Rn[...] = 77  # the caller owns the sample; the buffer must not see this
            sampled |= n >= 2
        contents(f'after {op}')
    return evicted and sampled


@st.composite
def case_long(draw):
    """long histories over larger capacities, written out from a seed"""
    rnd = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    cap = int(draw(st.one_of(st.integers(13, 150), st.sampled_from([16, 31, 32, 33, 64, 100, 127, 128]))))
    ops = []
    for _ in range(draw(st.integers(5, 25))):
        k = str(rnd.choice(['add', 'add', 'add', 'sample', 'sample', 'readd', 'tamper', 'oversample'] + ['clear'] * (rnd.rand() < .3)))
        n = int(rnd.choice([1, rnd.randint(1, 2 * cap), rnd.randint(1, 20)])) if k == 'add' else int(rnd.choice([1, 7, 32, 33, 64, cap])) if k == 'sample' else int(rnd.randint(0, 4))
        ops.append([k, n])
    return dict(cfg=dict(draw(T.CFG), obs=draw(st.sampled_from(['int', 'vec', 'dict']))), capacity=cap, seed=draw(st.integers(0, 1000)), ops=ops)


@st.composite
def case_freq(draw):
    n = draw(st.integers(1, 8))
    return dict(n=n, k=draw(st.integers(1, n)), pre=draw(st.integers(0, 6)), seed=draw(st.integers(0, 2**20)))


def check_freq(c):
    cfg = dict(obs='int', act='int', next=False, extra=False, rvec=0)
    before = random.getstate()
    outs = []
    try:
        buf = SimpleReplayBuffer(c['n'], random_seed=c['seed'])
        if c['pre']:
            buf.add(T.batch(cfg, range(100, 100 + c['pre'])))
        buf.add(T.batch(cfg, range(c['n'])))
        draws = 1200
        out = [T.uids_of(buf.sample(c['k'])) for _ in range(draws)]
        for seed in (c['seed'] + 1, None, None):      # other seeds, and no seed at all, give other samples
            buf = SimpleReplayBuffer(c['n'], random_seed=seed)
            buf.add(T.batch(cfg, range(c['n'])))
            outs.append([T.uids_of(buf.sample(c['k'])) for _ in range(150)])
    finally:
        random.setstate(before)
    outs.append(out[:150])
    require(c['n'] == 1 or all(a != b for i, a in enumerate(outs) for b in outs[:i]), f'buffers with the seeds {c["seed"] + 1}, None, None and {c["seed"]} give the same samples')
    firsts = np.bincount([o[0] for o in out], minlength=c['n'])
    chi2_ok(firsts, np.full(c['n'], 1 / c['n']), 'first element of a sample is uniform over the stored transitions')
    allc = np.bincount(np.ravel(out), minlength=c['n'])
    sd = np.sqrt(draws * c['k'] / c['n'] * (1 - c['k'] / c['n']))
    require(np.all(np.abs(allc - draws * c['k'] / c['n']) <= 9 * sd + 1e-9), f'inclusion counts not uniform: {short(allc)}')
    if c['k'] > 1:
        for i, j in ((0, 1), (0, c['k'] - 1)):
            pair = np.bincount([o[i] * c['n'] + o[j] for o in out], minlength=c['n'] ** 2)
            chi2_ok(pair, ((1 - np.eye(c['n'])) / (c['n'] * (c['n'] - 1))).ravel(), f'elements {i} and {j} of a sample')
    pair = np.bincount([a[-1] * c['n'] + b[0] for a, b in zip(out, out[1:])], minlength=c['n'] ** 2)
    chi2_ok(pair, np.full(c['n'] ** 2, c['n'] ** -2.), 'the last element of a sample and the first of the next one')
    return c['n'] > 1


# tens of thousands of transitions through buffers of any size
case_many = lambda: st.fixed_dictionaries(dict(cap=st.sampled_from([500, 3001, 40000]), total=st.sampled_from([36000, 36000, 70000]), seed=st.integers(0, 10**6)))


def check_many(c):
    from coax.reward_tracing import TransitionBatch
    rnd = np.random.RandomState(c['seed'])
    cap, total = c['cap'], c['total']
    before = random.getstate()
    try:
        buf = SimpleReplayBuffer(cap, random_seed=c['seed'])
        k = 0
        while k < total:
            n = min(int(rnd.randint(1, 4001)), total - k)
            u = np.arange(k, k + n)
            buf.add(TransitionBatch(u.astype('float64'), u % 3, np.zeros(n), u.astype('float64'), np.full(n, .9), u + 1., u % 3, np.zeros(n)))
            k += n
        stored = np.array([int(x.S[0]) for x in buf])
        require(len(buf) == min(cap, total) and np.array_equal(stored, np.arange(total)[-cap:]), f'after {total} transitions the buffer of capacity {cap} does not hold the last {cap} in order: it holds {len(stored)} from {stored[:3]} to {stored[-3:]}')
        counts = np.zeros(16)
        for n in (1, 32, 300, 400):
            s = buf.sample(n)
            u = np.asarray(s.S).astype(int)
            require(len(set(u.tolist())) == n and np.isin(u, stored).all(), f'a sample of {n} has {len(set(u.tolist()))} different transitions, {np.isin(u, stored).sum()} of them stored')
            for f, e in (('Rn', u), ('A', u % 3), ('S_next', u + 1)):
                require(np.array_equal(np.asarray(getattr(s, f)), e), f'{f} of a sample does not belong to its transitions')
            counts += np.bincount((u - stored[0]) * 16 // len(stored), minlength=16)
        chi2_ok(counts, np.full(16, 1 / 16), 'sampling frequencies by age')
    finally:
        random.setstate(before)
    return True


SUBS = [Sub('many', case_many, check_many, quick=6, thorough=200, budget=30),
        Sub('history', case, check, quick=800, thorough=15000, budget=45),
        Sub('long_history', case_long, check, quick=120, thorough=1500, budget=30),
        Sub('uniform', case_freq, check_freq, quick=20, thorough=150, budget=40)]
