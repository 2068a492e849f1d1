from hypothesis import strategies as st
from lib.pbt import Sub, require, equal, close, chi2_ok, raises
from lib import trans as T
import numpy as np
from coax.experience_replay import PrioritizedReplayBuffer

RULE = ('Cases: histories of add / update (fresh, stale and duplicate ids mixed) / sample / alpha, beta, epsilon changes / clear '
        'on capacities 1..11. Non-trivial: an eviction, a priority update and a multi-element sample happened.')
ASSUMPTIONS = ['ids given to update were handed out since the last clear', 'changes of alpha by less than 1.2 percent may be '
               'ignored, as long as the attribute says so', 'priorities stay above 1e-12', 'of duplicate ids in one update the last one counts']

advs = st.sampled_from([0.0, 0.1, -0.25, 0.5, -1.0, 1.5, 2.0, -3.0, 4.0, 60.0, -1000.0])


@st.composite
def case(draw):
    cap = draw(st.integers(1, 11))
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.sampled_from(['add', 'add', 'add', 'update', 'update', 'update', 'sample', 'sample', 'sample', 'alpha', 'beta',
                                  'epsilon', 'clear', 'readd', 'bad']))
        if k == 'add':
            n = draw(st.integers(1, min(2 * cap, 9)))
            ops.append([k, draw(st.lists(advs, min_size=n, max_size=n)), draw(st.sampled_from(['float32', 'float64']))])
        elif k == 'readd':
            ops.append([k, draw(st.integers(0, 3)), draw(advs)])
        elif k == 'update':
            n = draw(st.integers(1, 6))
            # positions counted back from the newest id ever issued: may be evicted (stale)
            ops.append([k, draw(st.lists(st.integers(0, 2 * cap), min_size=n, max_size=n)),
                        draw(st.lists(advs, min_size=n, max_size=n))])
        elif k == 'sample':
            ops.append([k, draw(st.integers(1, 10))])
        elif k == 'bad':
            ops.append([k, draw(st.sampled_from(['alpha', 'beta', 'epsilon'])), draw(st.sampled_from([0, 0.0, -0.5, -1, '0.5', None, [0.5]]))])
        elif k in ('alpha', 'beta'):
            ops.append([k, draw(st.sampled_from([0.25, 0.5, 0.503, 0.506, 0.515, 0.56, 0.8, 1.0, 1.008, 1.03, 1.5, 2.0, 2.1]))])
        elif k == 'epsilon':
            ops.append([k, draw(st.sampled_from([1e-4, 0.01, 0.1, 1.0]))])
        else:
            ops.append([k])
    return dict(cfg=draw(T.CFG), capacity=cap, seed=draw(st.integers(0, 1000)), ops=ops,
                alpha=draw(st.sampled_from([0.3, 0.6, 1.0, 2])), beta=draw(st.sampled_from([0.4, 1.0, 2])),
                epsilon=draw(st.sampled_from([1e-4, 0.01, 0.5])), tiny=draw(st.sampled_from([0, 0, 0, 1])))


def check(c):
    cfg, cap = c['cfg'], c['capacity']
    if c.get('tiny'):      # all advantages and epsilons of the order of 1e-4
        small = lambda x: (np.asarray(x) * 1e-4).tolist()
        eps = lambda e: max(1e-4, e * 1e-3)
        ops = [[o[0], small(o[1]), o[2]] if o[0] == 'add' else [o[0], o[1], small(o[2])] if o[0] in ('readd', 'update') else [o[0], eps(o[1])] if o[0] == 'epsilon' else o for o in c['ops']]
        c = dict(c, ops=ops, epsilon=eps(c['epsilon']))
    mk = lambda: PrioritizedReplayBuffer(cap, alpha=c['alpha'], beta=c['beta'], epsilon=c['epsilon'], random_seed=c['seed'])
    buf, twin = mk(), mk()
    alpha, beta, eps = c['alpha'], c['beta'], c['epsilon']
    model, uid, added, issued = {}, 0, [], []     # model: id -> [uid, base priority (|Adv|+eps at the time)]
    ev = up = sm = False

    def contents(what):
        require(len(buf) == len(model) and bool(buf) == bool(model), f'{what}: length {len(buf)}, expected {len(model)}')
        items = list(buf)
        require(len(items) == len(model), f'{what}: iterates {len(items)} items, expected {len(model)}')
        got = sorted((int(np.ravel(x.idx)[0]), T.uids_of(x)[0]) for x in items)
        exp = sorted((i, m[0]) for i, m in model.items())
        require(got == exp, f'{what}: stored (id, transition) pairs {got}, expected {exp}')
        for x in items:
            require(x.batch_size == 1, 'stored item is not a single transition')
            T.same(x, cfg, T.uids_of(x), f'{what}: stored transition')

    for op in c['ops']:
        k = op[0]
        if k in ('add', 'readd'):
            if k == 'add':
                Adv = np.asarray(op[1], op[2])
                uids = list(range(uid, uid + len(Adv)))
                uid += len(Adv)
                tb = T.batch(cfg, uids)
                added.append((tb, uids))
            else:
                if not added:
                    continue
                tb, uids = added[-1 - op[1] % len(added)]
                Adv = np.full(len(uids), op[2], 'float32')
            buf.add(tb, Adv)
            twin.add(T.batch(cfg, uids), Adv)
            T.same(tb, cfg, uids, 'the batch handed to add')
            ids = np.asarray(tb.idx).tolist()
            require(len(set(ids)) == len(uids) and not set(ids) & set(issued), f'ids {ids} are not fresh; issued: {issued}')
            ev |= len(model) + len(uids) > cap
            issued += ids
            for i, u, a in zip(ids, uids, Adv):
                model[i] = [u, abs(float(a)) + eps]
            for i in issued[:-cap]:
                model.pop(i, None)
        elif k == 'update':
            if not issued:
                continue
            ids, Adv = [], []
            for back, a in zip(op[1], op[2]):
                i = issued[-1 - back % len(issued)]
                ids.append(i)
                Adv.append(a)
            buf.update(np.asarray(ids), np.asarray(Adv, 'float32'))
            twin.update(np.asarray(ids), np.asarray(Adv, 'float32'))
            for i, a in zip(ids, Adv):
                if i in model:
                    model[i][1] = abs(a) + eps
                    up = True
        elif k == 'alpha':
            old, buf.alpha, twin.alpha = alpha, op[1], op[1]
            alpha = buf.alpha
            # very small changes may be ignored, but then they are ignored altogether
            require(abs(alpha - op[1]) < 1e-12 or (abs(op[1] / old - 1) < 0.012 and alpha == old), f'alpha is {alpha} after setting it to {op[1]} (was {old})')
        elif k == 'beta':
            buf.beta = beta = op[1]
            twin.beta = beta
            require(abs(buf.beta - beta) < 1e-12, 'beta attribute')
        elif k == 'epsilon':
            buf.epsilon = eps = op[1]
            twin.epsilon = eps
            require(abs(buf.epsilon - eps) < 1e-12, 'epsilon attribute')
        elif k == 'bad':
            raises(TypeError, lambda: setattr(buf, op[1], op[2]), f'{op[1]} = {op[2]!r}')
            raises(TypeError, lambda: PrioritizedReplayBuffer(cap, random_seed=1, **{op[1]: op[2]}), f'a buffer with {op[1]} = {op[2]!r}')
            require((buf.alpha, buf.beta, buf.epsilon) == (alpha, beta, eps), f'a refused {op[1]} changed the hyper-parameters')
        elif k == 'clear':
            buf.clear()
            twin.clear()
            model, issued = {}, []
        elif k == 'sample':
            if not model:
                continue
            n = op[1]
            s = buf.sample(batch_size=n)
            uids, ids = T.uids_of(s), np.asarray(s.idx).tolist()
            require(len(uids) == n and len(ids) == n, f'sample of {n} has {len(uids)} transitions, {len(ids)} ids')
            for i, u in zip(ids, uids):
                require(i in model and model[i][0] == u, f'sampled (id, transition) {(i, u)} is not stored: {model}')
            T.same(s, cfg, uids, 'sampled batch', skip=('W',))
            p = np.array([model[i][1] ** alpha for i in ids])
            w = p ** -beta
            w0 = np.array([float(T.fields(cfg, u)['W']) for u in uids])
            close(s.W, w0 * w / w.max(), f'importance weights (priorities {p.tolist()}, beta={beta})', rtol=2e-4)
            equal(twin.sample(batch_size=n).idx, ids, 'same seed and history must give the same sample')
            s.W[...] = 55
            sm |= n >= 2
        contents(f'after {k}')
    # full read-out of the final priorities through the weights of a large sample
    if model:
        s = buf.sample(batch_size=1500)
        ids = np.asarray(s.idx).tolist()
        require(set(ids) <= set(model), f'sampled ids {set(ids)} not stored: {set(model)}')
        keys = sorted(model)
        pr = np.array([model[i][1] ** alpha for i in keys])
        chi2_ok([ids.count(i) for i in keys], pr / pr.sum(), f'sampling frequencies for priorities {pr.tolist()}')
        p = np.array([model[i][1] ** alpha for i in ids])
        w0 = np.array([float(T.fields(cfg, model[i][0])['W']) for i in ids])
        close(s.W, w0 * (p / p.min()) ** -beta, 'importance weights in the final sample', rtol=2e-4)
    return ev and up and sm


@st.composite
def case_long(draw):
    """long histories over larger capacities, written out from a seed"""
    rnd = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    cap = int(draw(st.one_of(st.integers(8, 150), st.sampled_from([16, 31, 32, 33, 64, 127, 128, 256, 257, 300, 512]))))
    A = [0.0, 0.1, -0.25, 0.5, -1.0, 1.5, 2.0, -3.0, 4.0]
    ops = [['add', [float(x) for x in rnd.choice(A, size=cap)], 'float32']]
    for _ in range(draw(st.integers(5, 25))):
        k = rnd.choice(['add', 'add', 'add', 'update', 'update', 'sample', 'sample', 'alpha', 'beta', 'epsilon'])
        if k == 'add':
            ops.append([k, [float(x) for x in rnd.choice(A, size=rnd.choice([1, rnd.randint(1, cap + 1)]))], 'float32'])
        elif k == 'update':
            n = rnd.randint(1, 40)
            ops.append([k, rnd.randint(0, int(1.5 * cap), size=n).tolist(), [float(x) for x in rnd.choice(A, size=n)]])
        elif k == 'sample':
            ops.append([k, int(rnd.choice([1, 7, 32]))])
        elif k == 'epsilon':
            ops.append([k, float(rnd.choice([0.01, 0.1, 1.0]))])
        else:
            ops.append([str(k), float(rnd.choice([0.25, 0.5, 0.503, 0.506, 0.52, 1.0, 1.008, 1.04, 1.5, 2.0]))])
    ops = [[str(o[0])] + o[1:] for o in ops]
    return dict(cfg=dict(obs='vec', act='int', next=False, extra=False, rvec=0), capacity=cap, seed=draw(st.integers(0, 1000)),
                ops=ops, alpha=0.6, beta=0.4, epsilon=0.01)


# tens of thousands of transitions: ids far beyond the capacity, and large capacities
case_many = lambda: st.fixed_dictionaries(dict(cap=st.sampled_from([500, 3001, 40000]), total=st.sampled_from([36000, 36000, 70000]), seed=st.integers(0, 10**6), alpha=st.sampled_from([0.6, 1.0])))


def check_many(c):
    from coax.reward_tracing import TransitionBatch
    rnd = np.random.RandomState(c['seed'])
    cap, total, eps = c['cap'], c['total'], 0.01
    buf = PrioritizedReplayBuffer(cap, alpha=c['alpha'], beta=0.5, epsilon=eps, random_seed=c['seed'])
    pri = np.zeros(total)
    k, seen = 0, set()
    ids = np.zeros(total, 'int64')
    while k < total:
        n = min(int(rnd.randint(1, min(cap, 4000) + 1)), total - k)
        u = np.arange(k, k + n)
        tb = TransitionBatch(u.astype('float64'), u % 3, np.zeros(n), u.astype('float64'), np.full(n, .9), u + 1., u % 3, np.zeros(n))
        adv = rnd.choice([0., .1, .5, -1., 2., -4.], size=n)
        buf.add(tb, adv)
        ids[u] = np.asarray(tb.idx)
        pri[u] = abs(adv) + eps
        k += n
        # an update of fresh and stale ids
        who = np.unique(rnd.randint(max(0, k - 2 * cap), k, size=200))
        adv = rnd.choice([0., .3, -3.], size=len(who))
        buf.update(ids[who], adv)
        pri[who] = abs(adv) + eps
    require(len(set(ids.tolist())) == total, f'{total - len(set(ids.tolist()))} ids were handed out twice')
    stored = np.array(sorted(int(x.S[0]) for x in buf))
    require(len(buf) == min(cap, total) and np.array_equal(stored, np.arange(total)[-cap:]), f'after {total} transitions the buffer of capacity {cap} does not hold the last {cap}: it holds {len(stored)} from {stored[:3]} to {stored[-3:]}')
    s = buf.sample(batch_size=20000)
    u = np.asarray(s.S).astype(int)
    require(np.isin(u, stored).all(), f'sampled transitions that are not stored: {u[~np.isin(u, stored)][:5]}')
    require(np.array_equal(np.asarray(s.idx), ids[u]), 'the ids of a sample are not those that were handed out')
    for f, e in (('Rn', u), ('A', u % 3), ('S_next', u + 1)):
        require(np.array_equal(np.asarray(getattr(s, f)), e), f'{f} of a sample does not belong to its transitions')
    p = pri ** c['alpha']
    close(s.W, (p[u] / p[u].min()) ** -.5, 'importance weights', rtol=2e-4)
    # frequencies: by priority and by position in the buffer
    q = p[stored] / p[stored].sum()
    for what, g in (('priority', np.searchsorted(np.unique(pri[stored]), pri)), ('age', (np.arange(total) - stored[0]) * 16 // len(stored))):
        n = g[stored].max() + 1
        chi2_ok(np.bincount(g[u], minlength=n), np.bincount(g[stored], weights=q, minlength=n), f'sampling frequencies by {what}')
    return True


# the draws of one sample, and of consecutive samples, are independent
case_pos = lambda: st.fixed_dictionaries(dict(adv=st.lists(st.sampled_from([0., .5, -1., 2.]), min_size=2, max_size=4), alpha=st.sampled_from([.5, 1.]), n=st.integers(1, 4), seed=st.integers(0, 10**6)))


def check_pos(c):
    from coax.reward_tracing import TransitionBatch
    k = len(c['adv'])
    buf = PrioritizedReplayBuffer(k, alpha=c['alpha'], epsilon=.5, random_seed=c['seed'])
    u = np.arange(k)
    buf.add(TransitionBatch(u.astype('float64'), u, np.zeros(k), u * 1., np.full(k, .9), u + 1., u, np.zeros(k)), np.array(c['adv']))
    a = np.array([np.asarray(buf.sample(batch_size=c['n']).A) for _ in range(1200)])
    p = (np.abs(c['adv']) + .5) ** c['alpha']
    p /= p.sum()
    for j in range(c['n']):
        chi2_ok(np.bincount(a[:, j], minlength=k), p, f'draw {j} of a sample of {c["n"]}')
        chi2_ok(np.bincount(a[:-1, -1] * k + a[1:, j], minlength=k * k), np.outer(p, p).ravel(), f'the last draw of a sample and draw {j} of the next one')
        if j:
            chi2_ok(np.bincount(a[:, 0] * k + a[:, j], minlength=k * k), np.outer(p, p).ravel(), f'draws 0 and {j} of a sample of {c["n"]}')
    return True


SUBS = [Sub('positions', case_pos, check_pos, quick=10, thorough=200, budget=30),
        Sub('many', case_many, check_many, quick=6, thorough=200, budget=30),
        Sub('history', case, check, quick=1000, thorough=12000, budget=60),
        Sub('long_history', case_long, check, quick=60, thorough=1500, budget=60)]
