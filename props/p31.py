from hypothesis import strategies as st
from lib.pbt import Sub, require, close, equal, raises, tree_equal, strata
from lib import trans as X
import logging
import pickle
import time
import gymnasium
import numpy as np
import coax
import ray
import ray.actor

RULE = ('Cases: (kind of buffer, how workers reach the parameter store, history of buffer, state, metric, attribute, rollout and learning operations on a store and two workers). '
        'Non-trivial: at least three operations of which one goes through the parameter store.')
ASSUMPTIONS = ['ray actors are replaced by an in-process stand-in that serializes every argument and result', 'waiting is simulated: sleeping lets the buffer grow']
logging.getLogger('TrainMonitor').propagate = False


# ---- stand-in for a ray actor ----------------------------------------------------------------------------------------------
class Handle:
    def __init__(self, target):
        self._target = target

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Method(self._target, name)


class Method:
    def __init__(self, target, name):
        self.target, self.name = target, name

    def remote(self, *args, **kwargs):
        args, kwargs = pickle.loads(pickle.dumps((args, kwargs)))
        return Ref(pickle.dumps(getattr(self.target, self.name)(*args, **kwargs)))


class Ref:
    def __init__(self, data):
        self.data = data


def setup():
    ray.actor.ActorHandle = Handle
    ray.get = lambda ref, **kw: pickle.loads(ref.data)


class Env(gymnasium.Env):
    observation_space = gymnasium.spaces.Discrete(100000)
    action_space = gymnasium.spaces.Discrete(5)

    def __init__(self, lengths, how):
        self.lengths, self.how, self.ep, self.k, self.log, self.mark = lengths, how, -1, 0, [], 0
        self.spec = gymnasium.envs.registration.EnvSpec('W-v0', entry_point=Env, max_episode_steps=50, reward_threshold=None)

    def reset(self, **kw):
        self.ep += 1
        self.k = 0
        return self.obs(), {}

    def obs(self):
        return 100 * self.ep + self.k

    def step(self, a):
        s = self.obs()
        self.k += 1
        end = self.k >= self.lengths[self.ep % len(self.lengths)]
        r = float(self.k)
        self.log.append((s, int(a), r, end))
        return self.obs(), r, end and self.how != 'truncated', end and self.how != 'done', {}


class W(coax.Worker):
    x = 0

    def get_state(self):
        return {'x': self.x, 'arr': np.full(2, self.x)}

    def set_state(self, state):
        equal(state['arr'], np.full(2, state['x']), 'shared state')
        self.x = state['x']

    def trace(self, s, a, r, done, logp=0., w=1.):
        self.traced.append((int(s), int(a), float(r), bool(done), float(logp)))
        self.tracer.add(s, a, r, done, logp)
        while self.tracer:
            tb = self.tracer.pop()
            self.buffer_add(tb, np.array([1. + int(s) % 3]))

    def learn(self, tb):
        self.learned.append(sorted(int(s) for s in np.ravel(tb.S)))
        self.x += 1
        if self.env_T_per_learn:
            self.push_setattr('env.T', self.pull_getattr('env.T') + self.env_T_per_learn)
        return {'loss': float(len(self.learned))}


def policy(s, return_logp=False):
    a = int(s) % 5
    return (a, -float(a)) if return_logp else a


op = st.one_of(
    st.tuples(st.sampled_from(['add', 'add', 'sample', 'len', 'pull', 'push', 'metrics', 'getmetrics', 'get', 'set', 'rollout', 'bump', 'update', 'wait']), st.integers(0, 2), st.integers(0, 500)))
loop = st.tuples(st.sampled_from(['rloop', 'lloop', 'rloop_thr']), st.integers(1, 2), st.integers(1, 60))
case = lambda: st.fixed_dictionaries(dict(buffer=st.sampled_from(['simple', 'prioritized']), via=st.lists(st.sampled_from(['direct', 'actor']), min_size=2, max_size=2), how=st.sampled_from(['done', 'truncated', 'both']),
                                          lengths=st.lists(st.integers(1, 7), min_size=1, max_size=4), warmup=st.one_of(st.none(), st.integers(0, 6)), env=st.sampled_from(['env', 'fn']),
                                          ops=st.lists(st.one_of(op, op, op, loop), min_size=1, max_size=15)))


def single(u):
    from coax.reward_tracing import TransitionBatch
    return TransitionBatch.from_single(s=u, a=1, logp=-1., r=.5, done=False, gamma=.9, s_next=u + 1, a_next=1, logp_next=-1.)


def check(c):
    mk = lambda: Env(c['lengths'], c['how'])
    kw = dict(random_seed=7)
    buf = coax.experience_replay.SimpleReplayBuffer(1000, **kw) if c['buffer'] == 'simple' else coax.experience_replay.PrioritizedReplayBuffer(1000, alpha=1., beta=1., **kw)
    store = W(mk() if c['env'] == 'env' else mk, buffer=buf, buffer_warmup=c['warmup'], name='store')
    ws = [store]
    for i, via in enumerate(c['via']):
        ws.append(W(mk() if c['env'] == 'env' else mk, param_store=store if via == 'direct' else Handle(store), pi=policy, tracer=coax.reward_tracing.NStep(1, gamma=.9),
                    buffer_warmup=c['warmup'], name=f'w{i}'))
    for w in ws:
        w.traced, w.learned, w.env_T_per_learn = [], [], 0
        require(isinstance(w.env, coax.wrappers.TrainMonitor) and isinstance(w.env.env, Env), f'the environment of a worker is {w.env!r}')
    X_, T_store, metrics, held, uid, remote, mark = [0, 0, 0], 0, {}, [], 1000, 0, 0

    def base_log(w):
        return w.env.env.log

    def traces(w, since, what):
        got, log = w.traced[since:], base_log(w)[since:]
        exp = [(s, a, r, d, -float(a)) for s, a, r, d in log]
        require(got == exp, f'{what}: traced transitions {got}, expected {exp}')
        require(all(a == s % 5 for s, a, *_ in got), f'{what}: actions do not come from the policy')
        held.extend(s for s, *_ in exp)

    def fill(n):
        nonlocal uid
        while len(held) < n:
            store.buffer_add(single(uid), np.array([1.]))
            held.append(uid)
            uid += 1

    for k, (o, i, n) in enumerate(c['ops']):
        w, what = ws[i], f'op {k} {o} on {["the store", "worker 1", "worker 2"][i]}'
        remote += i > 0
        if o == 'add':
            w.buffer_add(single(uid), np.array([1. + n]))
            held.append(uid)
            uid += 1
        elif o == 'len':
            require(w.buffer_len() == len(held), f'{what}: {w.buffer_len()}, expected {len(held)}')
        elif o in ('sample', 'wait'):
            b = 1 + n % 4
            need = max(c['warmup'] or 0, b)
            waits = []
            if len(held) < need:
                if o == 'sample':
                    fill(need)
                else:
                    real, late = time.sleep, [0]

                    def sleep(t):
                        waits.append(t)
                        late[0] += 1
                        require(late[0] < 100, f'{what}: waits forever although the buffer holds {len(held)} >= {need} transitions')
                        fill(len(held) + (late[0] % 2))
                    time.sleep = sleep
                    try:
                        tb = w.buffer_sample(b)
                    finally:
                        time.sleep = real
                    require(len(held) == need, f'{what}: sampled with {len(held)} transitions, needed {need}')
            if not waits:
                tb = w.buffer_sample(batch_size=b)
            got = [int(s) for s in np.ravel(tb.S)]
            require(len(got) == b and set(got) <= set(held), f'{what}: sampled {got}, the store holds {held}')
        elif o == 'update' and c['buffer'] == 'prioritized' and len(held) >= 2:
            tb = w.buffer_sample(batch_size=max(1, min(2, len(held)))) if len(held) >= max(c['warmup'] or 0, 2) else None
            if tb is not None:
                # all but the first sampled transition become (practically) impossible to sample
                ids = np.array([t.idx for t in store.buffer]).ravel()
                adv = np.where(ids == tb.idx[0], 1000., 0.)
                w.buffer_update(ids, adv)
                s = set(int(z) for z in np.ravel(w.buffer_sample(batch_size=max(2, 1)).S))
                require(len(s & {int(np.ravel(tb.S)[0])}) == 1, f'{what}: the new priorities are not used')
        elif o == 'pull':
            if i == 0:
                raises(AssertionError, w.pull_state, f'{what}: pull_state of the store itself')
            else:
                w.pull_state()
                X_[i] = X_[0]
        elif o == 'push':
            if i == 0:
                raises(AssertionError, w.push_state, f'{what}: push_state of the store itself')
            else:
                w.push_state()
                X_[0] = X_[i]
        elif o == 'bump':
            w.x = X_[i] = n
        elif o == 'metrics':
            w.push_metrics({'m': float(n), f'm{i}': 1.})
            for key, v in (('m', float(n)), (f'm{i}', 1.)):
                metrics.setdefault(key, []).append(v)
        elif o == 'getmetrics':
            got = w.pull_metrics()
            require(set(got) == set(metrics), f'{what}: {got}, expected {metrics}')
            for key, v in metrics.items():
                close(got[key], np.mean(v), f'{what}: {key}', rtol=1e-5)
            got['junk'] = 1.
        elif o == 'get':
            require(w.pull_getattr('env.T') == T_store, f'{what}: env.T of the store')
            require(w.pull_getattr('x') == X_[0] and w.pull_getattr('x', 5) == X_[0], f'{what}: attribute of the store')
            require(w.pull_getattr('env.no_such_attribute', n) == n and w.pull_getattr('nope', None) is None, f'{what}: default value')
            raises(AttributeError, lambda: w.pull_getattr('nope'), f'{what}: missing attribute')
            require(w.pull_getattr('env.env.mark') == mark and w.pull_getattr('env.env.mark', 7) == mark, f'{what}: env.env.mark of the store')
            require(w.pull_getattr('env.env.nothing', n) == n, f'{what}: default value')
        elif o == 'set':
            if n % 4 == 3:
                w.push_setattr('env.env.mark', n)
                mark = n
                require([v.env.env.mark for v in ws] == [mark, 0, 0] and not any('mark' in vars(v) or 'mark' in vars(v.env) for v in ws), f'{what}: env.env.mark was not set in the environment of the store only')
            elif n % 2:
                w.push_setattr('env.T', n)
                T_store = n
            else:
                w.push_setattr('x', n)
                X_[0] = n
        elif o == 'rollout':
            if i == 0:
                raises(AssertionError, w.rollout, f'{what}: rollout without a policy')
            else:
                since, ep = len(w.traced), w.env.env.ep
                w.rollout()
                traces(w, since, what)
                require(w.env.env.ep == ep + 1 and w.traced[-1][3] and not any(t[3] for t in w.traced[since:-1]), f'{what}: a rollout is one complete episode')
        elif o in ('rloop', 'rloop_thr'):
            since, ep = len(w.traced), w.env.env.ep
            kw, thr = {}, float('inf')
            if o == 'rloop_thr':
                thr = n / 4
                kw['reward_threshold'] = thr
            limit = T_store + n
            avg0 = w.env.avg_G
            w.rollout_loop(limit, **kw)
            eps = w.env.env.ep - ep
            lens = [c['lengths'][(ep + 1 + j) % len(c['lengths'])] for j in range(eps)]
            traces(w, since, what)
            require(len(w.traced) - since == sum(lens), f'{what}: rolled out incomplete episodes')
            T_store += sum(lens)
            if eps:
                X_[i] = X_[0]
            if o == 'rloop':
                require(T_store >= limit and (eps == 0 or T_store - lens[-1] < limit), f'{what}: stopped at {T_store} steps in total, the maximum is {limit} (last episode: {lens[-1:]})')
            else:
                require(T_store >= limit or w.env.avg_G >= thr, f'{what}: stopped with {T_store} < {limit} steps and average return {w.env.avg_G} < {thr}')
                require(eps > 0 or avg0 >= thr, f'{what}: no episode although the average return {avg0} < {thr}')
        elif o == 'lloop':
            fill(max(c['warmup'] or 0, 3))
            w.env_T_per_learn = per = 1 + n % 5
            limit = T_store + n
            since = len(w.learned)
            w.learn_loop(limit, batch_size=3)
            w.env_T_per_learn = 0
            cnt = -(-n // per)
            require(len(w.learned) - since == cnt, f'{what}: {len(w.learned) - since} updates, expected {cnt}')
            require(all(len(b) == 3 and set(b) <= set(held) for b in w.learned[since:]), f'{what}: batches that do not come from the store')
            T_store += cnt * per
            X_[0] += cnt      # every update starts from the state of the store and is pushed back
            X_[i] = X_[0]
            for j in range(cnt):
                metrics.setdefault('loss', []).append(float(since + j + 1))
            got = store.env.get_metrics()
            require('throughput/learn_loop' in got, f'{what}: metrics {got}')
            metrics['throughput/learn_loop'] = [got['throughput/learn_loop']]
            store.env.record_metrics({})
        require([v.x for v in ws] == X_, f'{what}: states {[v.x for v in ws]}, expected {X_}')
        require(store.env.T == T_store, f'{what}: env.T of the store is {store.env.T}, expected {T_store}')
        require(len(store.buffer) == len(held), f'{what}: the buffer of the store holds {len(store.buffer)} transitions, expected {len(held)}')
        require(sorted(int(np.ravel(t.S)[0]) for t in store.buffer) == sorted(held), f'{what}: contents of the buffer of the store')
    return len(c['ops']) >= 3 and remote > 0


# ---- waiting for the buffer ------------------------------------------------------------------------------------------------
def store_and_workers(buffer, via, lengths, how, warmup, pi, threshold=None, steps=50):
    def mk():
        e = Env(lengths, how)
        e.spec = gymnasium.envs.registration.EnvSpec('W-v0', entry_point=Env, max_episode_steps=steps, reward_threshold=threshold)
        return e
    buf = coax.experience_replay.SimpleReplayBuffer(1000, random_seed=7) if buffer == 'simple' else coax.experience_replay.PrioritizedReplayBuffer(1000, alpha=1., beta=1., random_seed=7)
    store = W(mk(), buffer=buf, buffer_warmup=warmup, name='store')
    ws = [store] + [W(mk(), param_store=store if v == 'direct' else Handle(store), pi=pi, tracer=coax.reward_tracing.NStep(1, gamma=.9), buffer_warmup=warmup, name=f'w{i}') for i, v in enumerate(via)]
    for w in ws:
        w.traced, w.learned, w.env_T_per_learn = [], [], 0
    return ws


wait_case = lambda: st.fixed_dictionaries(dict(buffer=st.sampled_from(['simple', 'prioritized']), via=st.sampled_from(['store', 'direct', 'actor']), warmup=st.one_of(st.none(), st.integers(0, 20)),
                                               batch=st.integers(1, 20), held=st.integers(0, 20), steps=st.lists(st.integers(0, 5), min_size=1, max_size=6)))


def check_wait(c):
    from coax.reward_tracing import TransitionBatch
    ws = store_and_workers(c['buffer'], ['direct' if c['via'] == 'store' else c['via']], [3], 'done', c['warmup'], policy)
    store, w = ws[0], ws[0 if c['via'] == 'store' else 1]
    n = 0

    def fill(k):
        nonlocal n
        for _ in range(k):
            store.buffer_add(TransitionBatch.from_single(s=n, a=1, logp=-1., r=.5, done=False, gamma=.9, s_next=n + 1, a_next=1, logp_next=-1.), np.array([1.]))
            n += 1
    fill(c['held'])
    need = max(c['warmup'] or 0, c['batch'])
    real, seen = time.sleep, []

    def sleep(t):
        require(n < need, f'waits although the buffer holds {n} transitions (warmup {c["warmup"]}, batch_size {c["batch"]})')
        require(0 <= t < 60 and len(seen) < 500, f'waits for {t} s')
        seen.append(n)
        fill(c['steps'][len(seen) % len(c['steps'])] if len(seen) < 30 else 1)
    time.sleep = sleep
    try:
        tb = w.buffer_sample(batch_size=c['batch'])
    finally:
        time.sleep = real
    require(n >= need, f'sampled when the buffer held {n} transitions (warmup {c["warmup"]}, batch_size {c["batch"]})')
    got = [int(s) for s in np.ravel(tb.S)]
    require(len(got) == c['batch'] and all(0 <= s < n for s in got), f'sampled {got} from {n} transitions')
    return bool(seen)


# ---- several workers, reward thresholds --------------------------------------------------------------------------------------
loops_case = lambda: st.fixed_dictionaries(dict(via=st.lists(st.sampled_from(['direct', 'actor']), min_size=2, max_size=2), length=st.integers(1, 6), how=st.sampled_from(['done', 'truncated', 'both']),
                                                thr=st.sampled_from([None, 'spec', 'arg', 'both']), off=st.sampled_from([-1., -.5, 0., .5, 1., None]), push=st.lists(st.integers(0, 9), min_size=1, max_size=5),
                                                start=st.integers(0, 20), limit=st.integers(0, 60), mode=st.sampled_from(['interleaved', 'threshold'])))


def check_loops(c):
    """worker 1 runs a rollout loop; meanwhile the other worker (played by the policy) counts its steps and changes the shared state"""
    acts, other = [0], [0]

    def pi(s, return_logp=False):
        if c['mode'] == 'interleaved':
            d = c['push'][acts[0] % len(c['push'])]
            acts[0] += 1
            if d > 5:
                ws[2].push_setattr('env.T', ws[2].pull_getattr('env.T') + d)
                other[0] += d
                ws[2].x += 1
                ws[2].push_state()
        return policy(s, return_logp)
    G = float(sum(range(1, c['length'] + 1)))      # return of every episode
    thr = 1e9 if c['mode'] != 'threshold' else 0. if c['off'] is None else G + c['off']
    ws = store_and_workers('simple', c['via'], [c['length']], c['how'], None, pi, threshold=dict(spec=thr, both=thr + 7.).get(c['thr']))
    store, w = ws[0], ws[1]
    store.push_setattr('env.T', c['start'])
    ws[2].x = 100
    limit = c['start'] + c['limit']
    seen, roll = [], w.rollout

    def rollout():
        seen.append((store.env.T, w.x, store.x))
        roll()
    w.rollout = rollout
    kw = dict(reward_threshold=thr) if c['thr'] in ('arg', 'both') else {}
    if c['thr'] is None:
        thr = float('inf')
    w.rollout_loop(limit, **kw)
    steps, eps = len(w.traced), w.env.env.ep + 1
    require(steps == eps * c['length'], f'{eps} episodes of {c["length"]} steps: {steps} traced steps')
    require(store.env.T == c['start'] + steps + other[0], f'the workers made {steps} and {other[0]} steps after {c["start"]}, the store counts {store.env.T}')
    for T, x, x0 in seen:
        require(T < limit, f'an episode was started at {T} steps, the maximum is {limit}')
        require(x == x0, f'an episode was started with the state {x}, the store has {x0}')
    require(eps == 0 or thr > 0., f'{eps} episodes although the threshold {thr} was reached at the start')
    require(eps <= 1 or thr > G, f'{eps} episodes although the average return is {G}, the threshold {thr}')
    require(store.env.T >= limit or (eps >= 1 and G >= thr) or (eps == 0 and 0. >= thr), f'stopped after {eps} episodes at {store.env.T} steps (limit {limit}), average return {G} (threshold {thr})')
    return eps > 1 or (c['mode'] == 'threshold' and c['limit'] > c['length'])


# ---- a learner whose store is changed by others between its updates; long episodes ----------------------------------------------
learn_case = lambda: st.fixed_dictionaries(dict(via=st.lists(st.sampled_from(['direct', 'actor']), min_size=2, max_size=2), push=st.lists(st.integers(0, 9), min_size=1, max_size=5),
                                                limit=st.integers(1, 60), batch=st.integers(1, 8)))


def check_learn(c):
    ws = store_and_workers('simple', c['via'], [3], 'done', None, policy)
    store, w, o = ws
    for u in range(10):
        store.buffer_add(single(u), np.array([1.]))
    o.x = 100
    calls, get, learn = [0], w.pull_getattr, w.learn
    seen = []

    def pull_getattr(name, *args, **kw):
        # before the step count is read, the other worker may move on
        d = c['push'][calls[0] % len(c['push'])]
        calls[0] += 1
        if d > 3 and name == 'env.T':
            o.push_setattr('env.T', o.pull_getattr('env.T') + d)
            o.x += 7
            o.push_state()
        return get(name, *args, **kw)

    def learn2(tb):
        seen.append((w.x, store.x, store.env.T, tb.batch_size))
        if len(seen) > 30:
            store.env.T += 10
        return learn(tb)
    w.pull_getattr, w.learn = pull_getattr, learn2
    w.learn_loop(c['limit'], batch_size=c['batch'])
    for k, (x, x0, T, b) in enumerate(seen):
        require(x == x0, f'update {k} started from the state {x}, the store had {x0}')
        require(T < c['limit'], f'update {k} was made at {T} steps, the maximum is {c["limit"]}')
        require(b == c['batch'], f'update {k} got a batch of {b}, expected {c["batch"]}')
    require(store.env.T >= c['limit'], f'stopped at {store.env.T} steps, the maximum is {c["limit"]}')
    require(not seen or w.x == store.x or o.x == store.x, 'the last state was not pushed')
    return len(seen) > 1


long_case = lambda: st.fixed_dictionaries(dict(length=st.integers(900, 2500), extra=st.sampled_from([0, 1, 500]), how=st.sampled_from(['done', 'truncated'])))


def check_long(c):
    w = store_and_workers('simple', ['direct'], [c['length']], c['how'], None, policy, steps=c['length'] + c['extra'])[1]
    w.rollout()
    require(len(w.traced) == c['length'] and w.traced[-1][3] and not any(t[3] for t in w.traced[:-1]), f'a rollout of an episode of {c["length"]} steps traced {len(w.traced)} steps')
    return True


env_case = lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(['nospec', 'nolimit', 'int', 'monitor', 'str', 'cls', 'env'])))


def check_env(c):
    k = c['kind']
    e = Env([1], 'done')
    if k == 'nospec':
        e.spec = None
        raises(ValueError, lambda: W(e), 'environment without spec')
    elif k == 'nolimit':
        e.spec = gymnasium.envs.registration.EnvSpec('W-v0', entry_point=Env)
        raises(ValueError, lambda: W(e), 'environment without max_episode_steps')
    elif k == 'int':
        raises(TypeError, lambda: W(3), 'environment given as an int')
    elif k == 'monitor':
        m = coax.wrappers.TrainMonitor(e)
        require(W(m).env is m, 'an environment that has a TrainMonitor is wrapped again')
    elif k == 'str':
        require(W('FrozenLake-v1').env.spec.id == 'FrozenLake-v1', 'environment given by its name')
    elif k == 'cls':
        require(W(lambda: e).env.env is e, 'environment given as a function')
    else:
        require(W(e).env.env is e and isinstance(W(e).env, coax.wrappers.TrainMonitor), 'environment')
    return True


SUBS = [Sub('history', case, check, quick=600, thorough=20000, budget=50, setup=setup), Sub('wait', wait_case, check_wait, quick=150, thorough=8000, budget=20, setup=setup, split=strata(via=['store', 'direct', 'actor'])),
        Sub('loops', loops_case, check_loops, quick=200, thorough=8000, budget=20, setup=setup, split=strata(mode=['interleaved', 'threshold'], thr=[None, 'spec', 'arg', 'both'])),
        Sub('learn', learn_case, check_learn, quick=100, thorough=4000, budget=15, setup=setup), Sub('long', long_case, check_long, quick=6, thorough=200, budget=15, setup=setup), Sub('env', env_case, check_env, quick=20, thorough=20, budget=20, setup=setup)]
