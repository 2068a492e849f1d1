from hypothesis import strategies as st
from lib.pbt import Sub, require, close, raises, strata
import collections
import logging
import os
import shutil
import tempfile
import gymnasium
import numpy as np
import coax
from coax.wrappers import TrainMonitor

RULE = ('Cases: (smoothing, tensorboard settings, history of resets, steps, recorded metrics, periodic triggers, counter snapshots, restores, checkpoint files and '
        'pickling). Non-trivial: at least one episode ends and a restore, metric or trigger occurs in the history.')
ASSUMPTIONS = ['the file writer of tensorboardX is replaced by one that keeps the events in memory; wall-clock durations are only required to be finite and nonnegative']
LOG = logging.getLogger('TrainMonitor')
LOG.propagate = False


class Script(gymnasium.Env):
    """an environment that returns what it is told to return"""
    observation_space = gymnasium.spaces.Discrete(1000)

    def __init__(self, discrete):
        self.action_space = gymnasium.spaces.Discrete(4) if discrete else gymnasium.spaces.Box(-5, 5, (2,), 'float32')
        self.count, self.calls, self.next = 0, [], None

    def reset(self, **kwargs):
        self.count += 1
        self.calls.append(('reset', kwargs))
        return self.count, {'n': self.count}

    def step(self, a):
        self.count += 1
        self.calls.append(('step', a))
        r, done, truncated, info = self.next
        return self.count, r, done, truncated, None if info is None else dict(info)


RECORDS = collections.defaultdict(list)
BUCKETS = {}      # non-empty bars of the histograms


def synchronous_tensorboard():
    """Let the event-file writer of tensorboardX keep the events in memory: its own writer thread cannot be waited for."""
    from tensorboardX import event_file_writer
    w = event_file_writer.EventFileWriter

    def init(self, logdir, *args, **kwargs):
        self._logdir = logdir

    def add(self, ev):
        for v in ev.summary.value:
            if v.HasField('simple_value'):
                RECORDS[self._logdir].append((v.tag, int(ev.step), float(v.simple_value)))
            elif v.HasField('histo'):
                RECORDS[self._logdir].append((v.tag, int(ev.step), [float(v.histo.num), float(v.histo.sum), float(v.histo.min), float(v.histo.max)]))
                BUCKETS[v.tag, int(ev.step)] = [x for x in v.histo.bucket if x]
    w.__init__, w.add_event, w.get_logdir = init, add, lambda self: self._logdir
    w.flush = w.close = w.reopen = lambda self: None


NAMES = ['a/loss', 'x', 'throughput/y', 'pi/entropy']
fl = st.floats(-100, 100, width=32)
# one fixed period per trigger name
PERIODS = [('p', 'T', 3), ('q', 'T', 1), ('r', 'T', 10), ('p', 'ep', 2), ('s', 'ep', 1), ('t', 'ep', 5), ('u', 'T', 7.0), ('w', 'T', 100)]


@st.composite
def one(draw):
    o = draw(st.sampled_from(['step'] * 10 + ['many'] + ['reset'] * 4 + ['metrics'] * 4 + ['period'] * 4 + ['get', 'set', 'save', 'load', 'pickle', 'global', 'bad', 'get', 'set']))
    if o == 'step':
        return [o, draw(fl), draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3])), draw(st.integers(0, 3)), draw(st.integers(0, 3))]
    if o == 'many':      # a number of whole episodes
        return [o, draw(st.sampled_from([2, 3, 12, 25])), draw(st.sampled_from([1, 2, 5, 60])), draw(fl)]
    if o == 'reset':
        return [o, draw(st.integers(0, 2))]
    if o == 'metrics':
        return [o, [[n, draw(fl)] for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=3))], draw(st.integers(0, 2))]
    return [o, draw(st.integers(0, 20))]


case = lambda: st.fixed_dictionaries(dict(
    smoothing=st.sampled_from([None, 1, 2, 3, 10]), tb=st.sampled_from([0, 0, 0, 1, 2]), all=st.booleans(), discrete=st.booleans(), log_all=st.booleans(),
    ops=st.lists(one(), max_size=60)))
case_tb = lambda: st.fixed_dictionaries(dict(
    smoothing=st.sampled_from([None, 2]), tb=st.sampled_from([1, 2]), all=st.booleans(), discrete=st.booleans(), log_all=st.booleans(),
    ops=st.lists(one(), min_size=5, max_size=40)))


# long stretches of steps between the calls of a trigger, and several calls in a row
case_period = lambda: st.fixed_dictionaries(dict(name=st.integers(0, len(PERIODS) - 1), ops=st.lists(st.tuples(
    st.integers(0, 4), st.one_of(st.integers(0, 12), st.integers(0, 150)), st.integers(1, 6), st.sampled_from(['', '', '', 'pickle', 'save', 'restore', 'global'])), min_size=1, max_size=12)))


def check_period(c):
    env = TrainMonitor(Script(True), level=50)
    name, kind, n = PERIODS[c['name']]
    T = ep = fired = skipped = 0
    saved = None
    for k, (resets, steps, calls, extra) in enumerate(c['ops']):
        for _ in range(resets):
            env.reset()
        for _ in range(steps):
            env.env.next = (0., False, False, {})
            env.step(1)
        T, ep = T + resets + steps, ep + resets
        if extra == 'pickle':
            env = coax.utils.loads(coax.utils.dumps(env))
        elif extra == 'save':
            saved = env.get_counters(), (T, ep, fired)
        elif extra == 'restore' and saved:
            env.set_counters(saved[0])
            T, ep, fired = saved[1]
        elif extra == 'global':
            env.reset_global()
            T = ep = fired = 0
        reached = (T if kind == 'T' else ep) // int(n)
        skipped += reached - fired > 1
        for j in range(calls):
            got = bool(env.period(name, **{f'{kind}_period': n}))
            require(got == (fired < reached), f'group {k}, call {j}: period({name!r}, {kind}_period={n}) is {got} with T={T}, ep={ep} after firing {fired} times')
            fired += got
    return skipped > 0


# a trigger with a step period and an episode period: one firing per multiple of either
case_both = lambda: st.fixed_dictionaries(dict(T=st.integers(1, 12), ep=st.integers(1, 5), ops=st.lists(st.tuples(
    st.integers(0, 4), st.integers(0, 12), st.sampled_from(['', '', 'pickle', 'save', 'restore', 'global'])), min_size=1, max_size=12)))


def check_both(c):
    env = TrainMonitor(Script(True), level=50)
    T = ep = fired = mixed = 0
    saved = None
    for k, (resets, steps, extra) in enumerate(c['ops']):
        for _ in range(resets):
            env.reset()
        for _ in range(steps):
            env.env.next = (0., False, False, {})
            env.step(1)
        T, ep = T + resets + steps, ep + resets
        if extra == 'pickle':
            env = coax.utils.loads(coax.utils.dumps(env))
        elif extra == 'save':
            saved = env.get_counters(), (T, ep, fired)
        elif extra == 'restore' and saved:
            env.set_counters(saved[0])
            T, ep, fired = saved[1]
        elif extra == 'global':
            env.reset_global()
            T = ep = fired = 0
        reached = T // c['T'] + ep // c['ep']
        mixed += T // c['T'] > 0 and ep // c['ep'] > 0 and reached > fired
        while fired < reached:
            require(env.period('both', T_period=c['T'], ep_period=c['ep']), f'group {k}: no trigger with T={T} (period {c["T"]}), ep={ep} (period {c["ep"]}) after firing {fired} times')
            fired += 1
        require(not env.period('both', T_period=c['T'], ep_period=c['ep']), f'group {k}: one trigger too many with T={T} (period {c["T"]}), ep={ep} (period {c["ep"]}) after firing {fired} times')
    return mixed > 0


class Model:
    def __init__(self, smoothing):
        self.smoothing, self.dir = smoothing, None
        self.zero()

    def zero(self):
        self.T = self.ep = self.t = 0
        self.G = self.avg = 0.
        self.n = 0
        self.m, self.acts, self.fired = {}, [], {}

    KEYS = ('T', 'ep', 't', 'G', 'avg', 'n', 'm', 'acts', 'fired', 'dir')

    def snap(self):
        import copy
        return {k: copy.deepcopy(getattr(self, k)) for k in self.KEYS}

    def restore(self, s):
        import copy
        for k, v in copy.deepcopy(s).items():
            setattr(self, k, v)


def check(c):
    scratch = tempfile.mkdtemp(prefix='p28_')
    try:
        return _check(c, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Grab(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def _check(c, scratch):
    grab = Grab()
    LOG.handlers = [grab]
    expected = collections.defaultdict(list)      # tensorboard directory -> scalars
    RECORDS.clear()

    def make(k):
        kw = {} if c['smoothing'] is None else dict(smoothing=c['smoothing'])
        d = None
        if c['tb'] and k < c['tb']:
            d = os.path.join(scratch, f'tb{k}')
            kw['tensorboard_dir'] = d
        e = TrainMonitor(Script(c['discrete']), tensorboard_write_all=c['all'], log_all_metrics=c['log_all'], **kw)
        m = Model(10 if c['smoothing'] is None else c['smoothing'])
        m.dir = d
        return e, m

    pair = [make(0), make(1)]      # two independent monitors; counters may be exchanged
    cur = 0
    snaps, saves, given, ended, other = [], [], [], 0, 0

    ops = []
    for o in c['ops']:
        if o[0] == 'many':
            for j in range(o[1]):
                ops += [['reset', 0]] + [['step', o[3] + i + 3 * j, (1 + j % 3) * (i == o[2] - 1), i % 3, i % 4] for i in range(o[2])]
        else:
            ops.append(o)
    for k, o in enumerate(ops):
        env, m = pair[cur]
        what = f'op {k} {o}'
        if o[0] == 'step':
            _, r, flag, ik, a = o
            done, trunc = bool(flag & 1), bool(flag & 2)
            act = a if c['discrete'] else np.array([a, -a], 'float32')
            info0 = [None, {}, {'x': k}, {'y': k, 'monitor': {'T': -1, 'ep': -1}}][ik]      # the last one: an environment that keeps using one info dict
            base = env.env
            base.next = (r, done, trunc, info0)
            s, r_, d_, t_, info = env.step(act)
            require(s == base.count and r_ == r and d_ == done and t_ == trunc, f'{what}: the transition of the environment was changed: {(s, r_, d_, t_)}')
            require(base.calls[-1][0] == 'step' and base.calls[-1][1] is act, f'{what}: the environment received {base.calls[-1]}')
            exp = dict(info0 or {}, monitor={'T': m.T, 'ep': m.ep})
            require(info == exp, f'{what}: info is {info}, expected {exp}')
            m.t, m.T, m.G = m.t + 1, m.T + 1, m.G + r
            m.acts.append(act)
            if done or trunc:
                m.n = min(m.smoothing, m.n + 1)
                m.avg += (m.G - m.avg) / m.n
                ended += 1
        elif o[0] == 'reset':
            kw = [{}, {'seed': 7}, {'seed': k, 'options': {'a': 1}}][o[1]]
            if m.ep:
                # a log line, and the tensorboard summary of the episode that is now over
                if m.dir:
                    avg_r = m.G / m.t if m.t else float('nan')
                    ex = [('episode/episode', m.T, m.ep), ('episode/avg_reward', m.T, avg_r), ('episode/return', m.T, m.G), ('episode/steps', m.T, m.t)]
                    if not c['all']:
                        ex += [(n, m.T, s / q) for n, (s, q) in m.m.items()]
                    if m.acts:
                        v = np.array(m.acts, float)
                        ex += [('actions', m.T, [float(v.size), float(v.sum()), float(v.min()), float(v.max())])]
                    expected[m.dir] += ex
            before = len(grab.lines)
            s, info = env.reset(**kw)
            base = env.env
            require(base.calls[-1] == ('reset', kw), f'{what}: the environment received {base.calls[-1]}, expected reset with {kw}')
            require(s == base.count and info == {'n': base.count}, f'{what}: reset returned {(s, info)}')
            require((len(grab.lines) - before) == (1 if m.ep else 0), f'{what}: {len(grab.lines) - before} log lines were written')
            if m.ep and c['log_all']:
                for n in m.m:
                    require(n in grab.lines[-1], f'{what}: metric {n} is missing from the log line {grab.lines[-1]!r}')
            if m.ep:
                require(f'{m.ep:d}' in grab.lines[-1] and f'{m.t:d}' in grab.lines[-1], f'{what}: log line {grab.lines[-1]!r} lacks the episode number or length')
            m.T, m.ep, m.t, m.G, m.m, m.acts = m.T + 1, m.ep + 1, 0, 0., {}, []
        elif o[0] == 'metrics':
            d = {n: (v, np.float32(v), np.array(v, 'float32'))[o[2]] for n, v in o[1]}
            env.record_metrics(d)
            given.append((d, dict(o[1])))
            if m.dir and c['all']:
                expected[m.dir] += [(n, m.T, v) for n, v in o[1]]
            for n, v in o[1]:
                s, q = m.m.get(n, (0., 0))
                m.m[n] = s + v, q + 1
            other += 1
        elif o[0] == 'period':
            name, kind, n = PERIODS[o[1] % len(PERIODS)]
            got = env.period(name, **{f'{kind}_period': n})
            reached = (m.T if kind == 'T' else m.ep) // int(n)
            exp = m.fired.get((name, kind), 0) < reached
            require(bool(got) == exp, f'{what}: period({name!r}, {kind}_period={n}) is {got} with T={m.T}, ep={m.ep} after firing {m.fired.get((name, kind), 0)} times')
            m.fired[name, kind] = m.fired.get((name, kind), 0) + exp
            other += 1
        elif o[0] == 'get':
            snaps.append((env.get_counters(), m.snap()))
        elif o[0] == 'set' and snaps:
            cur = o[1] % 2          # restore in either monitor
            env, m = pair[cur]
            d, s = snaps[o[1] % len(snaps)]
            env.set_counters(d)
            m.restore(s)
            other += 1
        elif o[0] == 'save':
            f = os.path.join(scratch, 'ck', str(o[1] % 2), 'counters.pkl.lz4')
            env.save_counters(f)
            saves = [x for x in saves if x[0] != f] + [(f, m.snap())]
        elif o[0] == 'load' and saves:
            cur = o[1] % 2
            env, m = pair[cur]
            f, s = saves[o[1] % len(saves)]
            env.load_counters(f)
            m.restore(s)
            other += 1
        elif o[0] == 'pickle':
            new = coax.utils.loads(coax.utils.dumps(env))
            require(new is not env and type(new) is type(env), f'{what}: unpickled {new!r}')
            pair[cur] = (new, m)
            other += 1
        elif o[0] == 'global':
            env.reset_global()
            m.zero()
        elif o[0] == 'bad':
            raises(TypeError, lambda: env.record_metrics([('a', 1.)]), f'{what}: record_metrics(list)')
            raises(TypeError, lambda: env.set_counters({}), f'{what}: set_counters of an empty dict')
            raises(TypeError, lambda: env.set_counters([1]), f'{what}: set_counters of a list')
        for w, (env, m) in enumerate(pair):
            tag = f'{what}, monitor {w}'
            require((env.T, env.ep, env.t) == (m.T, m.ep, m.t), f'{tag}: T, ep, t are {(env.T, env.ep, env.t)}, expected {(m.T, m.ep, m.t)}')
            for d, v in given:
                require(set(d) == set(v) and all(float(d[n]) == v[n] for n in v), f'{tag}: the recorded metrics {v} are now {d}')
            close(env.G, m.G, f'{tag}: G', 1e-5, 1e-3)
            close(env.avg_G, m.avg, f'{tag}: avg_G', 1e-5, 1e-3)
            close(env.avg_r, m.G / m.t if m.t else np.nan, f'{tag}: avg_r', 1e-5, 1e-3)
            dt = env.dt_ms
            require(np.isnan(dt) if not m.t else (np.isfinite(dt) and dt >= 0), f'{tag}: dt_ms is {dt} with t={m.t}')
            got = env.get_metrics()
            require(set(got) == set(m.m), f'{tag}: metrics {sorted(got)}, expected {sorted(m.m)}')
            for n, (s, q) in m.m.items():
                close(got[n], s / q, f'{tag}: average of metric {n}', 1e-5, 1e-3)

    if c['tb']:
        for k in range(2):
            d = os.path.join(scratch, f'tb{k}')
            got = sorted((e for dd, es in RECORDS.items() if dd == d or dd.startswith(d + os.sep) for e in es if not e[0].endswith('avg_step_duration_ms')), key=lambda e: (e[1], e[0]))
            exp = sorted(expected[d], key=lambda e: (e[1], e[0]))
            gk, ek = collections.Counter((t, s) for t, s, _ in got), collections.Counter((t, s) for t, s, _ in exp)
            require(gk == ek, f'tensorboard dir {k}: missing (tag, step) {list((ek - gk).elements())[:6]}, unexpected {list((gk - ek).elements())[:6]}')
            left = collections.defaultdict(list)
            for t, s, v in exp:
                left[t, s].append(np.array(v, float))
            for t, s, v in got:
                i = [j for j, x in enumerate(left[t, s]) if x.shape == np.shape(v) and np.allclose(x, v, rtol=1e-4, atol=2e-3, equal_nan=True)]
                require(i, f'tensorboard dir {k}: {t} at step {s} is {v}, expected one of {[x.tolist() for x in left[t, s]]}')
                left[t, s].pop(i[0])
    return bool(ended and other)


# the clock is replaced by one that only advances when told to
case_clock = lambda: st.fixed_dictionaries(dict(ops=st.lists(st.tuples(st.sampled_from(['reset', 'step', 'step', 'step', 'get', 'set', 'pickle']), st.integers(0, 50)), min_size=2, max_size=25)))


def check_clock(c):
    import time
    import sys
    clocks = [time.time, time.perf_counter, time.monotonic]
    real = [(time, n, getattr(time, n)) for n in ('time', 'perf_counter', 'monotonic')]
    mod = sys.modules[TrainMonitor.__module__]      # also if the module has imported a clock by name
    real += [(mod, n, v) for n, v in vars(mod).items() if any(v is f for f in clocks)]
    now = [1e9]
    try:
        for where, n, _ in real:
            setattr(where, n, lambda: now[0])
        env = TrainMonitor(Script(True), level=50)
        start, t, snap, ok = now[0], 0, None, 0
        for o, dt in c['ops']:
            now[0] += dt / 16
            if o == 'reset':
                env.reset()
                start, t = now[0], 0
            elif o == 'step':
                env.env.next = (0., False, False, {})
                env.step(1)
                t += 1
            elif o == 'get':
                snap = env.get_counters(), (start, t)
            elif o == 'set' and snap:
                env.set_counters(snap[0])
                start, t = snap[1]
            elif o == 'pickle':
                env = coax.utils.loads(coax.utils.dumps(env))
            now[0] += dt / 32
            exp = 1000 * (now[0] - start) / t if t else np.nan
            close(env.dt_ms, exp, f'after {o}: average wall-clock time per step', 1e-4, 1e-3)
            ok += t > 1
    finally:
        for where, n, f in real:
            setattr(where, n, f)
    return ok > 0


# episodes of thousands of steps: the histogram of actions is a sample that favours no part of the episode
case_actions = lambda: st.fixed_dictionaries(dict(tmpl=st.permutations(range(4)), lens=st.lists(st.sampled_from([500, 1500, 2500, 4000]), min_size=2, max_size=3), restore=st.booleans()))


def check_actions(c):
    scratch = tempfile.mkdtemp(prefix='p28_')
    LOG.handlers = [Grab()]
    RECORDS.clear()
    try:
        env = TrainMonitor(Script(True), tensorboard_dir=scratch, level=50)
        env.reset()
        true = {}
        for n in c['lens']:
            acts = np.repeat(c['tmpl'], -(-n // 4))[:n]
            for k, a in enumerate(acts):
                env.env.next = (0., False, False, {})
                env.step(int(a))
                if c['restore'] and k == n // 2:
                    env.set_counters(env.get_counters())
            true[env.T] = acts
            env.reset()
        got = {s: v for es in RECORDS.values() for t, s, v in es if t == 'actions'}
        require(set(got) == set(true), f'histograms of actions were written at the steps {sorted(got)}, expected {sorted(true)}')
        for T, acts in true.items():
            num, tot, lo, hi = got[T]
            what = f'episode of {len(acts)} steps up to T={T}'
            require(min(len(acts), 100) <= num <= len(acts), f'{what}: the histogram has {num} actions')
            tol = 8 * acts.std() / np.sqrt(num) if num < len(acts) else 1e-6
            require(abs(tot / num - acts.mean()) <= tol, f'{what}: the {num:.0f} actions in the histogram have mean {tot / num:.4f}, those of the episode {acts.mean():.4f} (tolerance {tol:.4f})')
            require(lo == acts.min() and hi == acts.max(), f'{what}: the actions in the histogram run from {lo} to {hi}')
            require(len(BUCKETS['actions', T]) == len(set(acts)), f'{what}: {len(set(acts))} different discrete actions are shown as {BUCKETS["actions", T]}')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return max(c['lens']) > 1000


# which actions of long episodes are in the histogram: none is always or never there
case_even = lambda: st.fixed_dictionaries(dict(n=st.sampled_from([2200, 3000]), pos=st.lists(st.integers(0, 2199), min_size=2, max_size=2)))


def check_even(c):
    R, n = 60, c['n']
    watch = [0, 1, n - 1, *c['pos']]
    seen = np.zeros(len(watch))
    num = 0
    for j, p in enumerate(watch):
        scratch = tempfile.mkdtemp(prefix='p28_')
        LOG.handlers = [Grab()]
        RECORDS.clear()
        try:
            env = TrainMonitor(Script(True), tensorboard_dir=scratch, level=50)
            env.reset()
            for _ in range(R if j < 3 else R // 3):
                env.env.next = (0., False, False, {})
                for k in range(n):
                    env.step(1 if k == p else 0)
                env.reset()
            got = [v for es in RECORDS.values() for t, s, v in es if t == 'actions']
            require(len(got) == (R if j < 3 else R // 3), f'{len(got)} histograms')
            m = np.array([v[0] for v in got])
            hit = np.array([v[1] for v in got])
            require(set(hit) <= {0., 1.}, f'an action taken once in {n} steps is {hit.max():.0f} times in the histogram')
            if m.max() == n:
                continue
            q = m.mean() / n
            num += 1
            require(abs(hit.sum() - q * len(m)) < 9 * np.sqrt(len(m) * q * (1 - q)) or hit.sum() not in (0., float(len(m))),
                    f'the action at step {p} of {n} is in {hit.sum():.0f} of {len(m)} histograms of {m.mean():.0f} actions')
            require(not (len(m) == R and hit.sum() == R and q ** R < 1e-12), f'the action at step {p} of {n} is in each of {R} histograms of {m.mean():.0f} actions')
            require(not (len(m) == R and hit.sum() == 0 and (1 - q) ** R < 1e-9), f'the action at step {p} of {n} is in none of {R} histograms of {m.mean():.0f} actions')
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return num > 0



SUBS = [Sub('actions', case_actions, check_actions, quick=24, thorough=1000, budget=20, setup=synchronous_tensorboard),
        Sub('even', case_even, check_even, quick=2, thorough=30, budget=30, setup=synchronous_tensorboard),
        Sub('clock', case_clock, check_clock, quick=150, thorough=5000, budget=15),
        Sub('period', case_period, check_period, quick=200, thorough=20000, budget=15, split=strata(name=list(range(len(PERIODS))))),
        Sub('both_periods', case_both, check_both, quick=150, thorough=20000, budget=15),
        Sub('history', case, check, quick=1500, thorough=40000, budget=45, setup=synchronous_tensorboard),
        Sub('tensorboard', case_tb, check, quick=500, thorough=20000, budget=40, setup=synchronous_tensorboard)]
