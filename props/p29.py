from hypothesis import strategies as st
from lib.pbt import Sub, require, equal, raises, strata
import contextlib
import io
import numpy as np
import coax
from coax.envs import ConnectFourEnv

RULE = ('Cases: a history of moves (arbitrary, illegal, or chosen among the moves that do not win so that games last long), resets, saved and restored positions. '
        'Non-trivial: the history contains a finished game or at least 8 moves.')
ASSUMPTIONS = ['the wrapped 4-tuple step API of this environment, as its documentation describes it']
R, C = 6, 7
BAD = [7, -1, 100, 'a', None, 1.5, (1,)]


class Game:
    def __init__(self):
        self.b = np.zeros((R, C), int)   # 0 empty, +1 first mover, -1 the other
        self.turn, self.done, self.last = 1, False, None

    def copy(self):
        g = Game()
        g.b, g.turn, g.done, g.last = self.b.copy(), self.turn, self.done, self.last
        return g

    def legal(self):
        return [j for j in range(C) if self.b[0, j] == 0]

    def wins(self, i, j, who):
        for di, dj in ((0, 1), (1, 0), (1, 1), (1, -1)):
            n = 1
            for s in (1, -1):
                x, y = i + s * di, j + s * dj
                while 0 <= x < R and 0 <= y < C and self.b[x, y] == who:
                    n, x, y = n + 1, x + s * di, y + s * dj
            if n >= 4:
                return True
        return False

    def row(self, j):
        return max(i for i in range(R) if self.b[i, j] == 0)

    def play(self, j):
        i, who = self.row(j), self.turn
        self.b[i, j] = who
        self.turn, self.last = -who, j
        won = self.wins(i, j, who)
        self.done = won or not self.legal()
        return (1. if won else 0.), self.done

    def obs(self):
        s = np.zeros((R + 1, C, 2), int)
        s[0, self.legal()] = 1
        s[1:, :, 0], s[1:, :, 1] = self.b == self.turn, self.b == -self.turn
        return s


op = st.one_of(
    st.tuples(st.just('avoid'), st.integers(0, 6)),
    st.tuples(st.just('avoid'), st.integers(0, 6)),
    st.tuples(st.just('move'), st.integers(0, 6)),
    st.tuples(st.just('npmove'), st.integers(0, 6)),
    st.tuples(st.just('bad'), st.integers(0, len(BAD) - 1)),
    st.tuples(st.just('save'), st.just(0)),
    st.tuples(st.just('restore'), st.integers(0, 20)),
    st.tuples(st.just('other'), st.integers(0, 20)),
    st.tuples(st.just('reset'), st.just(0)),
    st.tuples(st.just('render'), st.just(0)))
game = st.lists(st.tuples(st.sampled_from(['avoid', 'avoid', 'avoid', 'move']), st.integers(0, 6)), min_size=20, max_size=60)
case = lambda: st.tuples(st.one_of(st.lists(op, max_size=80), game, st.lists(st.tuples(st.just('move'), st.integers(0, 6)), max_size=60)),
                         st.booleans()).map(lambda t: dict(ops=[list(o) for o in t[0]], second=t[1]))


def look(env, g, what):
    s = env.state
    equal(np.asarray(s, int), g.obs(), f'{what}: observation')
    require(env.observation_space.contains(s), f'{what}: the observation is not an element of the observation space')
    equal(sorted(int(a) for a in env.available_actions), g.legal(), f'{what}: available_actions')
    equal([bool(x) for x in env.available_actions_mask], [j in g.legal() for j in range(C)], f'{what}: available_actions_mask')
    require(bool(env.done) == g.done, f'{what}: done is {env.done}, expected {g.done}')


def check(c):
    env, g = ConnectFourEnv(), Game()
    look(env, g, 'new environment')
    other = ConnectFourEnv()
    ids, saved, kept, moves, finished, symbols, marks, last = {}, [], [], 0, 0, {}, {}, None

    def note(sid, g):
        require(isinstance(sid, str), f'state_id is not a str: {sid!r}')
        key = (g.b.tobytes(), g.turn, g.done)
        require(ids.setdefault(sid, key) == key, f'two different positions have the same state_id {sid}')
        saved.append((sid, g.copy()))

    for k, (o, a) in enumerate(c['ops']):
        what = f'op {k} {o} {a}'
        if o == 'reset':
            s = env.reset()
            g, symbols, marks, last = Game(), {}, {}, None
            equal(np.asarray(s, int), g.obs(), f'{what}: observation returned by reset')
        elif o == 'save':
            note(env.state_id, g)
        elif o == 'restore' and saved:
            sid, g0 = saved[a % len(saved)]
            env.set_state(sid)
            g, symbols, marks, last = g0.copy(), {}, {}, g0.last
            require(env.state_id == sid, f'{what}: state_id after set_state is {env.state_id}, expected {sid}')
        elif o == 'other' and saved:
            # another instance does not interfere
            other.set_state(saved[a % len(saved)][0])
            look(other, saved[a % len(saved)][1], f'{what}: other instance')
        elif o == 'render':
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                env.render()
            rows = [ln[2::4][:C] for ln in buf.getvalue().splitlines() if ln.startswith('|')]
            head = buf.getvalue().splitlines()[0].ljust(2 + 4 * C)[2::4][:C]
            equal([ch != ' ' for ch in head], [j == last for j in range(C)], f'{what}: marked columns (the last move is {last})')
            if last is not None:
                require(marks.setdefault(-g.turn, head[last]) == head[last], f'{what}: the marker of a player changes')
                require(len(set(marks.values())) == len(marks), f'{what}: the last move is marked in the same way for both players')
            require(len(rows) == R, f'{what}: rendered {len(rows)} rows')
            for i in range(R):
                for j in range(C):
                    ch, v = rows[i][j], g.b[i, j]
                    require((ch == ' ') == (v == 0), f'{what}: cell {i},{j} is rendered as {ch!r}, its value is {v}')
                    if v:
                        require(symbols.setdefault(v, ch) == ch, f'{what}: the symbol of a player changes')
            require(len(set(symbols.values())) == len(symbols), f'{what}: both players are rendered with the same symbol')
        elif o in ('bad', 'move', 'npmove', 'avoid'):
            if o == 'avoid' and not g.done:
                good = []
                for j in g.legal():
                    h = g.copy()
                    if h.play(j)[0] == 0.:
                        good.append(j)
                a = (good or g.legal())[a % len(good or g.legal())]
            act = BAD[a] if o == 'bad' else np.int64(a) if o == 'npmove' else a
            if g.done:
                raises(coax._base.errors.EpisodeDoneError, lambda: env.step(act), what=f'{what}: step after the end of the game')
            elif o == 'bad':
                raises(ValueError, lambda: env.step(act), what=f'{what}: invalid action {act!r}')
            elif a not in g.legal():
                raises(coax._base.errors.UnavailableActionError, lambda: env.step(act), what=f'{what}: full column')
            else:
                r, done = g.play(a)
                out = env.step(act)
                require(len(out) == 4, f'{what}: step returned {len(out)} items')
                s, r_, done_, info = out
                equal(np.asarray(s, int), g.obs(), f'{what}: s_next')
                require(float(r_) == r, f'{what}: reward {r_}, expected {r}')
                require(bool(done_) == done, f'{what}: done {done_}, expected {done}')
                require(info['state_id'] == env.state_id, f'{what}: info has another state_id than the environment')
                kept.append((s, np.array(s)))
                note(info['state_id'], g)
                moves, last = moves + 1, a
                finished += done
        look(env, g, what)
    for s, s0 in kept:
        equal(s, s0, 'an observation that was returned earlier has changed')
    if c['second'] and saved:
        sid, g0 = saved[len(saved) // 2]
        e2, g2 = ConnectFourEnv(), g0.copy()
        e2.set_state(sid)
        look(e2, g2, 'restored into a new instance')
        k = 0
        while not g2.done and k < 10:
            j = g2.legal()[(k * 5) % len(g2.legal())]
            r, done = g2.play(j)
            s, r_, done_, _ = e2.step(j)
            equal(np.asarray(s, int), g2.obs(), 'continued from a restored position: s_next')
            require(float(r_) == r and bool(done_) == done, f'continued from a restored position: reward {r_}, done {done_}; expected {r}, {done}')
            k += 1
    return bool(finished) or moves >= 8


# ---- every position of a whole game can be restored -------------------------------------------------------------------------
replay_case = lambda: st.fixed_dictionaries(dict(win=st.booleans(), moves=st.lists(st.integers(0, 6), min_size=42, max_size=42), visit=st.lists(st.integers(0, 42), max_size=8)))


def check_replay(c):
    """play a whole game (avoiding wins, or not), then restore its first, its last and some other positions"""
    env, g, pos = ConnectFourEnv(), Game(), []
    pos.append((env.state_id, g.copy()))
    for a in c['moves']:
        if g.done:
            break
        opts = [j for j in g.legal() if c['win'] or g.copy().play(j)[0] == 0.] or g.legal()
        a = opts[a % len(opts)]
        r, done = g.play(a)
        _, r_, done_, _ = env.step(a)
        require((float(r_), bool(done_)) == (r, done), f'move {len(pos)} in column {a}: reward, done {(r_, done_)}, expected {(r, done)}')
        pos.append((env.state_id, g.copy()))
    for w, i in enumerate([len(pos) - 1, 0] + [v % len(pos) for v in c['visit']] + [len(pos) - 1]):
        sid, g = pos[i][0], pos[i][1].copy()
        if w == 1:
            env = ConnectFourEnv()
        env.set_state(sid)
        what = f'restored the position after move {i}'
        look(env, g, what)
        require(env.state_id == sid, f'{what}: state_id is {env.state_id}, expected {sid}')
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            env.render()
        head = buf.getvalue().splitlines()[0].ljust(2 + 4 * C)[2::4][:C]
        equal([ch != ' ' for ch in head], [j == g.last for j in range(C)], f'{what}: marked columns (the last move is {g.last})')
        if g.done:
            for a in range(C):
                raises(coax._base.errors.EpisodeDoneError, lambda: env.step(a), what=f'{what}: step after the end of the game')
        else:
            full = [j for j in range(C) if j not in g.legal()]
            for a in full:
                raises(coax._base.errors.UnavailableActionError, lambda: env.step(a), what=f'{what}: full column {a}')
            a = g.legal()[(i * 3 + w) % len(g.legal())]
            r, done = g.play(a)
            s, r_, done_, _ = env.step(a)
            equal(np.asarray(s, int), g.obs(), f'{what}: s_next of column {a}')
            require((float(r_), bool(done_)) == (r, done), f'{what}: reward, done {(r_, done_)}, expected {(r, done)}')
        look(env, g, what)
    return len(pos) > 8


SUBS = [Sub('game', case, check, quick=400, thorough=20000, budget=40),
        Sub('replay', replay_case, check_replay, quick=120, thorough=10000, budget=30, split=strata(win=[False, True]))]
