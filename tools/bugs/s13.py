ID = 'B13'; PROP = 'P29'
NEEDS = 'a winning diagonal that lies in the outermost part of the board'
BREAKS = 'some anti-diagonals at the edge of the board are not recognised as a win'
EDITS = [('coax/envs/_connect_four.py', 'for i0 in range(2, -1, -1)', 'for i0 in range(2, 0, -1)')]
DEMO = '''
import coax
from coax.envs import ConnectFourEnv
import itertools, numpy as np
# all games in which the first player gets four in a row on the board, as seen by an independent rule
rng = np.random.RandomState(0)
def four(b):
    for i in range(6):
        for j in range(7):
            for di, dj in ((0, 1), (1, 0), (1, 1), (1, -1)):
                c = [(i + k * di, j + k * dj) for k in range(4)]
                if all(0 <= y < 6 and 0 <= x < 7 for y, x in c) and len({b[y][x] for y, x in c}) == 1 and b[i][j]:
                    return True
    return False
env = ConnectFourEnv()
for g in range(1500):
    env.reset()
    b, p, done = [[0] * 7 for _ in range(6)], 1, False
    while not done:
        a = int(rng.choice(env.available_actions))
        done = env.step(a)[2]
        y = max(i for i in range(6) if not b[i][a]); b[y][a] = p; p = -p
        full = all(b[0])
        assert done == (four(b) or full), (b, done)
'''
