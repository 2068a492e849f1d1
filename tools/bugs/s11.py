ID = 'B11'; PROP = 'P28'
NEEDS = 'two episodes that end by truncation in the warm-up phase of the running average'
BREAKS = 'truncated episodes enter the average return with full weight instead of the running-average weight'
EDITS = [('coax/wrappers/_train_monitor.py', '            if self._n_avg_G < self.smoothing:\n', '            if self._n_avg_G < self.smoothing and not (truncated and self._n_avg_G):\n')]
DEMO = '''
import gymnasium, coax
class E(gymnasium.Env):
    observation_space = action_space = gymnasium.spaces.Discrete(2)
    def reset(self, **kw): return 0, {}
    def step(self, a): return 0, float(self.r), False, True, {}
e = E(); m = coax.wrappers.TrainMonitor(e)
for r in (1, 2, 6):
    e.r = r; m.reset(); m.step(0)
assert abs(m.avg_G - 3) < 1e-6, m.avg_G
'''
