ID = 'B04'; PROP = 'P06'
NEEDS = 'an episode that lasts a single step, traced after another episode with the same tracer'
BREAKS = 'the return accumulated for the previous episode leaks into the return of a one-step episode'
EDITS = [('coax/reward_tracing/_montecarlo.py', "        if self._done:\n            self._g = 0.", "        if len(self) == 2:\n            self._g = 0.")]
DEMO = '''
import coax
t = coax.reward_tracing.MonteCarlo(gamma=1.)
for i in range(3):
    t.add(i, 0, 1., i == 2)
assert sorted(t.flush().Rn) == [1., 2., 3.]
t.add(0, 0, 5., True)
assert float(t.pop().Rn[0]) == 5.
'''
