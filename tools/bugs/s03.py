ID = 'B03'; PROP = 'P05'
NEEDS = 'reset() in the middle of an episode, followed by another episode with the same tracer'
BREAKS = 'rewards cached before a reset survive it and are counted in the n-step returns of the next episode'
EDITS = [('coax/reward_tracing/_nstep.py', "        self._deque_r = deque([])\n", "        self._deque_r = deque([]) if not hasattr(self, '_deque_r') else self._deque_r\n")]
DEMO = '''
import coax
t = coax.reward_tracing.NStep(n=2, gamma=0.5)
t.add(0, 0, 100., False)
t.reset()
t.add(0, 0, 1., False); t.add(1, 0, 1., True)
assert list(t.flush().Rn) == [1.5, 1.]
'''
