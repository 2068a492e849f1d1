ID = 'B05'; PROP = 'P03'
NEEDS = 'one batch that is larger than the capacity of the buffer'
BREAKS = 'of a batch that exceeds the capacity the oldest instead of the most recent transitions are kept'
EDITS = [('coax/experience_replay/_simple.py', "        self._storage.extend(transition_batch.to_singles())\n", "        self._storage.extend(x for x, _ in zip(transition_batch.to_singles(), range(self.capacity)))\n")]
DEMO = '''
import coax
b = coax.experience_replay.SimpleReplayBuffer(3, random_seed=0)
tr = coax.reward_tracing.NStep(n=1, gamma=.9)
for i in range(6):
    tr.add(i, 0, float(i), i == 5)
b.add(tr.flush())
assert sorted(float(x.Rn[0]) for x in b) == [3., 4., 5.], [x.Rn for x in b]
'''
