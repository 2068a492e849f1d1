ID = 'B02'; PROP = 'P04'
NEEDS = 'a transition evicted and its slot reused twice between sampling and the priority update'
BREAKS = 'ids are recycled, so an update with the id of a long evicted transition overwrites the priority of the one that now occupies its slot'
EDITS = [('coax/experience_replay/_prioritized.py', "transition_batch.idx = self._index + onp.arange(transition_batch.batch_size)",
 "transition_batch.idx = (self._index + onp.arange(transition_batch.batch_size)) % (2 * self.capacity)")]
DEMO = '''
import numpy as np, coax
from coax.reward_tracing import TransitionBatch
b = coax.experience_replay.PrioritizedReplayBuffer(4, alpha=1., beta=1., epsilon=0.01, random_seed=0)
for i in range(10):
    b.add(TransitionBatch.from_single(s=i, a=0, logp=0., r=float(i), done=False, gamma=.9), np.array([1.]))
b.update(np.array([1]), np.array([1000.]))    # id 1 was evicted long ago
R = b.sample(batch_size=400).Rn
assert np.mean(R == 9.) < 0.5, np.mean(R == 9.)
'''
