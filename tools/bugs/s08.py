ID = 'B08'; PROP = 'P04'
NEEDS = 'changing alpha after transitions were added with non-unit priorities and then updating only some of them'
BREAKS = 'after alpha is changed, stored priorities keep the old exponent unless the buffer is full'
EDITS = [('coax/experience_replay/_prioritized.py', "        new_values = onp.where(\n            self._sumtree.values <= 0, 0.,  # only change exponents for positive values\n", "        if len(self) < self.capacity:  # exponents are applied once the buffer is filled\n            self._alpha = float(new_alpha)\n            return\n        new_values = onp.where(\n            self._sumtree.values <= 0, 0.,  # only change exponents for positive values\n")]
DEMO = '''
import numpy as np, coax
from coax.reward_tracing import TransitionBatch
b = coax.experience_replay.PrioritizedReplayBuffer(8, alpha=1., beta=1., epsilon=0.01, random_seed=0)
for i in range(2):
    b.add(TransitionBatch.from_single(s=i, a=0, logp=0., r=float(i), done=False, gamma=.9), np.array([[1., 4.][i]]))
b.alpha = 2.
s = b.sample(batch_size=200)
w = s.W[s.idx == 1]
assert abs(w[0] - (1.01 / 4.01) ** 2) < 1e-3, w[0]
'''
