ID = 'B23'; PROP = 'P31'
NEEDS = 'a worker with a policy whose actions depend on the state, in an episode of three or more steps'
BREAKS = 'a rollout keeps acting on a stale state after the first step'
EDITS = [('coax/_core/worker.py', '            s = s_next', '            s = s_next if t else s')]
DEMO = '''
import numpy as np, haiku as hk, gymnasium, coax
class E(gymnasium.Env):
    observation_space = gymnasium.spaces.Discrete(10)
    action_space = gymnasium.spaces.Discrete(2)
    class spec: max_episode_steps = 6; reward_threshold = None; id = 'x'
    def reset(self, **kw): self.s = 0; return 0, {}
    def step(self, a): self.s += 1; return self.s, 0., self.s == 6, False, {}
class W(coax.Worker):
    seen = []
    def __init__(self):
        env = E(); env.spec.max_episode_steps = 6
        pi = coax.Policy(lambda S, is_training: {'logits': hk.Linear(2)(S)}, env, random_seed=2)
        super().__init__(env=env, param_store=None, pi=pi, tracer=coax.reward_tracing.NStep(1, .9), buffer=coax.experience_replay.SimpleReplayBuffer(100))
    def get_state(self): return self.pi.params
    def set_state(self, s): self.pi.params = s
    def trace(self, s, a, r, done, logp): self.seen.append(s)
    def learn(self, tb): pass
w = W()
w.rollout()
assert w.seen == [0, 1, 2, 3, 4, 5], w.seen
'''
