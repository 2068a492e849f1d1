ID = 'B12'; PROP = 'P28'
NEEDS = 'a step-based trigger that is queried rarely, so that several multiples pass between two queries, combined with an episode-based period'
BREAKS = 'a periodic trigger with both a step and an episode period forgets the episode condition whenever the step condition is not met'
EDITS = [('coax/wrappers/_train_monitor.py', '            return self.period(name, None, ep_period)\n        if ep_period', '            return False\n        if ep_period')]
DEMO = '''
import gymnasium, coax
class E(gymnasium.Env):
    observation_space = action_space = gymnasium.spaces.Discrete(2)
    def reset(self, **kw): return 0, {}
    def step(self, a): return 0, 0., False, True, {}
m = coax.wrappers.TrainMonitor(E())
m.reset(); m.step(0); m.reset(); m.step(0)
assert m.period('x', T_period=100, ep_period=2)
'''
