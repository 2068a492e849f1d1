ID = 'B35'; PROP = 'P32'
NEEDS = 'a compiled function with static arguments that is pickled and loaded again'
BREAKS = 'a compiled function forgets its static arguments when it is pickled'
EDITS = [('coax/utils/_jit.py', '        self.func, self.static_argnums, self.donate_argnums = state\n', '        self.func, self.donate_argnums, self.static_argnums = state\n')]
DEMO = '''
import coax, cloudpickle
def f(x, flag):
    return x + 1 if flag else x - 1
g = coax.utils.jit(f, static_argnums=(1,))
h = cloudpickle.loads(cloudpickle.dumps(g))
assert float(h(1., True)) == 2. and float(h(1., False)) == 0.
'''
