from hypothesis import strategies as st
from lib.pbt import Sub, require, close, equal, raises
import jax
import jax.numpy as jnp
import numpy as np
import coax
from coax.utils import StepwiseLinearFunction, OrnsteinUhlenbeckNoise

RULE = ('Cases: schedules with evaluation points; noise settings with sequences of actions and resets; quantile settings. Non-trivial: per kind, more than one segment / action / quantile.')
ASSUMPTIONS = ['statistics of the noise are judged at 8 sigma']


# ---- schedules -------------------------------------------------------------------------------------------------------------
@st.composite
def sched_case(draw):
    ts = sorted(draw(st.lists(st.one_of(st.integers(-50, 50), st.integers(0, 10 ** 6)), min_size=2, max_size=6, unique=True)))
    vs = [draw(st.one_of(st.floats(-10, 10, width=32), st.integers(-5, 5))) for _ in ts]
    q = draw(st.lists(st.one_of(st.integers(-100, 10 ** 6 + 100), st.sampled_from(ts), st.sampled_from(ts).map(lambda x: x + 1), st.sampled_from(ts).map(lambda x: x - 1), st.floats(-60, 60)), min_size=1, max_size=10))
    return dict(ts=ts, vs=vs, q=q, bad=draw(st.sampled_from([None, None, 'order', 'equal', 'one', 'float', 'list', 'triple', 'str'])))


def check_sched(c):
    ts, vs = c['ts'], c['vs']
    steps = list(zip(ts, vs))
    bad = dict(order=(ValueError, steps[::-1]), equal=(ValueError, steps + [steps[-1]]), one=(TypeError, steps[:1]), float=(TypeError, [(t + .5, v) for t, v in steps]),
               list=(TypeError, [list(s) for s in steps]), triple=(TypeError, [s + (1,) for s in steps]), str=(TypeError, [(t, str(v)) for t, v in steps])).get(c['bad'])
    if bad:
        raises(bad[0], lambda: StepwiseLinearFunction(*bad[1]), f'steps {bad[1]}')
    f = StepwiseLinearFunction(*steps)
    for x in c['q']:
        y = f(x)
        close(y, np.interp(x, ts, vs), f'schedule {steps} at {x}', rtol=1e-6, atol=1e-6 * (1 + max(abs(v) for v in vs)))
    for t, v in steps:
        close(f(t), v, f'schedule {steps} at its own step {t}', rtol=1e-7, atol=1e-7)
    return len(ts) > 2


# ---- Ornstein-Uhlenbeck noise ----------------------------------------------------------------------------------------------
par = lambda lo, hi: st.one_of(st.floats(lo, hi, width=32), st.lists(st.floats(lo, hi, width=32), min_size=2, max_size=2))
ou_case = lambda: st.fixed_dictionaries(dict(
    mu=par(-2, 2), sigma=par(0.125, 2), theta=par(0.0625, 1), shape=st.sampled_from([[2], [3, 2], [2], [3, 2], [60, 2], [5, 20, 2]]), seed=st.integers(0, 2 ** 31),
    lo=st.one_of(st.none(), st.floats(-2, 0, width=32)), hi=st.one_of(st.none(), st.floats(0, 2, width=32)), dtype=st.sampled_from(['float64', 'float32', 'list']),
    ops=st.lists(st.one_of(st.floats(-3, 3, width=32), st.floats(-3, 3, width=32), st.floats(-3, 3, width=32), st.just('reset')), min_size=1, max_size=15)))


def check_ou(c):
    arr = lambda x: np.array(x) if isinstance(x, list) else x
    mu, sigma, theta = arr(c['mu']), arr(c['sigma']), arr(c['theta'])
    # reference process: mu = 0, theta = 1, sigma = 1 shows the white noise itself
    white = OrnsteinUhlenbeckNoise(mu=0., sigma=1., theta=1., random_seed=c['seed'])
    noise = OrnsteinUhlenbeckNoise(mu=mu, sigma=sigma, theta=theta, min_value=c['lo'], max_value=c['hi'], random_seed=c['seed'])
    x = np.zeros(c['shape']) + mu
    tol = 1e-9 if c['dtype'] != 'float32' else 2e-5
    clipped = 0
    for k, o in enumerate(c['ops']):
        if o == 'reset':
            noise.reset()
            white.reset()
            x = np.zeros(c['shape']) + mu
            continue
        a = np.full(c['shape'], o, 'float64' if c['dtype'] == 'list' else c['dtype'])
        keep = a.copy()
        eps = np.asarray(white(a * 0), 'float64')
        out = noise(a.tolist() if c['dtype'] == 'list' else a)
        x = x - theta * (x - mu) + sigma * eps
        exp = np.clip(a.astype('float64') + x, -np.inf if c['lo'] is None else c['lo'], np.inf if c['hi'] is None else c['hi'])
        close(out, exp, f'action {k}: noisy action', rtol=tol, atol=tol * 50)
        equal(a, keep, f'action {k} was modified in place')
        clipped += bool(np.any(exp != a + x))
    return len([o for o in c['ops'] if o != 'reset']) > 1


ous_case = lambda: st.fixed_dictionaries(dict(seed=st.integers(0, 2 ** 31), shape=st.sampled_from([[2], [2, 1], [1, 2], [1, 2, 1]])))


def check_ou_stats(c):
    n = OrnsteinUhlenbeckNoise(mu=0., sigma=1., theta=1., random_seed=c['seed'])
    e = np.array([np.ravel(n(np.zeros(c['shape']))) for _ in range(3000)])
    z = 8
    require(np.all(np.abs(e.mean(0)) < z / np.sqrt(3000)), f'the white noise has mean {e.mean(0)}')
    require(np.all(np.abs((e ** 2).mean(0) - 1) < z * np.sqrt(2 / 3000)), f'the white noise has variance {(e ** 2).mean(0)}')
    require(np.all(np.abs((e[1:] * e[:-1]).mean(0)) < z / np.sqrt(3000)), 'the white noise is autocorrelated')
    require(abs((e[:, 0] * e[:, 1]).mean()) < z / np.sqrt(3000), 'the components of the white noise are correlated')
    require(abs((np.abs(e) < .6744898).mean() - .5) < z * .5 / np.sqrt(6000), 'the white noise is not normally distributed')
    # the noise goes on after a reset: it does not start over
    n.reset()
    b = []
    for k in range(600):
        b.append(np.ravel([n(np.zeros(c['shape'])) for _ in range(3)]))
        n.reset()
    b = np.array(b)
    for lag in (1, 2):
        require(np.all(np.abs((b[lag:] * b[:-lag]).mean(0)) < z / np.sqrt(600)), 'the noise of one episode repeats in another')
    require(np.all(np.abs(b.mean(0)) < z / np.sqrt(600)), f'the mean of the noise after a reset is {b.mean(0)}')
    again = OrnsteinUhlenbeckNoise(mu=0., sigma=1., theta=1., random_seed=c['seed'])
    equal(np.array([np.ravel(again(np.zeros(c['shape']))) for _ in range(5)]), e[:5], 'the same random_seed')
    return True


# ---- quantile fractions ----------------------------------------------------------------------------------------------------
quant_case = lambda: st.fixed_dictionaries(dict(b=st.one_of(st.integers(1, 5), st.just(32)), n=st.one_of(st.integers(1, 40), st.sampled_from([51, 64, 100, 200, 201])), m=st.sampled_from([1, 2, 7, 64]), seed=st.integers(0, 2 ** 31)))


def check_quant(c):
    b, n = c['b'], c['n']
    q = np.asarray(coax.utils.quantiles(b, n), 'float64')
    close(q, np.tile(np.arange(n) / n, (b, 1)), 'quantiles', atol=1e-6)
    u = np.asarray(coax.utils.quantiles_uniform(jax.random.PRNGKey(c['seed']), b, n), 'float64')
    require(u.shape == (b, n), f'quantiles_uniform: shape {u.shape}')
    require(np.all(u >= 0) and np.all(u <= 1 + 1e-5) and np.all(np.diff(u, axis=1) >= -1e-7), f'quantiles_uniform is not an increasing sequence in [0, 1]: {u}')
    close(u[:, -1], np.ones(b), 'quantiles_uniform: last fraction', atol=1e-5)
    equal(np.asarray(coax.utils.quantiles_uniform(jax.random.PRNGKey(c['seed']), b, n), 'float64'), u, 'quantiles_uniform for the same key')
    if n > 1:
        v = np.asarray(coax.utils.quantiles_uniform(jax.random.PRNGKey(c['seed'] + 1), b, n), 'float64')
        require(not np.array_equal(u, v), 'quantiles_uniform does not depend on the key')
        require(b == 1 or not np.allclose(u[0], u[1], atol=0), 'quantiles_uniform: the rows are equal')
    # cosine embedding: cos(pi * i * tau) for n consecutive integers i
    for tau in (np.resize(u, (2, 3)), np.resize(u, 3)):
        e = np.asarray(coax.utils.quantile_cos_embedding(jnp.asarray(tau, 'float32'), n=c['m']), 'float64')
        require(e.shape == (*tau.shape, c['m']), f'embedding of shape {e.shape}, expected {(*tau.shape, c["m"])}')
        i0 = 0 if np.allclose(e[..., 0], 1., atol=1e-6) and not np.allclose(tau, 0.) else 1
        close(e, np.cos(np.pi * np.asarray(np.float32(tau), 'float64')[..., None] * (i0 + np.arange(c['m']))), 'cosine embedding', atol=1e-4)
    return n > 1


SUBS = [Sub('schedule', sched_case, check_sched, quick=600, thorough=40000, budget=20), Sub('noise', ou_case, check_ou, quick=500, thorough=30000, budget=20),
        Sub('noise_stats', ous_case, check_ou_stats, quick=10, thorough=200, budget=20), Sub('quantiles', quant_case, check_quant, quick=60, thorough=600, budget=30)]
