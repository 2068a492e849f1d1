from hypothesis import strategies as st
from lib.pbt import Sub, require, equal, chi2_ok, fail, raises
import numpy as np
from coax.utils import SumTree

RULE = ('Cases: (capacity 1..40, non-negative weights with a positive total incl. zeros, quantiles in [0,1] incl. 0, 1 and '
        'the exact bin boundaries) or (weights, seed, sample size). Non-trivial: at least two positive weights.')
ASSUMPTIONS = ['weights are non-negative with a positive sum']


@st.composite
def case(draw):
    cap = draw(st.one_of(st.integers(1, 24), st.sampled_from([1, 2, 4, 8, 16, 3, 5, 6, 7, 9, 12])))
    vals = draw(st.lists(st.one_of(st.just(0), st.integers(0, 64)), min_size=cap, max_size=cap))
    if sum(vals) == 0:
        vals[draw(st.integers(0, cap - 1))] = draw(st.integers(1, 64))
    # history: several overwrites before
    hist = draw(st.lists(st.tuples(st.integers(0, cap - 1), st.integers(0, 64)), max_size=6))
    us = draw(st.lists(st.one_of(st.integers(0, 1024).map(lambda k: k / 1024), st.floats(0, 1, allow_subnormal=False),
                                 st.sampled_from([0.0, 1.0, 1 - 2.0**-53, 2.0**-60])), min_size=1, max_size=12))
    return dict(capacity=cap, values=[v / 8 for v in vals], hist=[[i, v / 8] for i, v in hist], us=us,
                boundaries=draw(st.booleans()))


def judge(vals, u, i, total, cum=None):
    """i is the unique bin of the cumulative distribution that holds u (zero-weight bins excluded)"""
    require(isinstance(int(i), int) and 0 <= i < len(vals), f'index {i} out of range for {len(vals)} weights (u={u!r})')
    require(vals[i] > 0, f'index {i} has weight zero but was selected (u={u!r}, weights={list(vals[:50])})')
    cum = np.cumsum(vals) if cum is None else cum
    v = u * total
    lo, hi = cum[i] - vals[i], cum[i]
    tol = 1e-9 * total
    require(lo - tol <= v <= hi + tol, f'u={u!r}: target mass {v} not inside the mass interval [{lo}, {hi}] of index {i}; weights={list(vals[:50])}')


def check(c):
    cap = c['capacity']
    t = SumTree(cap)
    for i, v in c['hist']:
        t.set_values(np.array([i]), np.array([v]))
    vals = np.array(c['values'])
    t.set_values(..., vals)
    total = vals.sum()
    us = list(c['us'])
    cum = np.cumsum(vals)
    if c['boundaries']:
        us += [x / total for x in cum]
    got = t.inverse_cdf(np.array(us))
    require(np.shape(got) == (len(us),), f'shape {np.shape(got)} for {len(us)} quantiles')
    for u, i in zip(us, got):
        judge(vals, u, i, total)
        one = t.inverse_cdf(float(u))
        require(np.ndim(one) == 0 and int(one) == int(i), f'scalar and batched lookup disagree at u={u!r}: {one} vs {i}')
        for form in ([float(u)], np.array([u])):
            one = np.asarray(t.inverse_cdf(form))
            require(one.shape == (1,) and int(one[0]) == int(i), f'the lookup of one quantile {form!r} gives {one!r}, in a batch it gives {i}')
        # exact arithmetic: strictly inside a bin there is only one right answer
        v = u * total
        j = int(np.searchsorted(cum, v, side='right'))
        if j < cap and not np.any(np.abs(cum - v) < 1e-9 * total):
            require(int(i) == j, f'u={u!r}: got index {i}, expected {j}; weights={list(vals)}')
        elif float(v) in cum and u < 1 and np.array_equal(np.asarray(v * 8 % 1), 0.0):
            # right on a boundary: half-open bins, the next positive bin
            require(int(i) == j, f'u={u!r} on a bin boundary: got {i}, expected {j}; weights={list(vals)}')
    equal(np.asarray(t.inverse_cdf([float(u) for u in us])), np.asarray(got), 'the lookup of a list of quantiles')
    # monotone in u
    o = np.argsort(us, kind='stable')
    require(np.all(np.diff(np.asarray(got)[o]) >= 0), f'index is not monotone in u: us={us} got={list(got)}')
    return (vals > 0).sum() >= 2


@st.composite
def case_real(draw):
    return dict(capacity=draw(st.one_of(st.integers(1, 200), st.sampled_from([255, 256, 257, 500, 1000, 1023, 1024, 1025, 3000, 33000, 70001]))), seed=draw(st.integers(0, 2**31 - 1)),
                logspan=draw(st.sampled_from([0.1, 1, 4, 8])), logscale=draw(st.sampled_from([0, 0, -12, 12])), pzero=draw(st.sampled_from([0, 0.3, 0.9])))


def check_real(c):
    rnd = np.random.RandomState(c['seed'])
    cap = c['capacity']
    vals = 10. ** c['logscale'] * 10 ** rnd.uniform(-c['logspan'] / 2, c['logspan'] / 2, size=cap) * (rnd.rand(cap) >= c['pzero'])
    if vals.sum() == 0:
        vals[rnd.randint(cap)] = 0.3
    t = SumTree(cap)
    t.set_values(rnd.permutation(cap), rnd.rand(cap))
    t.set_values(np.arange(cap), vals)
    us = np.concatenate([rnd.rand(60), [0., 1., 1 - 2.**-53, 1 - 2.**-40, 2.**-50]])
    cum, total = np.cumsum(vals), vals.sum()
    for u, i in zip(us, t.inverse_cdf(us)):
        judge(vals, u, i, total, cum)
    return (vals > 0).sum() >= 2


@st.composite
def case_sample(draw):
    cap = draw(st.integers(1, 20))
    vals = draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 5, 20, 100]), min_size=cap, max_size=cap))
    if sum(vals) == 0:
        vals[-1] = 1
    return dict(values=vals, seed=draw(st.integers(0, 2**31 - 1)), n=draw(st.sampled_from([1, 7, 5000])))


def check_sample(c):
    vals = np.array(c['values'], 'float64')
    t = SumTree(len(vals), random_seed=c['seed'])
    raises(RuntimeError, lambda: t.sample(3), 'sampling from an all-zero tree')
    t = SumTree(len(vals), random_seed=c['seed'])
    t.set_values(..., vals)
    a = np.asarray(t.sample(c['n']))
    require(a.shape == (c['n'],) and np.issubdtype(a.dtype, np.integer), f'bad sample array {a.shape} {a.dtype}')
    require(np.all((a >= 0) & (a < len(vals))), f'sampled index out of range: {a.min()}..{a.max()}')
    chi2_ok(np.bincount(a, minlength=len(vals)), vals / vals.sum(), 'sampling frequencies')
    # the seed determines the draws
    t2 = SumTree(len(vals), random_seed=c['seed'])
    t2.set_values(..., vals)
    equal(t2.sample(c['n']), a, 'same seed, same draws')
    t.random_seed = c['seed']
    equal(t.sample(c['n']), a, 're-seeding restarts the draws')
    # a tree whose weights were overwritten must forget the old ones
    t.set_values(..., vals[::-1].copy())
    b = np.asarray(t.sample(4000))
    chi2_ok(np.bincount(b, minlength=len(vals)), vals[::-1] / vals.sum(), 'sampling frequencies after overwriting')
    t.set_values(..., np.zeros(len(vals)))
    raises(RuntimeError, lambda: t.sample(1), 'sampling after all weights were set to zero')
    return (vals > 0).sum() >= 2


# ---- the draws of one call, and of consecutive calls, are independent -------------------------------------------------------
case_pos = lambda: st.fixed_dictionaries(dict(values=st.lists(st.sampled_from([0, 1, 1, 2, 3]), min_size=2, max_size=4).filter(lambda v: sum(x > 0 for x in v) > 1),
                                              n=st.integers(1, 5), seed=st.integers(0, 2**31 - 1)))


def check_pos(c):
    vals = np.array(c['values'], 'float64')
    p, k = vals / vals.sum(), len(vals)
    t = SumTree(k, random_seed=c['seed'])
    t.set_values(..., vals)
    a = np.array([t.sample(c['n']) for _ in range(2500)])
    for j in range(c['n']):
        chi2_ok(np.bincount(a[:, j], minlength=k), p, f'draw {j} of a call with n={c["n"]}')
    pairs = [(0, j) for j in range(1, c['n'])] + [(c['n'] - 2, c['n'] - 1)] * (c['n'] > 2)
    for i, j in pairs:
        chi2_ok(np.bincount(a[:, i] * k + a[:, j], minlength=k * k), np.outer(p, p).ravel(), f'draws {i} and {j} of a call with n={c["n"]}')
    big = np.asarray(t.sample(1000 + c['seed'] % 4000))
    for lag in (1, 2):
        x, y = big[:-lag][::2 * lag], big[lag:][::2 * lag]
        chi2_ok(np.bincount(x * k + y, minlength=k * k), np.outer(p, p).ravel(), f'draws j and j + {lag} of a call with n={len(big)}')
    for m in (30, 70, 150, 300):
        x = np.array([t.sample(m)[[0, m // 2, -1]] for _ in range(400)])
        for j in range(3):
            chi2_ok(np.bincount(x[:, j], minlength=k), p, f'draw {[0, m // 2, m - 1][j]} of a call with n={m}')
    for j in range(c['n']):
        chi2_ok(np.bincount(a[:-1, -1] * k + a[1:, j], minlength=k * k), np.outer(p, p).ravel(), f'the last draw of a call and draw {j} of the next one')
    return True


SUBS = [Sub('positions', case_pos, check_pos, quick=40, thorough=1000, budget=30),
        Sub('inverse_cdf', case, check, quick=1500, thorough=60000, budget=40),
        Sub('reals', case_real, check_real, quick=500, thorough=20000, budget=25),
        Sub('sampling', case_sample, check_sample, quick=200, thorough=3000, budget=30)]
