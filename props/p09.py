from hypothesis import strategies as st
from lib.pbt import Sub, require, close, equal, chi2_ok, tree_equal, short, strata
from lib import spaces as S
import jax
import jax.numpy as jnp
import numpy as np
from coax.proba_dists import SquashedNormalDist, DiscretizedIntervalDist

RULE = ('Cases: (space out of 18 incl. nested composites, parameters, key) for samples/modes pushed into the space and elements '
        'of the space pushed through the round trip; plus frequency cases. Non-trivial: every case with a space of more than one element.')
ASSUMPTIONS = ['boxes of float16/32/64 or integer dtype with up to 255 levels; unbounded dimensions only within the documented clipping range of +-256', 'Discrete spaces start at 0']


@st.composite
def case(draw):
    return dict(space=draw(st.integers(0, len(S.ALL) - 1)), batch=draw(st.sampled_from([1, 3, 3, 40])), p=draw(st.integers(0, 2**20)),
                mode=draw(S.MODES), key=draw(st.integers(0, 2**20)), what=draw(st.sampled_from(['sample', 'mode', 'saturate'])),
                sat=draw(st.sampled_from([-1e4, -31., -20., -12., 12., 20., 31., 1e4])))


def row(spec, tree, i):
    """row i of a batch of elements of the space"""
    return jax.tree_util.tree_map(lambda x: np.asarray(x)[i], tree)


def contains(space, x, what):
    import gymnasium
    if isinstance(space, gymnasium.spaces.Tuple):
        require(isinstance(x, tuple) and len(x) == len(space.spaces), f'{what}: {short(x)} is no element of {space}')
        for s, y in zip(space.spaces, x):
            contains(s, y, what)
    elif isinstance(space, gymnasium.spaces.Dict):
        require(isinstance(x, dict) and set(x) == set(space.spaces), f'{what}: {short(x)} is no element of {space}')
        for k, s in space.spaces.items():
            contains(s, x[k], what)
    else:
        if isinstance(space, gymnasium.spaces.Box):
            x = np.asarray(x)
        require(space.contains(x), f'{what}: {short(x)} (dtype {getattr(x, "dtype", type(x))}) is no element of {space} low={getattr(space, "low", None)} high={getattr(space, "high", None)}')


def check(c):
    spec, B = S.ALL[c['space']], c['batch']
    d, space = S.dist(spec), S.make(spec)
    rng = jax.random.PRNGKey(c['key'])
    p = S.params(spec, c['p'], B, c['mode'])
    X = d.mode(p) if c['what'] == 'mode' else d.sample(p, rng)
    if c['what'] == 'saturate':   # network outputs can be arbitrarily large
        X = jax.tree_util.tree_map(lambda x: x * 0 + c['sat'] if x.shape[-1:] else x + c['sat'], X) if spec['t'] == 'box' else X
    comps = S.components(spec)
    for path, leaf in comps:
        x = np.asarray(S.get(X, path))
        if leaf['t'] == 'discrete':
            require(x.shape == (B, leaf['n']) and np.all(x >= 0) and np.allclose(x.sum(-1), 1, atol=1e-4), f'raw variate of {path} is not on the simplex: {short(x)}')
        else:
            require(x.shape == (B, *leaf['shape']), f'raw variate of {path} has shape {x.shape}')
    equal_keys = d.sample(p, rng)
    if c['what'] == 'sample':
        tree_equal(equal_keys, X, 'same key, same sample')
    batch = d.postprocess_variate(rng, X, batch_mode=True)
    for i in range(B):
        single = d.postprocess_variate(rng, X, index=i)
        contains(space, single, f'{c["what"]} -> space')
        tie = c['what'] == 'mode' and c['mode'] in ('flat', 'extreme')
        if not tie:
            # batch mode gives the same elements, stacked
            for path, leaf in ([((), spec)] if spec['t'] in ('multidiscrete', 'multibinary') else comps_space(spec)):
                close(np.asarray(S.get(batch, path))[i], S.get(single, path), f'batched and single post-processing differ at row {i}', rtol=1e-6)
        # back: what was acted upon is what gets stored
        back = d.preprocess_variate(rng, single)
        for path, leaf in comps:
            b, x = np.asarray(S.get(back, path)), np.asarray(S.get(X, path))[i:i + 1]
            if leaf['t'] == 'discrete':
                require(b.shape == (1, leaf['n']) and sorted(b[0].tolist()) == [0.] * (leaf['n'] - 1) + [1.], f'not one-hot: {short(b)}')
                require(x[0, np.argmax(b)] == x.max(), f'round trip picks {np.argmax(b)} for variate {short(x)}')
            elif np.all(np.abs(x) < 5):
                box = np.asarray(leaf['high'], 'float64') - leaf['low']
                w = np.where(np.isfinite(box), box, 512.)
                off = np.where(np.isfinite(box), np.abs(leaf['low']) + np.abs(leaf['high']), 512.)
                amp = 4e-7 * (w + off) / w / (np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))) ** 2)
                require(b.shape == x.shape and np.all(np.abs(b - x) <= 10 * amp + 1e-4), f'round trip through the space changed {short(x)} into {short(b)}')
    return True


def comps_space(spec):
    """[(path, leaf)] over elements of the space (MultiDiscrete stays one array)"""
    t = spec['t']
    if t in ('tuple', 'dict'):
        items = enumerate(spec['of']) if t == 'tuple' else spec['of']
        return [((k,) + p, leaf) for k, s in items for p, leaf in comps_space(s)]
    return [((), spec)]


@st.composite
def case_elem(draw):
    return dict(space=draw(st.integers(0, len(S.ALL) - 1)), seed=draw(st.integers(0, 2**20)), edge=draw(st.sampled_from(['', '', 'low', 'high', 'far'])))


def check_elem(c):
    """element of the space -> distribution's representation -> element"""
    spec = S.ALL[c['space']]
    d, space = S.dist(spec), S.make(spec)
    rng = jax.random.PRNGKey(c['seed'])
    space.seed(c['seed'])
    x = space.sample()
    x = dict(x) if isinstance(x, dict) else x
    if c['edge'] and spec['t'] == 'box' and np.all(np.isfinite(space.low)):
        x = np.array(getattr(space, c['edge'])) if c['edge'] != 'far' else x
    elif c['edge'] and spec['t'] == 'box':      # an unbounded box is represented up to +-256
        x = (np.random.RandomState(c['seed']).uniform(180, 255, size=space.shape) * np.resize([1, -1] if c['edge'] == 'low' else [-1, 1], space.shape)).astype(space.dtype)
    z = d.preprocess_variate(rng, x)
    for path, leaf in S.components(spec):
        v = np.asarray(S.get(z, path))
        require(np.all(np.isfinite(v)), f'representation is not finite: {short(v)}')
    y = d.postprocess_variate(rng, z)
    contains(space, y, 'round trip')
    for path, leaf in comps_space(spec):
        a, b = S.get(x, path), S.get(y, path)
        if leaf['t'] == 'box':
            low, high = np.asarray(leaf['low'], 'float64'), np.asarray(leaf['high'], 'float64')
            w = np.where(np.isfinite(low), high - low + np.abs(low) + np.abs(high), 512.)
            require(np.shape(b) == np.shape(a) and np.all(np.abs(np.asarray(a, 'float64') - b) <= 3e-6 * w), f'round trip changed {short(a)} into {short(b)} at {path}')
        else:
            equal(b, a, f'round trip at {path}')
    # log-probability of the stored element is finite and non-degenerate under any parameters
    p = S.params(spec, c['seed'], 1, 'normal')
    require(np.all(np.isfinite(np.asarray(d.log_proba(p, z)))), 'log-probability of an element of the space is not finite')
    return True


FREQ = [0, 1, 2, 10, 11, 13, 14, 4, 5, 16, len(S.ALL) - 1]


@st.composite
def case_freq(draw):
    return dict(space=draw(st.sampled_from(FREQ)), p=draw(st.integers(0, 2**20)), key=draw(st.integers(0, 2**20)),
                mode=draw(st.sampled_from(['normal', 'normal', 'flat', 'shifted'])))


def check_freq(c):
    spec, N = S.ALL[c['space']], 20000
    d = S.dist(spec)
    p1 = S.params(spec, c['p'], 1, c['mode'])
    p = jax.tree_util.tree_map(lambda x: jnp.repeat(x, N, axis=0), p1)
    X = d.sample(p, jax.random.PRNGKey(c['key']))
    prev = []
    for path, leaf in S.components(spec):
        x, pp = np.asarray(S.get(X, path)), S.get(p1, path)
        if leaf['t'] == 'discrete':
            k = np.argmax(x, axis=-1)
            probs = np.exp(S.log_softmax(pp['logits']))[0]
            chi2_ok(np.bincount(k, minlength=leaf['n']), probs, f'sampling frequencies of component {path} of {spec}')
            u = (k == np.argmax(probs)).astype('float64')
        else:
            mu, sd = np.asarray(pp['mu'], 'float64')[0], np.exp(np.asarray(pp['logvar'], 'float64')[0] / 2)
            zz = ((x - mu) / sd).reshape(N, -1)
            require(np.all(np.abs(zz.mean(0)) < 9 / np.sqrt(N)), f'sample mean off: {zz.mean(0)} standard deviations')
            require(np.all(np.abs((zz ** 2).mean(0) - 1) < 9 * np.sqrt(2 / N)), f'sample variance off: {(zz ** 2).mean(0)}')
            for j in range(zz.shape[1] - 1):
                require(abs((zz[:, j] * zz[:, j + 1]).mean()) < 9 / np.sqrt(N), 'dimensions are correlated')
            u = zz[:, 0]
        # components are independent of one another
        u = (u - u.mean()) / (u.std() + 1e-9)
        for q, v in prev:
            require(abs((u * v).mean()) < 9 / np.sqrt(N), f'components {q} and {path} are correlated: {(u * v).mean()}')
        prev.append((path, u))
    return True


@st.composite
def case_other(draw):
    return dict(kind=draw(st.sampled_from(['squashed', 'interval'])), seed=draw(st.integers(0, 2**20)),
                low=draw(st.sampled_from([-1., 0., -0.1, -7.3, 2.])), width=draw(st.sampled_from([2., 1., 0.4, 13.1])), bins=draw(st.sampled_from([2, 7, 20])),
                mu=draw(st.sampled_from([0., 1., 2.5, -3., 40., -40.])), frac=draw(st.floats(0, 1)))


def check_other(c):
    rng = jax.random.PRNGKey(c['seed'])
    if c['kind'] == 'squashed':
        space = S.make(dict(t='box', low=c['low'], high=c['low'] + c['width'], shape=[3]))
        d = SquashedNormalDist(space)
        p = {'mu': jnp.full((4, 3), c['mu']), 'logvar': jnp.zeros((4, 3))}
        for X in (d.sample(p, rng), d.mode(p), d.mean(p)):
            for i in range(4):
                y = d.postprocess_variate(rng, X, index=i)
                contains(space, y, 'squashed variate')
                close(y, np.asarray(X)[i], 'squashed variate in the space', rtol=1e-5, atol=1e-5)
                close(d.preprocess_variate(rng, y), np.asarray(y)[None], 'representation of a squashed variate', rtol=1e-6)
        close(d.postprocess_variate(rng, d.mean(p), batch_mode=True), np.asarray(d.mean(p)), 'squashed batch', rtol=1e-5, atol=1e-5)
        if abs(c['mu']) <= 3:
            N, sd = 5000, 0.5
            p = {'mu': jnp.full((N, 3), c['mu']), 'logvar': jnp.full((N, 3), 2 * np.log(sd))}
            x = (np.asarray(d.sample(p, rng), 'float64') - c['low']) / c['width'] * 2 - 1
            z = (np.arctanh(np.clip(x, -1 + 1e-6, 1 - 1e-6)) - c['mu']) / sd
            require(np.all(np.abs(z.mean(0)) < 9 / np.sqrt(N)) and np.all(np.abs((z ** 2).mean(0) - 1) < 9 * np.sqrt(2 / N)), f'squashed samples: moments {z.mean(0)} {(z ** 2).mean(0)} of the underlying normal')
        return True
    space = S.make(dict(t='box', low=c['low'], high=c['low'] + c['width'], shape=[]))
    d = DiscretizedIntervalDist(space, num_bins=c['bins'])
    low, high = float(space.low), float(space.high)
    atoms = low + (np.arange(c['bins']) + .5) * (high - low) / c['bins']
    close(d.atoms, atoms, 'atoms are the bin centres', rtol=1e-5, atol=1e-5)
    require(d.num_bins == c['bins'], 'num_bins')
    x = low + c['frac'] * (high - low)
    z = np.asarray(d.preprocess_variate(rng, x))
    require(z.shape == (1, c['bins']) and sorted(z[0].tolist()) == [0.] * (c['bins'] - 1) + [1.], f'{x} is not mapped to one bin: {z}')
    y = float(d.postprocess_variate(rng, jnp.asarray(z)))
    require(abs(y - x) <= (high - low) / c['bins'] / 2 + 1e-4 * (abs(low) + abs(high)), f'{x} went to the bin centred at {y}')
    z = np.random.RandomState(c['seed']).dirichlet(np.ones(c['bins']), size=3)
    close(d.postprocess_variate(rng, jnp.asarray(z, 'float32'), batch_mode=True), z @ atoms, 'weights to value', rtol=1e-4, atol=1e-4)
    close(d.postprocess_variate(rng, jnp.asarray(z, 'float32'), index=2), (z @ atoms)[2], 'weights to single value', rtol=1e-4, atol=1e-4)
    return True


# relaxed samples of a categorical distribution: softmax((log p + Gumbel noise) / tau)
relaxed_case = lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(['discrete', 'interval']), tau=st.sampled_from([None, 0.2, 0.5, 1., 2.]), n=st.just(4), p=st.integers(0, 2**20), key=st.integers(0, 2**20)))


def check_relaxed(c):
    from coax.proba_dists import CategoricalDist
    from gymnasium.spaces import Box, Discrete
    kw = {} if c['tau'] is None else dict(gumbel_softmax_tau=c['tau'])
    d = CategoricalDist(Discrete(c['n']), **kw) if c['kind'] == 'discrete' else DiscretizedIntervalDist(Box(-1., 1., ()), num_bins=c['n'], **kw)
    tau = float(d.gumbel_softmax_tau)
    require(c['tau'] is None or tau == c['tau'], f'gumbel_softmax_tau is {tau}, expected {c["tau"]}')
    R, l = 5000, np.random.RandomState(c['p']).randn(c['n'])
    X = np.asarray(d.sample({'logits': jnp.asarray(np.tile(l, (R, 1)), 'float32')}, jax.random.PRNGKey(c['key'])), 'float64')
    close(X.sum(-1), np.ones(R), 'relaxed samples sum to one', atol=1e-4)
    with np.errstate(divide='ignore', invalid='ignore'):
        for i in range(1, c['n']):
            ok = (X[:, i] > 0) | (X[:, 0] > 0)
            z = np.where(ok, tau * (np.log(X[:, i]) - np.log(X[:, 0])) - (l[i] - l[0]), 0.)    # logistic
            for q in (.25, .5, .75):
                got = (z < np.log(q / (1 - q))).mean() if ok.all() else q
                require(abs(got - q) < 9 * np.sqrt(q * (1 - q) / R), f'the log-ratio of components {i} and 0 of the relaxed samples (tau={tau}) lies below its {q}-quantile with frequency {got}')
    m = np.asarray(d.mode({'logits': jnp.asarray(l[None], 'float32')}), 'float64')[0]
    e = np.exp((l - l.max()) / tau)
    close(m, e / e.sum(), f'relaxed mode (tau={tau})', rtol=1e-3, atol=1e-6)
    return True


# boxes of other dtypes: elements keep the dtype and the bounds of the space
DT = ['uint8', 'int16', 'int32', 'float16', 'float32', 'float64']
dtype_case = lambda: st.fixed_dictionaries(dict(dtype=st.sampled_from(DT), kind=st.sampled_from(['normal', 'squashed', 'inside']), p=st.integers(0, 2**20),
                                                box=st.integers(0, 2), scale=st.sampled_from([0.3, 2., 30., 500.])))
_dt = {}


def check_dtype(c):
    from coax.proba_dists import NormalDist, ProbaDist
    from gymnasium.spaces import Box, Discrete, Tuple
    key = (c['dtype'], c['kind'], c['box'])
    if key not in _dt:
        integer = 'int' in c['dtype']
        low, high = [([0, 0, 0], [255, 10, 3]), ([3, 0, 7], [4, 200, 77]), ([0, 0, 0], [1, 1, 1])][c['box']] if integer else \
                    [([.1, -.3, -.3], [.3, .3, .7]), ([-1.1, 0., 7.3], [1.3, .9, 11.7]), ([0, 0, 0], [1, 1, 1])][c['box']]
        space = Box(np.asarray(low, c['dtype']), np.asarray(high, c['dtype']), dtype=c['dtype'])
        d = NormalDist(space) if c['kind'] == 'normal' else SquashedNormalDist(space) if c['kind'] == 'squashed' else ProbaDist(Tuple((Discrete(2), space)))
        _dt[key] = space, d
    space, d = _dt[key]
    inside = c['kind'] == 'inside'
    low, high = np.asarray(space.low, 'float64'), np.asarray(space.high, 'float64')
    rnd, rng, B = np.random.RandomState(c['p']), jax.random.PRNGKey(c['p']), 4
    wrap = (lambda x: (jnp.ones((len(x), 2)) / 2, x)) if inside else (lambda x: x)
    part = (lambda x: x[1]) if inside else (lambda x: x)
    X = rnd.randn(B, 3) * c['scale']
    if c['kind'] == 'squashed':
        X = np.clip(low + (high - low) * rnd.rand(B, 3) * [[1], [1], [0], [1]], low, high)
        X[1] = high
        expected = X
    else:
        with np.errstate(over='ignore'):
            expected = low + (high - low) / (1 + np.exp(-X))
    integer = space.dtype.kind in 'iu'
    tol = (.5 if integer else 0) + (2e-3 if c['dtype'] == 'float16' else 2e-6) * (1 + np.abs(low) + np.abs(high))
    batch = np.asarray(part(d.postprocess_variate(rng, wrap(jnp.asarray(X, 'float32')), batch_mode=True)))
    for i in range(B):
        y = part(d.postprocess_variate(rng, wrap(jnp.asarray(X, 'float32')), index=i))
        require(space.contains(y) and y.dtype == space.dtype, f'{short(y)} (dtype {y.dtype}) is no element of {space} low={space.low} high={space.high}')
        require(np.all(np.abs(y.astype('float64') - expected[i]) <= tol), f'post-processing {short(X[i])} gives {short(y)} instead of {short(expected[i])} (up to {tol}) in {space}')
        require(np.all(np.abs(batch[i].astype('float64') - y) <= 1e-6 * (1 + np.abs(y))), f'batched post-processing gives {short(batch[i])} instead of {short(y)}')
    for e in (space.low, space.high, np.asarray(low + np.round((high - low) * rnd.randint(0, 17) / 16), space.dtype)):
        e = np.clip(e, space.low, space.high)
        y = part(d.postprocess_variate(rng, d.preprocess_variate(rng, (1, e) if inside else e)))
        require(space.contains(y) and np.all(np.abs(y.astype('float64') - e) <= (0 if integer else tol)), f'{short(e)} came back as {short(y)} in {space}')
    return True


SUBS = [Sub('dtypes', dtype_case, check_dtype, quick=80, thorough=2000, budget=40, split=strata(dtype=DT, kind=['normal', 'squashed', 'inside'])),
        Sub('relaxed', relaxed_case, check_relaxed, quick=30, thorough=600, budget=25, split=strata(kind=['discrete', 'interval'], tau=[None, 0.2, 0.5, 1., 2.])),
        Sub('to_space', case, check, quick=250, thorough=4000, budget=60, split=strata(space=range(len(S.ALL)), what=['sample', 'mode', 'saturate'])),
        Sub('from_space', case_elem, check_elem, quick=250, thorough=4000, budget=50, split=strata(space=range(len(S.ALL)))),
        Sub('frequencies', case_freq, check_freq, quick=60, thorough=600, budget=40, split=strata(space=FREQ)),
        Sub('other', case_other, check_other, quick=60, thorough=800, budget=40, split=strata(kind=['squashed', 'interval']))]
