from hypothesis import strategies as st
from lib.pbt import Sub, require, close, equal, raises, tree_equal, tree_close, chi2_ok, short, strata
import warnings
import jax
import jax.numpy as jnp
import haiku as hk
import numpy as np
import coax
from coax import utils as U
from coax.utils import _array as _A
tree_sample = getattr(U, 'tree_sample', None) or getattr(_A, 'tree_sample', None)

RULE = ('Cases: random arrays / pytrees / functions per helper. Non-trivial: argmax cases with ties or more than one row; pytree '
        'cases with at least two leaves.')
ASSUMPTIONS = ['array entries are finite']

DTYPES = ['float32', 'int32', 'uint8', 'float32', 'int32', 'int8', 'uint32', 'bool']


@st.composite
def case_arg(draw):
    shape = draw(st.sampled_from([[4], [3, 4], [2, 3, 4], [1, 1], [5, 2], [1], [130], [2, 40], [2, 2, 2, 3]]))
    n = int(np.prod(shape))
    return dict(shape=shape, vals=draw(st.lists(st.integers(0, 3), min_size=n, max_size=n) if n < 30 else st.integers(0, 2**31 - 1).map(lambda k: np.random.RandomState(k).randint(0, 4, size=n).tolist())), dtype=draw(st.sampled_from(DTYPES)),
                axis=draw(st.integers(-len(shape), len(shape) - 1)), key=draw(st.integers(0, 10**6)), which=draw(st.sampled_from(['argmax', 'argmin'])),
                big=draw(st.sampled_from([1, 1, 1000, 'near', 'near'])), np=draw(st.booleans()))


def check_arg(c):
    a = np.array(c['vals']).reshape(c['shape'])
    if c['big'] == 'near':      # different, but only just
        a = {'float32': 1 + a * 2. ** -21, 'int32': 2 ** 30 + a, 'uint32': 2 ** 31 + a, 'float16': 1 + a * 2. ** -9, 'int8': a - 128, 'uint8': 255 - a, 'bool': a > 1}[c['dtype']]
    elif c['dtype'] in ('float32', 'int32', 'float16'):
        a = (a - 1) * c['big']
    a = a.astype(c['dtype'])
    f, ext = (U.argmax, a.max) if c['which'] == 'argmax' else (U.argmin, a.min)
    arr = a if c['np'] else jnp.asarray(a)
    rng = jax.random.PRNGKey(c['key'])
    got = np.asarray(f(rng, arr, axis=c['axis']))
    best = ext(axis=c['axis'])
    require(got.shape == best.shape, f'{c["which"]} along axis {c["axis"]} of shape {a.shape} has shape {got.shape}')
    require(np.all((got >= 0) & (got < a.shape[c['axis']])), f'index out of range: {got}')
    picked = np.take_along_axis(a, np.expand_dims(got, c['axis']), c['axis']).squeeze(c['axis'])
    equal(picked, best, f'{c["which"]} does not pick an extreme value of {a.tolist()} along axis {c["axis"]}')
    equal(f(rng, arr, axis=c['axis']), got, 'same key, same choice')
    return a.ndim > 1 or len(set(c['vals'])) < len(c['vals'])


@st.composite
def case_tie(draw):
    return dict(vals=draw(st.one_of(st.lists(st.integers(0, 1), min_size=2, max_size=6), st.lists(st.integers(0, 1), min_size=20, max_size=20))), key=draw(st.integers(0, 10**6)), which=draw(st.sampled_from(['argmax', 'argmin'])))


def check_tie(c):
    """ties are broken uniformly at random"""
    v = np.array(c['vals'], 'float32')
    N = 3000
    f, best = (U.argmax, v.max()) if c['which'] == 'argmax' else (U.argmin, v.min())
    got = np.asarray(f(jax.random.PRNGKey(c['key']), jnp.asarray(np.tile(v, (N, 1))), axis=1))
    p = (v == best) / (v == best).sum()
    chi2_ok(np.bincount(got, minlength=len(v)), p, f'tie breaking over {v.tolist()}')
    return (v == best).sum() > 1


TREES = st.sampled_from(['leaf', 'dict', 'tuple', 'nested'])


def tree(kind, rnd, n=None):
    lead = () if n is None else (n,)
    mk = lambda *s: rnd.randint(-50, 50, size=lead + s).astype('float32')
    return dict(leaf=lambda: mk(3), dict=lambda: {'b': mk(), 'a': mk(2, 2)}, tuple=lambda: (mk(2), mk(1, 3)),
                nested=lambda: {'x': (mk(2), {'y': mk()}), 'z': [mk(1)]})[kind]()


@st.composite
def case_tree(draw):
    return dict(kind=draw(TREES), seed=draw(st.integers(0, 10**6)), n=draw(st.integers(1, 6)), 
                index=draw(st.integers(0, 5)))


def check_tree(c):
    rnd, n = np.random.RandomState(c['seed']), c['n']
    t, T = tree(c['kind'], rnd), tree(c['kind'], rnd, n)
    tm = jax.tree_util.tree_map
    # adding and removing a batch axis
    tree_equal(U.single_to_batch(t), tm(lambda x: np.asarray(x)[None], t), 'single_to_batch')
    i = c['index'] % n
    tree_equal(U.batch_to_single(T, index=i), tm(lambda x: x[i], T), f'batch_to_single at {i}')
    tree_equal(U.batch_to_single(T), tm(lambda x: x[0], T), 'batch_to_single')
    tree_equal(U.batch_to_single(U.single_to_batch(t)), tm(np.asarray, t), 'single -> batch -> single')
    # flattening, diagnostics
    flat = np.concatenate([np.ravel(x) for x in jax.tree_util.tree_leaves(t)])
    equal(U.tree_ravel(t), flat, 'tree_ravel')
    d = U.get_grads_diagnostics(t, key_prefix='p/')
    require(set(d) == {'p/max', 'p/norm'}, f'diagnostics keys {set(d)}')
    close(d['p/max'], np.abs(flat).max(), 'largest gradient magnitude')
    close(d['p/norm'], np.sqrt((flat.astype('float64') ** 2).sum()), 'gradient norm')
    per = U.get_grads_diagnostics(t, keep_tree_structure=True)
    flat_per = jax.tree_util.tree_leaves(per, is_leaf=lambda x: isinstance(x, dict) and set(x) == {'max', 'norm'})
    require(len(flat_per) == len(jax.tree_util.tree_leaves(t)), 'per-leaf diagnostics')
    for x, y in zip(flat_per, jax.tree_util.tree_leaves(t)):
        close(x['norm'], np.sqrt((np.asarray(y, 'float64') ** 2).sum()), 'per-leaf norm')
        close(x['max'], np.abs(y).max(), 'per-leaf max')
    q = U.get_magnitude_quantiles(t, key_prefix='q_')
    for k, f in [('min', 0), ('p25', .25), ('p50', .5), ('p75', .75), ('max', 1)]:
        close(q['q_' + k], np.quantile(np.abs(flat), f), f'magnitude quantile {k}')
    # stacking
    ts = [(tree(c['kind'], rnd), tree(c['kind'], rnd)) for _ in range(3)]
    res = U.stack_trees(tuple(a for a, _ in ts), tuple(b for _, b in ts))
    exp = (tm(lambda *x: np.stack(x), *[a for a, _ in ts]), tm(lambda *x: np.stack(x), *[b for _, b in ts]))
    tree_equal(tuple(res), exp, 'stack_trees')
    # row sampling
    probs = None
    if c['index'] % 2:
        w = rnd.randint(0, 3, size=n).astype('float64') + np.eye(n)[rnd.randint(n)]
        probs = w / w.sum()
    rep = bool(rnd.randint(2))
    k = rnd.randint(1, 2 * n + 1) if rep else rnd.randint(1, (n if probs is None else int((probs > 0).sum())) + 1)
    T2 = (T, np.arange(n))
    key = jax.random.PRNGKey(c['seed'])
    kw = {} if k == 1 and not rep and c['seed'] % 2 else dict(n=k, replace=rep)
    if probs is not None:
        kw['p'] = jnp.asarray(probs)
    smp = tree_sample(T2, key, **kw)
    ix = np.asarray(smp[1])
    require(ix.shape == (k,) and np.all((ix >= 0) & (ix < n)), f'sampled rows {ix}')
    tree_equal(smp[0], tm(lambda x: x[ix], T), 'sampled rows are consistent over the leaves')
    require(rep or len(set(ix.tolist())) == k, f'rows {ix} sampled without replacement')
    require(probs is None or np.all(probs[ix] > 0), f'rows {ix} sampled with probabilities {probs}')
    tree_equal(tree_sample(T2, key, **kw), smp, 'same key, same sample')
    return c['kind'] != 'leaf'


@st.composite
def case_unvec(draw):
    return dict(kind=draw(TREES), seed=draw(st.integers(0, 10**6)), nout=draw(st.sampled_from(['one', 'tuple', 'none', 'mixed', 'tree', 'unit'])),
                mixed=draw(st.booleans()))


def check_unvec(c):
    rnd = np.random.RandomState(c['seed'])
    t = tree(c['kind'], rnd)
    tm = jax.tree_util.tree_map
    seen = []

    def summ(x):
        return sum(jnp.sum(l.reshape(l.shape[0], -1), axis=1) for l in jax.tree_util.tree_leaves(x))

    def f(w, x):
        seen.append([l.shape for l in jax.tree_util.tree_leaves(x)])
        y = summ(x) * w
        return dict(one=y, tuple=(y, y + 1), none=y, mixed=(y, jnp.asarray([7., 8.])), tree={'a': y, 'b': y[:, None] * jnp.arange(3.), 'c': y[:, None]}, unit=(y[:, None], y[:, None, None] * jnp.ones((1, 2))))[c['nout']]

    out_axes = dict(one=0, tuple=0, none=None, mixed=(0, None), tree=0, unit=0)[c['nout']]
    g = coax.unvectorize(f, in_axes=(None, 0), out_axes=out_axes)
    y = 3 * sum(float(np.sum(l)) for l in jax.tree_util.tree_leaves(t))
    out = g(3., t)
    exp = dict(one=np.float32(y), tuple=(np.float32(y), np.float32(y + 1)), none=np.asarray([y], 'float32'), mixed=(np.float32(y), np.array([7., 8.], 'float32')),
               tree={'a': np.float32(y), 'b': np.float32(y) * np.arange(3.), 'c': np.full(1, y, 'float32')}, unit=(np.full(1, y, 'float32'), np.full((1, 2), y, 'float32')))[c['nout']]
    tree_close(out, exp, f'unvectorized function, {c["nout"]} output')
    require(seen[-1] == [(1,) + l.shape for l in jax.tree_util.tree_leaves(t)], f'the wrapped function did not receive batches of one: {seen[-1]}')
    h = coax.unvectorize(lambda a, b: summ(a) - summ(b))
    close(h(t, t), 0., 'unvectorized function, default axes')
    h1 = coax.unvectorize(lambda a: a * 2, in_axes=1, out_axes=1)
    x = rnd.randn(3, 2)
    close(h1(jnp.asarray(x)), 2 * x, 'unvectorized along axis 1')
    raises(ValueError, lambda: g(1., t, t), 'wrong number of inputs')
    raises(TypeError, lambda: coax.unvectorize(lambda a: a, out_axes=(0,))(jnp.ones(2)), 'a tuple of out_axes for a single output')
    raises(ValueError, lambda: coax.unvectorize(lambda a: (a, a), out_axes=(0, 0, 0))(jnp.ones(2)), 'wrong number of out_axes')
    return c['kind'] != 'leaf'


@st.composite
def case_misc(draw):
    return dict(seed=draw(st.integers(0, 10**6)), frames=draw(st.integers(1, 6)), m=draw(st.integers(1, 4)),
                w=draw(st.sampled_from([None, [1., 2., 3.], [0.5, 0.25, 4.], [1., 1., 1.]])),
                x=draw(st.lists(st.floats(0, 1, width=32), min_size=3, max_size=3)))


def check_misc(c):
    rnd = np.random.RandomState(c['seed'])
    # frame differencing: (..., position) -> finite differences of increasing order, newest first from the right
    X = rnd.randint(-9, 9, size=(2, 3, c['frames'])).astype('float32')
    got = np.asarray(U.diff_transform(jnp.asarray(X)))
    exp = np.stack([np.diff(X, n=c['frames'] - 1 - j, axis=-1)[..., -1] for j in range(c['frames'])], axis=-1)
    close(got, exp, 'frame differencing', atol=1e-3)
    close(np.dot(X, np.asarray(U.diff_transform_matrix(c['frames']))), exp, 'frame differencing matrix', atol=1e-3)
    # double relu keeps all information
    sh = [(2, 3), (3,), (2, 4, 3), (1, 1, 2, 3)][rnd.randint(4)]
    a = rnd.randn(*sh).astype('float32')
    d = np.asarray(U.double_relu(jnp.asarray(a)))
    require(d.shape == sh[:-1] + (6,), f'double_relu shape {d.shape}')
    close(d[..., :3] + d[..., 3:], a, 'double_relu halves add up to the input')
    require(np.all(d[..., :3] <= 0) and np.all(d[..., 3:] >= 0) and np.all(d[..., :3] * d[..., 3:] == 0), f'double_relu halves {d}')
    # logit
    x = np.array(c['x'], 'float64')
    lg = np.asarray(U.clipped_logit(jnp.asarray(x, 'float32')), 'float64')
    require(np.all(np.isfinite(lg)), f'clipped_logit({x}) = {lg}')
    close(lg, np.log(np.maximum(x, 1e-15)) - np.log(np.maximum(1 - x, 1e-15)), 'clipped_logit', rtol=1e-4, atol=1e-4)
    le = np.asarray(U.clipped_logit(jnp.asarray(x, 'float32'), epsilon=0.05), 'float64')
    close(le, np.log(np.maximum(x, 0.05)) - np.log(np.maximum(1 - x, 0.05)), 'clipped_logit with a large epsilon', rtol=1e-4, atol=1e-4)
    # merging
    ds = [{f'k{rnd.randint(8)}': i for _ in range(2)} for i in range(3)]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        merged = U.merge_dicts(*ds)
    exp = {}
    for x_ in ds:
        exp.update(x_)
    require(merged == exp, f'merge_dicts({ds}) = {merged}')
    overlap = any(set(ds[i]) & set(ds[j]) for i in range(3) for j in range(i))
    require(bool(w) == overlap, f'merge_dicts warns iff keys overlap: {ds}')
    # shared parameters
    mods = ['A', 'B', 'C', 'D']
    ps = []
    num = int(rnd.randint(1, 6))
    ws = None if c['w'] is None else [float(x_) for x_ in np.resize(c['w'], num)]
    for _ in range(num):
        own = [m for m in mods if rnd.rand() < .7]
        ps.append(hk.data_structures.to_haiku_dict({m: {'w': rnd.randn(2).astype('float32'), 'b': rnd.randn().__float__()} for m in own}))
    before = [{m: {k: np.array(v) for k, v in d_.items()} for m, d_ in p.items()} for p in ps]
    out = U.sync_shared_params(*ps, weights=ws)
    ws = ws or [1.] * num
    require(len(out) == num, f'{len(out)} parameter sets instead of {num}')
    for p, q in zip(before, ps):
        require(set(p) == set(q), 'the modules of an argument were changed')
        for m in p:
            for k in p[m]:
                equal(q[m][k], p[m][k], f'sync_shared_params changed its argument, parameter {k} of module {m}')
    for p, o in zip(before, out):
        require(set(o) == set(p), f'modules {set(o)} != {set(p)}')
        for m in p:
            share = [(w_, b[m]) for w_, b in zip(ws, before) if m in b]
            for k in ('w', 'b'):
                e = sum(w_ * b[k] for w_, b in share) / sum(w_ for w_, _ in share)
                close(np.asarray(o[m][k]), e, f'parameter {k} of module {m} (shared by {len(share)})')
    if num > 1:
        raises(ValueError, lambda: U.sync_shared_params(*ps, weights=[1.] * (num + 1)), 'wrong number of weights')
    for v, e in [(1, True), (1.5, True), (np.float32(2), True), (np.array([3.]), True), (np.array(4.), True), (jnp.ones(()), True), (jnp.ones(2), False), (np.zeros((2, 1)), False)]:
        require(bool(U.isscalar(v)) == e, f'isscalar({v!r})')
    equal(U.idx(jnp.zeros((3, 5)), axis=1), np.arange(5), 'idx along axis 1')
    return True


@st.composite
def case_carr(draw):
    return dict(shape=draw(st.lists(st.integers(1, 3), min_size=0, max_size=3)), dtype=draw(st.sampled_from(['float32', 'int32'])),
                kind=draw(st.sampled_from(['ndim', 'ndims', 'ndim_min', 'ndim_max', 'dtype', 'dtypes', 'shape', 'axis_size', 'axis_sizes', 'np'])), v=draw(st.integers(0, 3)))


def check_carr(c):
    a = jnp.zeros(c['shape'], c['dtype'])
    k, v, nd = c['kind'], c['v'], len(c['shape'])
    if k == 'np':
        b = np.zeros(c['shape'])
        raises(TypeError, lambda: U.check_array(b), 'numpy input')
        U.check_array(b, except_np=True)
        raises(TypeError, lambda: U.check_array([1, 2], except_np=True), 'list input')
        return True
    kw, ok = dict(ndim=(dict(ndim=v), nd == v), ndims=(dict(ndim=(v, v + 1)), nd in (v, v + 1)), ndim_min=(dict(ndim_min=v), nd >= v),
                  ndim_max=(dict(ndim_max=v), nd <= v), dtype=(dict(dtype='int32'), c['dtype'] == 'int32'),
                  dtypes=(dict(dtype=('int32', 'float32')), True), shape=(dict(shape=tuple([1] * v)), tuple(c['shape']) == tuple([1] * v)),
                  axis_size=(dict(axis_size=v, axis=0), nd > 0 and c['shape'][0] == v),
                  axis_sizes=(dict(axis_size=(v, v + 1), axis=-1), nd > 0 and c['shape'][-1] in (v, v + 1)))[k]
    if k.startswith('axis_size') and nd == 0:
        return False
    if ok:
        U.check_array(a, **kw)
    else:
        raises(TypeError, lambda: U.check_array(a, **kw), f'array {a.shape} {a.dtype} against {kw}')
    return True


SUBS = [Sub('arg', case_arg, check_arg, quick=250, thorough=4000, budget=40, split=strata(which=['argmax', 'argmin'])),
        Sub('ties', case_tie, check_tie, quick=40, thorough=400, budget=30, split=strata(which=['argmax', 'argmin'])),
        Sub('trees', case_tree, check_tree, quick=100, thorough=2000, budget=50, split=strata(kind=['leaf', 'dict', 'tuple', 'nested'])),
        Sub('unvectorize', case_unvec, check_unvec, quick=60, thorough=1000, budget=40, split=strata(nout=['one', 'tuple', 'none', 'mixed', 'tree', 'unit'])),
        Sub('misc', case_misc, check_misc, quick=60, thorough=1000, budget=40),
        Sub('check_array', case_carr, check_carr, quick=150, thorough=1000, budget=20, split=strata(kind=['ndim', 'ndims', 'ndim_min', 'ndim_max', 'dtype', 'dtypes', 'shape', 'axis_size', 'axis_sizes', 'np']))]
