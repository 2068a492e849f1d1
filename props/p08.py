from hypothesis import strategies as st
from lib.pbt import Sub, require, close, tree_close, strata
from lib import spaces as S
import jax
import jax.numpy as jnp
import numpy as np
from coax.proba_dists import CategoricalDist, NormalDist, SquashedNormalDist
from gymnasium.spaces import Box, Discrete

RULE = ('Cases: (space out of 18 incl. nested Tuple/Dict/MultiDiscrete/MultiBinary, batch 1/2/5, two parameter sets, evaluation '
        'points). Non-trivial: the two parameter sets differ.')
ASSUMPTIONS = ['log-variances within the clipping range, except in the dedicated clipping case', 'Discrete spaces start at 0',
               'float32 arithmetic: relative tolerance 1e-4']


@st.composite
def case(draw):
    return dict(space=draw(st.integers(0, len(S.ALL) - 1)), batch=draw(st.sampled_from([1, 2, 5, 40])), p=draw(st.integers(0, 2**20)),
                q=draw(st.integers(0, 2**20)), mp=draw(S.MODES), mq=draw(S.MODES), x=draw(st.integers(0, 2**20)),
                row=draw(st.integers(0, 4)))


def outcome(leaf, rnd, batch):
    if leaf['t'] == 'discrete':
        return np.eye(leaf['n'], dtype='float32')[rnd.randint(leaf['n'], size=batch)]
    return (rnd.randn(batch, *leaf['shape']) * 2).astype('float32').reshape(batch, *leaf['shape'])


def check(c):
    spec, B = S.ALL[c['space']], c['batch']
    d = S.dist(spec)
    p, q = S.params(spec, c['p'], B, c['mp']), S.params(spec, c['q'], B, c['mq'])
    rnd = np.random.RandomState(c['x'])
    X = jax.tree_util.tree_map(jnp.asarray, S.build(spec, lambda path, leaf: outcome(leaf, rnd, B)))
    comps = S.components(spec)
    tol = dict(rtol=2e-4, atol=2e-4)
    ref = lambda f, *ts: sum(f(leaf, *[S.get(t, path) for t in ts]) for path, leaf in comps)
    close(d.log_proba(p, X), ref(S.ref_logp, p, X), f'log-probability, space {spec}', **tol)
    close(d.entropy(p), ref(S.ref_entropy, p), f'entropy, space {spec}', **tol)
    kl = d.kl_divergence(p, q)
    close(kl, ref(S.ref_kl, p, q), f'KL divergence, space {spec}', rtol=5e-4, atol=5e-4)
    require(np.all(np.asarray(kl) > -1e-3 * (1 + np.abs(kl))), f'negative KL divergence {kl}')
    close(d.kl_divergence(p, p), np.zeros(B), 'KL(p, p)', atol=1e-4)
    close(d.cross_entropy(p, q), ref(S.ref_entropy, p) + ref(S.ref_kl, p, q), f'cross-entropy = entropy + KL, space {spec}', rtol=5e-4, atol=5e-4)

    # mean and mode
    mean, mode = d.mean(p), d.mode(p)
    for path, leaf in comps:
        pp, me, mo = S.get(p, path), np.asarray(S.get(mean, path)), np.asarray(S.get(mode, path))
        if leaf['t'] == 'discrete':
            lp = S.log_softmax(pp['logits'])
            close(me, np.exp(lp), f'mean of component {path}', **tol)
            require(mo.shape == lp.shape and np.allclose(mo.sum(-1), 1, atol=1e-4) and np.all(mo >= 0), f'mode of component {path} is not on the simplex: {mo}')
            for b in range(B):
                top = lp[b] >= lp[b].max() - 1e-6
                require(top[np.argmax(mo[b])], f'mode of component {path} does not maximise the probability: {mo[b]} vs log-probs {lp[b]}')
        else:
            close(me, pp['mu'], f'mean of component {path}', rtol=1e-6)
            close(mo, pp['mu'], f'mode of component {path}', rtol=1e-6)

    # the default prior: uniform over outcomes, standard normal
    prior = d.default_priors
    require(d.dist_params_structure == jax.tree_util.tree_structure(p), f'dist_params_structure {d.dist_params_structure}')
    for path, leaf in comps:
        pp = S.get(prior, path)
        for k, shape in ([('logits', (1, leaf['n']))] if leaf['t'] == 'discrete' else [(k, (1, *leaf['shape'])) for k in ('mu', 'logvar')]):
            require(np.shape(pp[k]) == shape and np.all(np.asarray(pp[k]) == 0), f'default prior {k} of component {path} is {pp[k]}')
    # rows of a batch do not influence one another
    r = c['row'] % B
    one = lambda t: jax.tree_util.tree_map(lambda x: x[r:r + 1], t)
    close(d.log_proba(one(p), one(X)), np.asarray(d.log_proba(p, X))[r:r + 1], 'row of log-probability', **tol)
    close(d.entropy(one(p)), np.asarray(d.entropy(p))[r:r + 1], 'row of entropy', **tol)
    close(d.kl_divergence(one(p), one(q)), np.asarray(kl)[r:r + 1], 'row of KL', **tol)
    return (c['p'], c['mp']) != (c['q'], c['mq'])


@st.composite
def case_mass(draw):
    return dict(n=draw(st.integers(1, 9)), seed=draw(st.integers(0, 2**20)), mode=draw(S.MODES), spec=draw(st.sampled_from([4, 5, 7])),
                lv=draw(st.sampled_from([-60., -25., 25., 60.])))


def check_mass(c):
    """probabilities sum to one over all outcomes; log-variance clipping is the documented one"""
    d = CategoricalDist(Discrete(c['n'])) if c['n'] > 5 else S.dist(dict(t='discrete', n=c['n']))
    rnd = np.random.RandomState(c['seed'])
    p = S.leaf_params(dict(t='discrete', n=c['n']), rnd, 3, c['mode'])
    p = {'logits': jnp.asarray(p['logits'])}
    tot = sum(np.exp(np.asarray(d.log_proba(p, jnp.asarray(np.eye(c['n'], dtype='float32')[[k] * 3]))).astype('float64')) for k in range(c['n']))
    close(tot, np.ones(3), 'total probability', atol=1e-4)
    spec = S.ALL[c['spec']]
    dn = S.dist(spec)
    pn = S.params(spec, c['seed'], 2, 'normal')
    far = dict(pn, logvar=jnp.full_like(pn['logvar'], c['lv']))
    clip = dict(pn, logvar=jnp.full_like(pn['logvar'], np.clip(c['lv'], -20, 20)))
    close(dn.entropy(far), dn.entropy(clip), 'entropy with clipped log-variance')
    close(dn.kl_divergence(clip, far), np.zeros(2), 'KL to the clipped log-variance', atol=1e-4)
    return c['n'] > 1


SQ = [dict(low=-1., high=1., shape=[2]), dict(low=-3., high=3., shape=[1]), dict(low=[0., -2.], high=[1., 5.], shape=[2]),
      dict(low=-0.5, high=2.5, shape=[2, 2]), dict(low=1., high=4., shape=[])]
_sq = {}


@st.composite
def case_sq(draw):
    return dict(space=draw(st.integers(0, len(SQ) - 1)), seed=draw(st.integers(0, 2**20)), batch=draw(st.sampled_from([1, 3])))


def check_sq(c):
    """tanh-squashed normal: change of variables"""
    k = c['space']
    spec = SQ[k]
    if k not in _sq:
        _sq[k] = SquashedNormalDist(S.make(dict(t='box', **spec)))
    d = _sq[k]
    B, rnd = c['batch'], np.random.RandomState(c['seed'])
    leaf = dict(t='box', **spec)
    p = S.leaf_params(leaf, rnd, B, 'normal')
    q = S.leaf_params(leaf, rnd, B, 'normal')
    shape = (B, *spec['shape'])
    z = rnd.uniform(-2, 2, size=shape)
    low, high = np.broadcast_to(spec['low'], shape[1:]), np.broadcast_to(spec['high'], shape[1:])
    scale, off = (high - low) / 2, (high + low) / 2
    x = np.tanh(z) * scale + off
    pj = jax.tree_util.tree_map(jnp.asarray, p)
    qj = jax.tree_util.tree_map(jnp.asarray, q)
    jac = np.log(np.broadcast_to(scale, shape) * (1 - np.tanh(z) ** 2)).reshape(B, -1).sum(-1)
    close(d.log_proba(pj, jnp.asarray(x, 'float32')), S.ref_logp(leaf, p, z) - jac, f'log-density, Box {spec}', rtol=1e-3, atol=3e-3)
    # close to the edges of the box: the density at the very number that is passed in
    pe = {'mu': rnd.uniform(-2, 2, size=shape).astype('float32'), 'logvar': rnd.uniform(0, 1, size=shape).astype('float32')}
    y = (1 - 2. ** -rnd.randint(8, 15, size=shape)) * rnd.choice([-1, 1], size=shape)
    xe = np.asarray(y * scale + off, 'float32')
    ye = (xe.astype('float64') - off) / scale
    ok = np.abs(ye) < 1 - 2. ** -16
    ze = np.arctanh(np.where(ok, ye, 0))
    jac = np.log(np.broadcast_to(scale, shape) * (1 - np.tanh(ze) ** 2)).reshape(B, -1).sum(-1)
    rows = ok.reshape(B, -1).all(-1)
    got = np.asarray(d.log_proba(jax.tree_util.tree_map(jnp.asarray, pe), jnp.asarray(xe)))
    close(got[rows], (S.ref_logp(leaf, pe, ze) - jac)[rows], f'log-density close to the edges, Box {spec}', rtol=5e-3, atol=0.05)
    close(d.mean(pj), np.tanh(p['mu']) * scale + off, 'centre of the squashed distribution', rtol=1e-4, atol=1e-4)
    close(d.mode(pj), np.tanh(p['mu']) * scale + off, 'greedy value of the squashed distribution', rtol=1e-4, atol=1e-4)
    close(d.kl_divergence(pj, qj), S.ref_kl(leaf, p, q), 'KL is invariant under squashing', rtol=1e-3, atol=1e-3)
    return True


SUBS = [Sub('laws', case, check, quick=250, thorough=4000, budget=70, split=strata(space=range(len(S.ALL)))),
        Sub('mass', case_mass, check_mass, quick=60, thorough=800, budget=30, split=strata(spec=[4, 5, 7])),
        Sub('squashed', case_sq, check_sq, quick=60, thorough=1000, budget=30, split=strata(space=range(len(SQ))))]
