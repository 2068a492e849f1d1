"""Generated transitions: every field of transition number `uid` is a known function of uid."""
import numpy as np
from hypothesis import strategies as st

OBS = ['scalar', 'int', 'vec', 'mat', 'dict', 'tuple', 'nested', 'img', 'frames']
ACT = ['int', 'vec', 'dict']


def obs(kind, x):
    """a single observation that encodes the number x"""
    if kind == 'scalar':
        return np.float32(x + .25)
    if kind == 'int':
        return np.int64(x)
    if kind == 'vec':
        return np.array([x, -x, x + .5], 'float32')
    if kind == 'mat':
        return (np.arange(4).reshape(2, 2) + 4 * x).astype('float64')
    if kind == 'dict':
        return {'a': np.float32(x), 'b': np.array([x, x + .125], 'float32')}
    if kind == 'tuple':
        return (np.int32(x), np.array([[x]], 'float32'))
    if kind == 'nested':
        return {'p': (np.array([x, 2 * x], 'float32'), np.int32(-x)), 'q': {'r': np.float64(x / 2)}}
    if kind == 'img':
        return ((np.arange(12).reshape(2, 3, 2) * 7 + x) % 251).astype('uint8')
    if kind == 'frames':
        return tuple(np.full((2, 2, 1), x + k, 'int16') for k in range(3))
    raise KeyError(kind)


def act(kind, x):
    if kind == 'int':
        return int(x) % 7
    if kind == 'vec':
        return np.array([x / 4, -x], 'float32')
    if kind == 'dict':
        return {'u': np.int32(x % 5), 'v': np.array([x / 8], 'float32')}
    raise KeyError(kind)


def stack(items):
    import jax
    return jax.tree_util.tree_map(lambda *xs: np.stack([np.asarray(x) for x in xs]), *items)


CFG = st.fixed_dictionaries(dict(obs=st.sampled_from(OBS), act=st.sampled_from(ACT), next=st.booleans(),
                                 extra=st.booleans(), rvec=st.sampled_from([0, 0, 0, 2])))


def fields(cfg, uid):
    """the fields of single transition number uid (no batch axis)"""
    r = np.float64(uid * 0.5 - 3)
    if cfg['rvec']:
        r = r + np.arange(cfg['rvec'])
    out = dict(S=obs(cfg['obs'], uid), A=act(cfg['act'], uid), logP=np.float32(-(uid % 9) / 8),
               Rn=r, In=np.float64([0., .5, .9][uid % 3]), S_next=obs(cfg['obs'], uid + 1000),
               A_next=act(cfg['act'], uid + 1) if cfg['next'] else None,
               logP_next=np.float32(-(uid % 5) / 4) if cfg['next'] else None,
               W=np.float64(1 + (uid % 4) / 4),
               extra_info={'k': (np.int64(uid), np.float32(uid))} if cfg['extra'] else None)
    return out


def batch(cfg, uids):
    from coax.reward_tracing import TransitionBatch
    f = [fields(cfg, u) for u in uids]
    kw = {k: (None if f[0][k] is None else stack([x[k] for x in f])) for k in f[0]}
    return TransitionBatch(**kw)


FIELDS = ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W', 'extra_info')


def same(tb, cfg, uids, what, skip=()):
    """tb holds exactly transitions `uids`, in that order, bit for bit"""
    from lib.pbt import tree_equal, require
    f = [fields(cfg, u) for u in uids]
    for k in FIELDS:
        if k in skip:
            continue
        got = getattr(tb, k)
        if f[0][k] is None:
            require(got is None, f'{what}: field {k} should be absent, got {got!r}')
        else:
            tree_equal(got, stack([x[k] for x in f]), f'{what}: field {k} of transitions {list(uids)}')


def uids_of(tb):
    """read the transition numbers back from the rewards"""
    r = np.asarray(tb.Rn, 'float64')
    r = r.reshape(r.shape[0], -1)[:, 0]
    return [int(round((x + 3) * 2)) for x in r]
