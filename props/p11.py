from hypothesis import strategies as st
from lib.pbt import Sub, require, close
import jax
import jax.numpy as jnp
import numpy as np
from coax.value_transforms import LogTransform, ValueTransform

RULE = ('Cases: (scale 1e-2..1e3, arrays of values up to 1e30 times the scale incl. 0, shapes, jitted or not). Non-trivial: both '
        'signs and magnitudes above and below the scale occur.')
ASSUMPTIONS = ['float32 arithmetic: tolerance relative to |x| + scale']


@st.composite
def case(draw):
    scale = draw(st.one_of(st.sampled_from([1., 7., 0.01, 1000.]), st.floats(0.01, 1000)))
    rel = draw(st.lists(st.one_of(st.sampled_from([0., 1., -1., 1e-4, -1e4, 1e6, 1e12, -1e20, 1e30]), st.floats(-10, 10, width=32), st.floats(-1e5, 1e5, width=32)),
                        min_size=7, max_size=7))
    return dict(scale=scale, rel=rel, jit=draw(st.booleans()), shape=draw(st.sampled_from(['1d', '2d', 'scalar'])), default=draw(st.booleans()))


def check(c):
    s = c['scale']
    t = LogTransform(scale=s)
    if c['default'] and s == 1.:
        t = LogTransform()
    f, g = t
    require(f is t.transform_func and g is t.inverse_func, 'unpacking gives (transform, inverse)')
    if c['jit']:
        f, g = jax.jit(f), jax.jit(g)
    x = (np.array(c['rel'], 'float64') * s).astype('float32').astype('float64')
    if c['shape'] == '2d':
        x = x.reshape(1, -1)
    elif c['shape'] == 'scalar':
        x = x[0]
    xj = jnp.asarray(x, 'float32')
    y = np.asarray(f(xj), 'float64')
    close(y, np.sign(x) * s * np.log1p(np.abs(x) / s), 'sign(x) * scale * log(1 + |x|/scale)', rtol=1e-4, atol=3e-6 * s)
    tol = 3e-5 * (np.abs(x) + s)
    back = np.asarray(g(f(xj)), 'float64')
    require(back.shape == x.shape and np.all(np.abs(back - x) <= tol), f'inverse(transform(x)) = {back} for x = {x} (scale {s})')
    yy = np.clip(x, -60 * s, 60 * s)
    fw = np.asarray(f(g(jnp.asarray(yy, 'float32'))), 'float64')
    require(np.all(np.abs(fw - yy) <= 3e-5 * (np.abs(yy) + s)), f'transform(inverse(y)) = {fw} for y = {yy} (scale {s})')
    close(np.asarray(f(-xj)), -y, 'odd symmetry', rtol=1e-6)
    require(np.all(np.asarray(f(jnp.zeros(3))) == 0) and np.all(np.asarray(g(jnp.zeros(3))) == 0), 'zero is a fixed point')
    xs = np.sort(np.ravel(x))
    ys = np.asarray(f(jnp.asarray(xs, 'float32')), 'float64')
    require(np.all(np.diff(ys) >= -1e-6 * s - 1e-6 * np.abs(ys[1:])), f'not monotone: {xs} -> {ys}')
    require(np.all(np.abs(y) <= np.abs(x) * (1 + 1e-5) + 1e-6 * s), f'magnitude grows: {x} -> {y}')
    big = np.abs(x) > s
    a, b = (lambda v: 2 * v + 1), (lambda v: (v - 1) / 2)
    vt = ValueTransform(a, b)
    require(vt.transform_func is a and vt.inverse_func is b and tuple(vt) == (a, b), 'user-defined transform keeps its two functions')
    return bool(np.any(big) and not np.all(big) and np.any(x < 0) and np.any(x > 0))


SUBS = [Sub('log', case, check, quick=250, thorough=10000, budget=40)]
