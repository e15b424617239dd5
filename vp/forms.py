"""The same numbers in arrays of other types and memory layouts."""
import numpy as np
from hypothesis import strategies as st

INTS = st.lists(st.tuples(st.integers(-2, 2), st.integers(-2, 2),
                          st.integers(0, 20)), min_size=1, max_size=6)
PLACES = st.tuples(st.sampled_from([0, 10, -118, 179, -179, 45]),
                   st.sampled_from([0, 35, -41, 60]))


def forms(a):
    """name, array: the values of a, which are whole numbers"""
    a = np.asarray(a, dtype=float)
    for dt in ('int64', 'int32', 'int16', 'float32'):
        yield dt, a.astype(dt)
    ro = a.copy()
    ro.setflags(write=False)
    yield 'read only', ro
    wide = np.full(2 * a.size, 1e30)
    wide[::2] = a.ravel()
    yield 'every second element', wide[::2]
    yield 'reversed', a[::-1].copy()[::-1]
    yield 'column major', np.asfortranarray(np.array([a, a[::-1]]))
    yield 'one column', a.reshape(-1, 1)
    yield 'three dimensions', a.reshape(1, -1, 1)
    yield 'big endian', a.astype('>f8')


def same(t, fn, names, cols, tol, only=None):
    """fn(*cols) -> {name: values}; the same for all forms of the columns"""
    cols = [np.asarray(c, dtype=float) for c in cols]
    want = fn(*cols)
    every = list(zip(*[list(forms(c)) for c in cols]))
    if only is not None:
        every = [every[only % len(every)]]
    for fs in every:
        kind = fs[0][0]
        arrs = [f[1] for f in fs]
        keep = [x.copy() for x in arrs]
        got = fn(*arrs)
        t.require(all(np.array_equal(x, k) for x, k in zip(arrs, keep)),
                  '%s arrays were changed', kind)
        for k in names:
            w, g = np.asarray(want[k]), np.asarray(got[k])
            t.require(g.shape == arrs[0].shape, '%s: shape %r for %s arrays '
                      'of shape %r', k, g.shape, kind, arrs[0].shape)
            if kind == 'column major':
                w = np.array([w, w[::-1]])
            t.require(np.allclose(g.ravel(), w.ravel(), rtol=1e-6, atol=tol,
                                  equal_nan=True),
                      '%s of %s arrays: %r, expected %r', k, kind, g, w)
