"""Generators and comparisons shared by the HDF container checks."""
import numpy as np
from hypothesis import strategies as st

from vp.gen import fl

text = st.text(st.characters(exclude_characters='\0', exclude_categories=['Cs']),
               max_size=12)
longtext = st.tuples(text, st.integers(1, 4000)).map(lambda c: (c[0] or 'x') * c[1])
anytext = st.one_of(text, text, longtext, st.sampled_from(
    ['', ' ', 'ends ', 'a\nb', 'é☃', '{"a": 1}', 'null']))
jtext = st.text(max_size=8)
scalar = st.one_of(st.none(), st.booleans(), st.integers(-2**40, 2**40),
                   st.builds(
                       lambda k, d: 2**k + d, st.integers(50, 90),
                       st.integers(-9, 9)), st.floats(allow_nan=False),
                   fl(-1e12, 1e12), jtext)
jvalue = st.recursive(scalar, lambda c: st.one_of(
    st.lists(c, max_size=4), st.dictionaries(jtext, c, max_size=4)),
    max_leaves=8)
jdict = st.dictionaries(jtext, jvalue, max_size=5)
jlist = st.one_of(st.lists(scalar, max_size=6), st.lists(jvalue, max_size=4))
name = st.one_of(st.sampled_from(['a', 'b', 'config', 'x.json', 'é', 'A', 'dictionaries', 'long name with spaces']),
                 st.sampled_from(['a', 'b']))

meta = st.dictionaries(
    st.sampled_from(['units', 'k', 'nx', 'long key', 'é']),
    st.one_of(st.integers(-2**31, 2**31), fl(-1e9, 1e9), text, st.booleans(),
              st.lists(fl(-10, 10), min_size=1, max_size=3)), max_size=4)

DT = ['f8', 'f4', 'i8', 'i4', 'u1', '?', 'S', 'i2', 'u8', 'f2', 'c16', '>f8',
      '>i4']


def arr(ndims=(1, 2, 3), dts=DT):
    def shape(nd):
        return st.lists(st.one_of(st.integers(1, 4), st.integers(0, 40) if nd < 3
                                  else st.integers(0, 6)),
                        min_size=nd, max_size=nd)
    return st.tuples(st.sampled_from(dts),
                     st.sampled_from(ndims).flatmap(shape).map(tuple),
                     st.integers(0, 10**6))


def build(spec):
    """Deterministic array from (dtype, shape, key)."""
    dt, shape, key = spec
    n = int(np.prod(shape))
    base = (np.arange(n, dtype='i8') * 7919 + key) % 1000003
    if dt == 'S':
        a = np.array([('id%d' % v).encode() for v in base], dtype='S9')
    elif dt == '?':
        a = base % 2 == 0
    elif dt in ('f8', 'f4'):
        a = ((base - 500000) / 7.0).astype(dt)
        if n > 2 and key % 3 == 0:
            a[1] = np.nan
        if n > 3 and key % 5 == 0:
            a[2] = np.inf
    elif dt == 'u1':
        a = (base % 256).astype('u1')
    elif dt == 'c16':
        a = (base - 500000) / 7.0 + 1j * (base % 1000)
    elif dt in ('f2', '>f8'):
        a = ((base % 60000 - 30000) / 7.0).astype(dt)
    elif dt == 'u8':
        a = base.astype(dt) + np.uint64(2**63)
    else:
        a = (base - 500000).astype(dt)
    if key % 7 == 0:
        return np.asfortranarray(a.reshape(shape))
    if key % 7 == 1:
        return np.repeat(a, 2)[::2].reshape(shape)[::-1]
    return a.reshape(shape)


def same_array(a, b):
    a = np.asarray(a)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'f':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def same_meta(got, exp):
    if set(got) != set(exp):
        return False
    for k, v in exp.items():
        g = got[k]
        if isinstance(v, list):
            if not np.array_equal(np.asarray(g), np.asarray(v)):
                return False
        elif isinstance(v, str):
            if not (isinstance(g, str) and g == v):
                return False
        elif not (g == v):
            return False
    return True


def same_json(a, b):
    """Equality that tells True from 1 and 1 from 1.0 apart."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same_json, a, b))
    return a == b
