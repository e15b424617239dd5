"""C01: HDFContainer / HDFContainerBase as named stores."""
import os

import numpy as np
from hypothesis import strategies as st

from vp.core import sub
from vp.gen import fl
from vp.util import scratch, failed
from vp import hdfgen as g

# ---- data frames (flat container only) -----------------------------------
word = st.text('abcdefgh XYZ', min_size=1, max_size=6).map(lambda s: 'w' + s)
EL = {'f': st.one_of(fl(-1e6, 1e6), st.floats(width=64),
                     st.sampled_from([0.1, 1.0, 1e-12, 123456789.12345678,
                                      float('inf'), 5e-324, -0.0])),
      'g': st.floats(width=32),
      'i': st.integers(-2**63, 2**63 - 1),
      'j': st.integers(-2**31, 2**31 - 1),
      # text that looks like something else
      's': st.one_of(word, st.none(), st.text(
          st.characters(exclude_categories=['Cs']), max_size=6), st.sampled_from(
          ['010', '7', '1.50', 'true', 'null', 'NaN', '', '2010-01-01', '1e5',
           '20100101T000000Z', ' x ', 'None', '-', 'é☃'])),
      'b': st.booleans(),
      # nanoseconds since 1970
      't': st.one_of(st.integers(10**11, 4 * 10**12).map(
          lambda v: v * 10**6), st.integers(-5 * 10**18, 9 * 10**18),
          st.none()),
      'z': st.integers(-5 * 10**18, 9 * 10**18)}
NAMES = ['date', 'modified', 'created_at', '1', 'index', 'é', 'lat', '']


@st.composite
def frame(draw):
    n = draw(st.integers(0, 12))
    kinds = draw(st.lists(st.sampled_from(sorted(EL)), min_size=1,
                          max_size=4))
    cols = []
    for j, k in enumerate(kinds):
        nm = draw(st.one_of(st.just('col%d%s' % (j, k)),
                            st.sampled_from(NAMES)))
        if nm in [c[0] for c in cols]:
            nm = 'col%d%s' % (j, k)
        cols.append((nm, k, draw(st.lists(EL[k], min_size=n, max_size=n))))
    ik = draw(st.sampled_from(['', '', 'i', 's', 't']))
    index = None
    if ik:
        el = {'i': st.integers(-30, 30), 's': st.one_of(
            word, st.sampled_from(['10', '2', '010', '2010-01-01', '1.5'])),
            't': EL['z']}[ik]
        index = [ik, draw(st.sampled_from([None, 'id', 'a b'])),
                 draw(st.lists(el, min_size=n, max_size=n, unique=True))]
    return cols, index


def column(k, v):
    import pandas as pd
    if k in 'tz':
        s = pd.Series(pd.to_datetime(
            pd.Series(v, dtype='Int64'), unit='ns', utc=k == 'z'))
        return s.dt.tz_convert('Asia/Tokyo') if k == 'z' else s
    return pd.Series(v, dtype={'f': 'f8', 'g': 'f4', 'i': 'i8', 'j': 'i4',
                               's': object, 'b': bool}[k])


def build_frame(spec):
    import pandas as pd
    cols, index = spec
    df = pd.DataFrame({c: column(k, v) for c, k, v in cols})
    if index:
        ik, nm, v = index
        df.index = pd.Index(pd.to_datetime(v, unit='ns') if ik == 't' else v,
                            dtype={'i': 'i8', 's': object,
                                   't': 'datetime64[ns]'}[ik], name=nm)
    return df


def same_frame(df, spec):
    cols, index = spec
    exp = build_frame(spec)
    if list(df.columns) != [c for c, _, _ in cols]:
        return 'columns %r' % list(df.columns)
    if len(df) != len(exp):
        return 'rows %d' % len(df)
    if list(df.index) != list(exp.index):
        return 'row labels %r, stored %r' % (list(df.index)[:5],
                                             list(exp.index)[:5])
    if list(df.index.names) != list(exp.index.names):
        return 'index name %r' % df.index.names
    for c, k, v in cols:
        if df[c].dtype != exp[c].dtype:
            return 'column %r of type %s read as %s' % (c, exp[c].dtype,
                                                        df[c].dtype)
        for a, b in zip(df[c].tolist(), exp[c].tolist()):
            if not (a is b or (a != a and b != b) or a == b and
                    type(a) is type(b)):
                return 'column %r: %r, stored %r' % (c, a, b)
    return ''


# ---- operations -----------------------------------------------------------
value = {
    'string': g.anytext,
    'dict': g.jdict,
    'list': g.jlist,
    'array': st.tuples(g.arr(), st.one_of(st.none(), g.meta), st.booleans()),
    'frame': frame(),
}
CAP = {'string': 'String', 'dict': 'Dictionary', 'list': 'List',
       'array': 'Array', 'frame': 'DataFrame'}
PLURAL = {'string': 'getStrings', 'dict': 'getDictionaries',
          'list': 'getLists', 'array': 'getArrays', 'frame': 'getDataFrames'}


def ops(kinds, grouped):
    kind = st.sampled_from(kinds)
    groups = (st.lists(st.sampled_from(['g', 'h', 'a', 'é']), max_size=3)
              if grouped else st.just([]))
    setop = st.sampled_from(kinds).flatmap(
        lambda k: st.tuples(st.just('set'), st.just(k), groups, g.name,
                            value[k]))
    return st.lists(st.one_of(
        setop, setop, setop,
        st.tuples(st.just('drop'), kind, groups, g.name),
        st.tuples(st.just('drophit'), kind, st.integers(0, 9)),
        st.tuples(st.just('resethit'), kind, st.integers(0, 9)),
        st.tuples(st.just('get'), kind, groups, g.name),
        st.tuples(st.just('bad'), kind, groups, g.name, st.integers(0, 3)),
        st.tuples(st.just('reopen')),
    ), min_size=4, max_size=18)


BAD = {
    'string': [12, None, 'nul\0inside', b'x'],
    'dict': [{'a': object()}, {'a': {1, 2}}, {(1, 2): 3}, {'x': b'bytes'}],
    'list': [[object()], [{1, 2}], [b'x'], [1, [object()]]],
    'array': ['unicode', 'metaNone', 'metaDict', 'object'],
    'frame': [3, 'text', None, [1]],
}


def run(case, t, grouped):
    import warnings
    warnings.simplefilter('ignore')
    if grouped:
        from impactutils.io.smcontainers import HDFContainerBase as C
    else:
        from impactutils.io.container import HDFContainer as C
    with scratch() as d:
        path = os.path.join(d, 'c.h5')
        c = C.create(path)
        try:
            _run(case, t, grouped, C, c, path)
        finally:
            pass


def _run(case, t, grouped, C, c, path):
    kinds = (['string', 'dict', 'array'] if grouped else
             ['string', 'dict', 'list', 'array', 'frame'])
    model = {k: {} for k in kinds}      # kind -> {(groups, name): value}
    used_groups = {k: set() for k in kinds}

    def A(groups, nm):
        return (list(groups), nm) if grouped else (nm,)

    def store(k, groups, nm, v):
        if k == 'array':
            spec, md, comp = v
            f = getattr(c, 'setArray')
            return f(*A(groups, nm), g.build(spec),
                     metadata=(dict(md) if md is not None else None),
                     compression=comp)
        if k == 'frame':
            return c.setDataFrame(*A(groups, nm), build_frame(v))
        return getattr(c, 'set' + CAP[k])(*A(groups, nm), v)

    def fetch(k, key):
        return getattr(c, 'get' + CAP[k])(*A(key[0], key[1]))

    def compare(k, key, got, v):
        if k == 'array':
            data, md = got
            t.require(g.same_array(data, g.build(v[0])),
                      'array %r changed' % (key,))
            t.require(g.same_meta(md, v[1] or {}),
                      'array metadata %r, stored %r' % (md, v[1]))
        elif k == 'frame':
            why = same_frame(got, v)
            t.require(why == '', 'data frame %r: %s' % (key, why))
        elif k == 'string':
            t.require(isinstance(got, str) and got == v,
                      'string %r: got %r' % (v[:40], got[:40]))
        else:
            t.require(g.same_json(got, v), '%s %r: got %r, stored %r' % (
                k, key, got, v))

    def full():
        for k in kinds:
            exp = sorted('/'.join(list(gr) + [nm]) for gr, nm in model[k])
            got = list(getattr(c, PLURAL[k])())
            t.require(sorted(got) == exp, '%s listing %r, held %r' % (
                k, got, exp))
            for key, v in model[k].items():
                compare(k, key, fetch(k, key), v)

    def conflict(k, groups, nm):
        """Would this path use a name both as object and as group?"""
        pre = tuple(groups) + (nm,)
        if pre in used_groups[k]:
            return True
        for i in range(1, len(groups) + 1):
            if (tuple(groups[:i - 1]), groups[i - 1]) in model[k]:
                return True
        return False

    for op in case:
        if op[0] == 'reopen':
            c.close()
            c = C.load(path)
            t.require(os.path.realpath(c.getFileName()) ==
                      os.path.realpath(path), 'getFileName')
            if any(model.values()):
                t.label('reopen-with-data')
        elif op[0] == 'set':
            _, k, groups, nm, v = op
            key = (tuple(groups), nm)
            if conflict(k, groups, nm):
                continue
            if key in model[k]:
                t.require(failed(store, k, groups, nm, v),
                          'storing over %s %r was not refused' % (k, key))
                t.label('overwrite-refused')
            else:
                store(k, groups, nm, v)
                model[k][key] = v
                for i in range(1, len(groups) + 1):
                    used_groups[k].add(tuple(groups[:i]))
                compare(k, key, fetch(k, key), v)
        elif op[0] == 'get':
            _, k, groups, nm = op
            key = (tuple(groups), nm)
            if conflict(k, groups, nm):
                continue
            if key not in model[k]:
                t.raises(LookupError, fetch, k, key)
                t.label('-missing-get')
        elif op[0] in ('drop', 'drophit', 'resethit'):
            k = op[1]
            if op[0] == 'drop':
                key = (tuple(op[2]), op[3])
                if conflict(k, *key):
                    continue
            else:
                keys = sorted(model[k], key=repr)
                if not keys:
                    continue
                key = keys[op[2] % len(keys)]
            f = getattr(c, 'drop' + CAP[k])
            if key in model[k]:
                f(*A(*key))
                v = model[k].pop(key)
                t.raises(LookupError, fetch, k, key)
                t.label('dropped')
                if op[0] == 'resethit':
                    store(k, key[0], key[1], v)
                    model[k][key] = v
            else:
                t.raises(LookupError, f, *A(*key))
        elif op[0] == 'bad':
            _, k, groups, nm, i = op
            key = (tuple(groups), nm)
            if conflict(k, groups, nm):
                continue
            b = BAD[k][i]
            if k == 'array':
                a, md = np.ones(3), None
                if b == 'unicode':
                    a = np.array(['é', 'b'])
                elif b == 'object':
                    a = np.array([object(), None])
                elif b == 'metaNone':
                    md = {'u': 'm', 'k': None}
                else:
                    md = {'u': 1, 'k': {'z': 1}}
                fn = (lambda: c.setArray(*A(groups, nm), a, metadata=md))
            else:
                fn = (lambda: getattr(c, 'set' + CAP[k])(*A(groups, nm), b))
            if k == 'string' and isinstance(b, bytes) and not failed(fn):
                # accepting bytes would be a harmless extension
                getattr(c, 'dropString')(*A(groups, nm))
            elif not (k == 'string' and isinstance(b, bytes)):
                t.require(failed(fn), 'storing %r as %s was accepted' % (b, k))
            for j in range(1, len(groups) + 1):
                used_groups[k].add(tuple(groups[:j]))
            t.label('failed-store')
        full()
    c.close()
    c = C.load(path)
    full()
    c.close()
    # a closed file is free for others while the container still exists
    other = C.create(path)
    for k in kinds:
        t.require(list(getattr(other, PLURAL[k])()) == [], 'a created '
                  'container has %ss of an earlier one', k)
    other.close()
    if sum(len(m) for m in model.values()) >= 2:
        t.label('several-held')


@sub('C01', 'flat_container', ops(['string', 'dict', 'list', 'array', 'frame'], False),
     quick=700, thorough=8000,
     rule='1-14 operations on HDFContainer; full comparison with a dict model after every operation and after reopen; '
          'non-trivial = reopen with data, refused overwrite, drop, failing store or >=2 objects held')
def flat(case, t):
    run(case, t, False)


@sub('C01', 'grouped_container', ops(['string', 'dict', 'array'], True),
     quick=900, thorough=10000,
     rule='as flat_container on HDFContainerBase with group paths up to depth 3')
def grouped(case, t):
    run(case, t, True)


TREE = st.sampled_from([[], ['g'], ['g', 'a'], ['g', 'h'], ['g', 'a', 'h'],
                        ['g', 'h', 'a'], ['h']])


@st.composite
def nested(draw):
    k = draw(st.sampled_from(['string', 'dict', 'array']))
    v = value[k]
    s = st.tuples(st.just('set'), st.just(k), TREE,
                  st.sampled_from(['x', 'y']), v)
    return draw(st.lists(st.one_of(
        s, s, s, st.tuples(st.just('drophit'), st.just(k),
                           st.integers(0, 9)),
        st.tuples(st.just('drophit'), st.just(k), st.integers(0, 9)),
        st.just(('reopen',))), min_size=6, max_size=18))


@sub('C01', 'nested_groups', nested(), quick=250, thorough=4000,
     rule='6-18 operations on objects of one kind in a small tree of groups, a third of them drops: comparison as above, the objects of sibling, parent and child groups stay')
def nested_groups(case, t):
    run(case, t, True)


@sub('C01', 'frames', st.tuples(frame(), st.booleans()), quick=300,
     thorough=4000,
     rule='a data frame of floats (also infinite, tiny), integers, text that looks like numbers or dates, times and truth values, with any row labels, comes back with the same types, values and order, also after reopening; non-trivial = at least two rows')
def frames(case, t):
    import warnings
    from impactutils.io.container import HDFContainer
    warnings.simplefilter('ignore')
    spec, reopen = case
    with scratch() as d:
        path = os.path.join(d, 'c.h5')
        c = HDFContainer.create(path)
        df = build_frame(spec)
        c.setDataFrame('a', df)
        why = same_frame(df, spec)
        t.require(why == '', 'storing changed the frame given: %s', why)
        if reopen:
            c.close()
            c = HDFContainer.load(path)
        got = c.getDataFrame('a')
        why = same_frame(got, spec)
        t.require(why == '', 'data frame: %s', why)
        t.label('rows' if len(df) > 1 else '-few')
        for k in sorted({k for _, k, _ in spec[0]}):
            t.label('type-' + k)
        c.close()


@st.composite
def old(draw):
    n = draw(st.integers(1, 12))
    return [('c%d%s' % (j, k), k, draw(st.lists(
        {'f': fl(-1e6, 1e6).map(lambda v: v + 0.25),
         'i': st.integers(-2**40, 2**40), 's': word,
         't': st.integers(10**11, 4 * 10**12).map(lambda v: v * 10**6)}[k],
        min_size=n, max_size=n))) for j, k in enumerate(draw(st.lists(
            st.sampled_from('fist'), min_size=1, max_size=4)))]


@sub('C01', 'older_frames', old(), quick=60, thorough=600,
     rule='data frames in files of the earlier layout (JSON by columns, names of the time columns in an attribute) are still read; non-trivial = two or more rows')
def older_frames(case, t):
    import json
    import warnings
    import h5py
    from impactutils.io.container import HDFContainer, GROUPS
    warnings.simplefilter('ignore')
    df = build_frame((case, None))
    t.label('rows' if len(df) > 1 else '-few')
    with scratch() as d:
        path = os.path.join(d, 'c.h5')
        c = HDFContainer.create(path)
        c.setString('a', 'b')
        c.close()
        with h5py.File(path, 'a') as f:
            ds = f.create_group(GROUPS['dataframe']).create_dataset(
                'old', data=df.to_json(date_format='iso').encode('utf-8'))
            ds.attrs['time_columns'] = json.dumps(
                [c for c, k, _ in case if k == 't']).encode('utf-8')
        c = HDFContainer.load(path)
        got = c.getDataFrame('old')
        c.close()
    t.require(list(got.columns) == list(df.columns), 'columns %r',
              list(got.columns))
    t.require(list(got.index) == list(df.index), 'rows %r', list(got.index))
    for c, k, v in case:
        if k == 'f':
            ok = np.allclose(np.asarray(got[c], float), v, rtol=1e-9,
                             atol=1e-9)
        else:
            ok = list(got[c]) == list(df[c])
        t.require(ok, 'column %s: %r of %r', c, list(got[c]), list(df[c]))
