"""C03: IMT layers of ShakeMapOutputContainer."""
import os

import numpy as np
from hypothesis import strategies as st

from vp.core import sub
from vp.util import scratch, failed
from vp import hdfgen as g

IMTS = ['MMI', 'PGA', 'SA(1.0)', 'SA', 'SA(1.0']
COMPS = ['Larger', 'rotd50', 'GREATER OF TWO', 'MMI', 'Large']
imt = st.sampled_from(IMTS)
comp = st.sampled_from(COMPS)
md = g.meta

grid = st.tuples(st.just('grid'), imt, comp, g.arr((2,), ['f8', 'f4']),
                 md, g.arr((2,), ['f8', 'f4']), md, st.booleans())
points = st.tuples(st.just('points'), imt, comp, st.integers(0, 30),
                   st.integers(0, 10**6), md, md, st.booleans())
badp = st.tuples(st.just('badpoints'), imt, comp, st.sampled_from(
    ['shape-lats', 'shape-ids', 'shape-mean', 'shape-std', 'ids-unicode',
     'meta-mean', 'meta-std', 'shape2d']))
badg = st.tuples(st.just('badgrid'), imt, comp, st.sampled_from(
    ['meta-mean', 'meta-std', 'object-std']))
get = st.tuples(st.just('get'), imt, comp, st.sampled_from(['grid', 'points']))
drop = st.tuples(st.just('drop'), imt)
reopen = st.tuples(st.just('reopen'))


def seqs(main):
    return st.lists(st.one_of(main, main, main, drop, get, badp, badg, reopen,
                              st.one_of(grid, points)),
                    min_size=3, max_size=14)


@sub('C03', 'imt_history', st.sampled_from([0, 1]).flatmap(
    lambda k: seqs([grid, points][k])), quick=1200, thorough=15000,
     rule='3-14 operations, biased to one data type per history, with refused/invalid stores, drops and reopens; all '
          'listings and layers compared with a dict model after each; non-trivial = refused other-type call, invalid '
          'store, duplicate, drop of a held IMT or reopen with data')
def imt_history(case, t):
    from impactutils.io.smcontainers import ShakeMapOutputContainer as C
    model = {}          # (comp, imt) -> expected
    dtype = None
    with scratch() as d:
        path = os.path.join(d, 'o.h5')
        c = C.create(path)

        def full():
            t.require(c.getDataType() == dtype, 'data type %r, expected %r' % (
                c.getDataType(), dtype))
            t.require(sorted(c.getIMTs()) == sorted(
                a + '/' + b for a, b in model),
                'getIMTs() %r, held %r' % (c.getIMTs(), sorted(model)))
            t.require(sorted(c.getComponents()) == sorted(
                {a for a, _ in model}), 'getComponents() %r, held %r' % (
                c.getComponents(), sorted(model)))
            for a in COMPS + ['none']:
                t.require(sorted(c.getIMTs(a)) == sorted(
                    y for x, y in model if x == a), 'getIMTs(%s)' % a)
            for b in IMTS + ['none']:
                t.require(sorted(c.getComponents(b)) == sorted(
                    x for x, y in model if y == b), 'getComponents(%s)' % b)
            names = ['mean', 'std'] + (['lons', 'lats', 'ids']
                                       if dtype == 'points' else [])
            t.require(sorted(c.getArrays()) == sorted(
                'imts/%s/%s/%s' % (a, b, n) for a, b in model for n in names),
                'stored arrays %r' % sorted(c.getArrays()))
            for (a, b), exp in model.items():
                f = c.getIMTGrids if dtype == 'grid' else c.getIMTArrays
                got = f(b, a)
                t.require(set(got) == set(exp), 'keys %r' % sorted(got))
                for k, v in exp.items():
                    if k.endswith('metadata'):
                        t.require(g.same_meta(got[k], v),
                                  '%s of %s/%s: %r, stored %r' % (
                                      k, a, b, got[k], v))
                    else:
                        t.require(g.same_array(got[k], v),
                                  '%s of %s/%s changed' % (k, a, b))

        for op in case:
            if op[0] == 'reopen':
                c.close()
                c = C.load(path)
                if model:
                    t.label('reopen-with-data')
            elif op[0] in ('grid', 'points'):
                if op[0] == 'grid':
                    _, b, a, s1, m1, s2, m2, z = op
                    mean, std = g.build(s1), g.build(s2)
                    exp = {'mean': mean, 'std': std, 'mean_metadata': m1,
                           'std_metadata': m2}

                    def call():
                        c.setIMTGrids(b, mean, m1, std, m2, a, compression=z)
                else:
                    _, b, a, n, key, m1, m2, z = op
                    A = [g.build(('f8', (n,), key + i)) for i in range(4)]
                    ids = g.build(('S', (n,), key))
                    exp = {'lons': A[0], 'lats': A[1], 'ids': ids,
                           'mean': A[2], 'std': A[3], 'mean_metadata': m1,
                           'std_metadata': m2}

                    def call():
                        c.setIMTArrays(b, A[0], A[1], ids, A[2], m1, A[3], m2,
                                       a, compression=z)
                if dtype not in (None, op[0]):
                    t.raises(TypeError, call)
                    t.label('other-type-refused')
                elif (a, b) in model:
                    t.require(failed(call), 'duplicate IMT accepted')
                    t.label('duplicate')
                else:
                    call()
                    dtype = op[0]
                    model[(a, b)] = exp
            elif op[0] == 'badpoints':
                _, b, a, how = op
                n = 3
                v = {k: np.arange(n) * 1.5 for k in
                     ('lons', 'lats', 'mean', 'std')}
                v['ids'] = np.array([b'a', b'b', b'c'])
                m = {'mean': {'u': 1}, 'std': {}}
                exc = Exception
                if how.startswith('shape-'):
                    k = how[6:]
                    v[k] = v[k][:2]
                    exc = ValueError
                elif how == 'shape2d':
                    v['std'] = v['std'].reshape(3, 1)
                    exc = ValueError
                elif how == 'ids-unicode':
                    v['ids'] = np.array(['a', 'b', 'c'])
                else:
                    m[how[5:]] = {'ok': 2, 'bad': {'x': 1}}
                if dtype == 'grid':
                    exc = TypeError
                elif (a, b) in model:
                    exc = Exception
                t.raises(exc, c.setIMTArrays, b, v['lons'], v['lats'],
                         v['ids'], v['mean'], m['mean'], v['std'], m['std'],
                         a)
                t.label('invalid-store')
            elif op[0] == 'badgrid':
                _, b, a, how = op
                v = {'mean': np.ones((2, 2)), 'std': np.zeros((2, 2))}
                m = {'mean': {'u': 1}, 'std': {}}
                if how.startswith('meta-'):
                    m[how[5:]] = {'ok': 2, 'bad': None}
                else:
                    v['std'] = np.array([[object(), None]])
                exc = TypeError if dtype == 'points' else Exception
                t.raises(exc, c.setIMTGrids, b, v['mean'], m['mean'],
                         v['std'], m['std'], a)
                t.label('invalid-store')
            elif op[0] == 'drop':
                held = [k for k in model if k[1] == op[1]]
                if held:
                    c.dropIMT(op[1])
                    for k in held:
                        del model[k]
                    t.label('drop')
                else:
                    try:
                        c.dropIMT(op[1])
                    except LookupError:
                        pass
            elif op[0] == 'get':
                _, b, a, kind = op
                f = c.getIMTGrids if kind == 'grid' else c.getIMTArrays
                if kind != dtype:
                    t.raises(TypeError, f, b, a)
                elif (a, b) not in model:
                    t.raises(LookupError, f, b, a)
            full()
        c.close()
        c = C.load(path)
        full()
        # the kind of the file outlives its layers
        for b in sorted({b for _, b in model}):
            c.dropIMT(b)
        model.clear()
        full()
        v = np.arange(3.0)
        if dtype == 'grid':
            t.raises(TypeError, c.setIMTArrays, 'PGA', v, v, v, v, {}, v, {},
                     'Larger')
            t.raises(TypeError, c.getIMTArrays, 'PGA', 'Larger')
        elif dtype == 'points':
            w = np.ones((2, 2))
            t.raises(TypeError, c.setIMTGrids, 'PGA', w, {}, w, {}, 'Larger')
            t.raises(TypeError, c.getIMTGrids, 'PGA', 'Larger')
        full()
        c.close()
