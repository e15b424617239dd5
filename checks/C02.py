"""C02: sections of the ShakeMap containers."""
import os

from hypothesis import strategies as st

from vp.core import sub
from vp.util import scratch, failed
from vp import hdfgen as g

SET = {'config': 'setConfig', 'rupture': 'setRuptureDict',
       'stations': 'setStationDict', 'history': 'setVersionHistory',
       'metadata': 'setMetadata'}
GET = {'config': 'getConfig', 'rupture': 'getRuptureDict',
       'stations': 'getStationDict', 'history': 'getVersionHistory',
       'metadata': 'getMetadata'}
ABSENT = {'config': AttributeError, 'rupture': AttributeError,
          'stations': AttributeError, 'metadata': LookupError}

section = st.sampled_from(sorted(SET))
BAD = [{'a': object()}, {'b': {1, 2}}, {'x': b'raw'}, {(1, 2): 'k'}]
NOTDICT = [None, 'text', 5, ['a', 1], 3.5]

# keys of other sections used as ordinary objects of the same file
own = st.sampled_from(['mine', 'configs', 'rupture2', 'station', 'info'])

ops = st.lists(st.one_of(
    st.tuples(st.just('set'), section, g.jdict),
    st.tuples(st.just('set'), section, g.jdict),
    st.tuples(st.just('bad'), section, st.integers(0, 3)),
    st.tuples(st.just('nodict'), st.sampled_from(['rupture', 'stations']),
              st.integers(0, 4)),
    st.tuples(st.just('own'), own, g.jdict),
    st.tuples(st.just('str'), st.sampled_from(['config', 'rupture', 'note']),
              g.text),
    st.tuples(st.just('imt'), st.integers(0, 1000)),
    st.tuples(st.just('reopen')),
), min_size=3, max_size=16)


@sub('C02', 'sections', st.tuples(st.booleans(), ops), quick=1200, thorough=15000,
     rule='3-16 operations (valid sets, unserialisable values, non-dicts, unrelated objects, reopen) on '
          'ShakeMapContainerBase or ShakeMapOutputContainer, every section compared with the model after each; '
          'non-trivial = a section overwritten, a failing set over a held section, or a reopen with data')
def sections(case, t):
    from impactutils.io.smcontainers import (
        ShakeMapContainerBase, ShakeMapOutputContainer)
    output, seq = case
    C = ShakeMapOutputContainer if output else ShakeMapContainerBase
    model, mine, strs = {}, {}, {}
    with scratch() as d:
        path = os.path.join(d, 'c.h5')
        c = C.create(path)

        def full():
            for s in SET:
                if s == 'metadata' and not output:
                    continue
                get = getattr(c, GET[s])
                if s in model:
                    got = get()
                    t.require(g.same_json(got, model[s]),
                              'section %s reads %r, last set %r' % (
                                  s, got, model[s]))
                elif s == 'history':
                    t.require(get() == {}, 'unset version history is not {}')
                else:
                    t.raises(ABSENT[s], get)
            for k, v in mine.items():
                t.require(g.same_json(c.getDictionary([], k), v),
                          'unrelated dictionary %s changed' % k)
            for k, v in strs.items():
                t.require(c.getString([], k) == v,
                          'unrelated string %s changed' % k)

        nimt = 0
        for op in seq:
            if op[0] == 'reopen':
                c.close()
                c = C.load(path)
                if model:
                    t.label('reopen-with-data')
            elif op[0] == 'set':
                if op[1] == 'metadata' and not output:
                    continue
                getattr(c, SET[op[1]])(op[2])
                if op[1] in model:
                    t.label('overwrite')
                model[op[1]] = op[2]
            elif op[0] == 'bad':
                if op[1] == 'metadata' and not output:
                    continue
                t.require(failed(getattr(c, SET[op[1]]), BAD[op[2]]),
                          'unserialisable value accepted')
                if op[1] in model:
                    t.label('failed-over-held')
            elif op[0] == 'nodict':
                t.raises(TypeError, getattr(c, SET[op[1]]), NOTDICT[op[2]])
                if op[1] in model:
                    t.label('rejected-over-held')
            elif op[0] == 'own':
                if op[1] not in mine:
                    c.setDictionary([], op[1], op[2])
                    mine[op[1]] = op[2]
            elif op[0] == 'str':
                if op[1] not in strs:
                    c.setString([], op[1], op[2])
                    strs[op[1]] = op[2]
            elif op[0] == 'imt' and output:
                a = g.build(('f8', (3, 2), op[1]))
                c.setIMTGrids('IMT%d' % nimt, a, {'n': 1}, a, {}, 'Larger')
                nimt += 1
            full()
        c.close()
        c = C.load(path)
        full()
        c.close()
