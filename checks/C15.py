"""C15: event origins: files, validation, mechanism."""
import io
import os
from xml.sax.saxutils import quoteattr

from hypothesis import strategies as st

from vp import rupgen as R
from vp.core import sub
from vp.gen import fl
from vp.util import scratch

TXT = st.text(st.one_of(
    st.characters(blacklist_categories=('Cc', 'Cs', 'Cn', 'Co')),
    st.sampled_from('<>&"\'')), max_size=12)
IDT = st.text('abcdefgh0123456789_', min_size=1, max_size=10)
MECHS = ['RS', 'SS', 'NM', 'ALL']


@st.composite
def times(draw, frac=True):
    y = draw(st.one_of(st.integers(1900, 2030), st.integers(1, 1899),
                       st.integers(2031, 9999)))
    return (y, draw(st.integers(1, 12)), draw(st.integers(1, 28)),
            draw(st.integers(0, 23)), draw(st.integers(0, 59)),
            draw(st.integers(0, 59)),
            draw(st.integers(0, 999999)) if frac else 0)


@st.composite
def events(draw):
    e = dict(id=draw(IDT), netid=draw(st.text('abc', min_size=1, max_size=2)),
             network=draw(TXT), lat=draw(st.one_of(
                 fl(-90, 90), st.sampled_from([90.0, -90.0, 0.0]))),
             lon=draw(st.one_of(fl(-180, 180),
                                st.sampled_from([180.0, -180.0]))),
             depth=draw(fl(0, 700)), mag=draw(fl(0, 10)),
             time=draw(times()), locstring=draw(TXT))
    for k, s in (('mech', st.sampled_from(MECHS)), ('reference', TXT),
                 ('productcode', IDT),
                 ('event_type', st.sampled_from(['ACTUAL', 'SCENARIO']))):
        if draw(st.booleans()):
            e[k] = draw(s)
    return e


def real(e):
    from impactutils.time.ancient_time import HistoricTime
    return dict(e, time=HistoricTime(*e['time']))


@sub('C15', 'event_file_round_trip', st.tuples(events(), st.booleans()),
     quick=300, thorough=6000,
     rule='any event dictionary (unicode text, years 1-9999, optional keys) written and read by name and as file object; non-trivial = optional key or non-ASCII text')
def round_trip(case, t):
    from impactutils.rupture.origin import (Origin, read_event_file,
                                            write_event_file)
    e, asfile = case
    if len(e) > 9 or not e['locstring'].isascii():
        t.label('rich')
    ev = real(e)
    before = dict(ev)
    with scratch() as d:
        f = os.path.join(d, 'event.xml')
        t.require(write_event_file(ev, f) is None, 'writing failed')
        t.require(ev == before, 'the event dictionary was modified')
        if asfile:
            with open(f, 'rb') as fh:
                got = read_event_file(io.BytesIO(fh.read()))
        else:
            got = read_event_file(f)
        for k in ('id', 'netid', 'network', 'locstring'):
            t.require(got[k] == e[k], '%s: %r, expected %r', k, got[k], e[k])
        for k in ('mech', 'reference'):
            t.require(got.get(k) == e.get(k), '%s: %r, expected %r', k,
                      got.get(k), e.get(k))
        pc = e.get('productcode', None if asfile else e['id'])
        t.require(got.get('productcode') == pc, 'productcode %r, expected %r',
                  got.get('productcode'), pc)
        t.close(got['lat'], e['lat'], abs_=5.1e-5, msg='lat')
        t.close(got['lon'], e['lon'], abs_=5.1e-5, msg='lon')
        t.close(got['depth'], e['depth'], abs_=0.0501, msg='depth')
        t.close(got['mag'], e['mag'], abs_=0.0501, msg='mag')
        w = ev['time'].replace(microsecond=0)
        t.require(got['time'] == w and type(got['time']) is type(w),
                  'time %r, expected %r', got['time'], w)
        # and as an Origin
        o = Origin.fromFile(f)
        t.require((o.id, o.lat, o.lon, o.depth, o.mag, o.time, o.locstring)
                  == tuple(got[k] for k in ('id', 'lat', 'lon', 'depth',
                                            'mag', 'time', 'locstring')),
                  'origin differs from the file')
        t.require(o.mech == e.get('mech', 'ALL'), 'mech')
        h = o.getHypo()
        t.require(abs((h.longitude - o.lon + 180) % 360 - 180) < 1e-6 and
                  (h.latitude, h.depth) == (o.lat, o.depth), 'hypocentre')


@st.composite
def xml(draw):
    e = draw(events())
    c = dict(e=e, root=draw(st.sampled_from(['earthquake', 'shakemap'])),
             tf=draw(st.sampled_from(['frac', 'whole', 'parts'])),
             old=draw(st.booleans()),
             drop=draw(st.one_of(st.none(), st.sampled_from(
                 ['id', 'netid', 'lat', 'lon', 'mag', 'depth', 'locstring',
                  'time', 'network', 'network']))), part=draw(st.integers(0, 5)),
             badtime=draw(st.booleans()))
    return c


@sub('C15', 'event_file_variants', xml(), quick=300, thorough=5000,
     rule='hand-written XML: nested root, fractional / whole / separate time attributes, type instead of mech, one attribute missing; non-trivial = all')
def variants(case, t):
    from impactutils.rupture.origin import Origin, read_event_file
    e = case['e']
    at = dict(id=e['id'], netid=e['netid'], network=e['network'],
              lat=repr(e['lat']), lon=repr(e['lon']), mag=repr(e['mag']),
              depth=repr(e['depth']), locstring=e['locstring'])
    y = e['time']
    tm = '%04d-%02d-%02dT%02d:%02d:%02d' % y[:6]
    if case['tf'] == 'frac':
        at['time'] = tm + '.%06dZ' % y[6]
        want = y
    elif case['tf'] == 'whole':
        at['time'] = tm + 'Z'
        want = y[:6]
    else:
        for k, v in zip(('year', 'month', 'day', 'hour', 'minute', 'second'),
                        y):
            at[k] = '%02d' % v
        want = y[:6]
    m = e.get('mech')
    if m is not None:
        at['type' if case['old'] else 'mech'] = m
    t.label(case['tf'], case['root'])
    drop = case['drop']
    exc = KeyError
    if drop == 'time':
        exc = ValueError
        if 'time' in at:
            del at['time']
        else:
            del at[['year', 'month', 'day', 'hour', 'minute',
                    'second'][case['part']]]
    elif drop == 'network':
        # the one attribute an event file may leave out
        del at['network']
        e = dict(e, network='')
        drop = None
        t.label('no network')
    elif drop is not None:
        del at[drop]
    elif case['badtime'] and 'time' in at:
        at['time'] = at['time'].replace('T', ' ')
        drop, exc = 'bad time', ValueError
    body = '<earthquake %s/>' % ' '.join(
        '%s=%s' % (k, quoteattr(v)) for k, v in at.items())
    if case['root'] != 'earthquake':
        body = '<shakemap><other/>%s</shakemap>' % body
    data = ('<?xml version="1.0" encoding="utf-8"?>\n' + body).encode('utf-8')
    if drop is not None:
        t.label('refused')
        t.raises(exc, read_event_file, io.BytesIO(data))
        return
    got = read_event_file(io.BytesIO(data))
    from impactutils.time.ancient_time import HistoricTime
    t.require(got['time'] == HistoricTime(*want), 'time %r', got['time'])
    for k in ('lat', 'lon', 'mag', 'depth'):
        t.require(got[k] == e[k], '%s: %r', k, got[k])
    for k in ('id', 'netid', 'network', 'locstring'):
        t.require(got[k] == e[k], '%s: %r', k, got[k])
    o = Origin(dict(got))
    t.require(o.mech == (m or 'ALL'), 'mechanism %r, expected %r', o.mech, m)
    t.require(o.rake == {'SS': 0.0, 'NM': -90.0, 'RS': 90.0, 'ALL': 0.0}[
        m or 'ALL'], 'rake %r of %r', o.rake, m)


@sub('C15', 'failed_write', st.tuples(events(), st.sampled_from(
    ['event_type', 'missing', 'type']), st.integers(0, 8)),
     quick=100, thorough=1500,
     rule='invalid or incomplete event dictionaries: a message is returned and nothing is written; non-trivial = all')
def failed_write(case, t):
    from impactutils.rupture.origin import write_event_file
    e, how, k = case
    e = real(e)
    t.label(how)
    req = ['id', 'netid', 'network', 'lat', 'lon', 'depth', 'mag', 'time',
           'locstring']
    if how == 'event_type':
        e['event_type'] = 'actual'
    elif how == 'missing':
        del e[req[k]]
    else:
        e[req[k]] = [1]
    with scratch() as d:
        f = os.path.join(d, 'event.xml')
        r = write_event_file(e, f)
        t.require(isinstance(r, str), 'no message for a bad event: %r', r)
        t.require(not os.path.exists(f), 'a file was written anyway')


@st.composite
def bad(draw):
    e = draw(events())
    return e, draw(st.sampled_from(
        ['none', 'missing', 'id', 'lat', 'lon', 'mech', 'type', 'empty'])), \
        draw(st.integers(0, 8)), draw(st.one_of(
            fl(1e-6, 500), st.sampled_from([1e-9, 0.001, float('nan'),
                                            float('inf')]))), \
        draw(st.booleans()), draw(st.one_of(st.none(), fl(-180, 180)))


@sub('C15', 'origin_validation', bad(), quick=300, thorough=5000,
     rule='complete events are accepted with every value as attribute; missing keys, wrong id type, out-of-range coordinates, unknown mechanism refused; non-trivial = all')
def validation(case, t):
    from impactutils.rupture.origin import Origin
    e, how, k, x, neg, rake = case
    e = real(e)
    t.label(how)
    req = ['id', 'netid', 'network', 'lat', 'lon', 'depth', 'locstring',
           'mag', 'time']
    if how == 'missing':
        del e[req[k]]
        given = dict(e)
        t.raises(KeyError, Origin, e)
        t.require(e == given, 'a refused event was changed')
    elif how == 'id':
        e['id'] = 17
        t.raises(TypeError, Origin, e)
    elif how in ('lat', 'lon'):
        lim = 90.0 if how == 'lat' else 180.0
        e[how] = (lim + x) * (-1 if neg else 1)
        t.raises(ValueError, Origin, e)
    elif how == 'mech':
        e['mech'] = ['rs', 'TH', 'X', 'all'][k % 4]
        t.raises(ValueError, Origin, e)
    else:
        want = e.get('mech', 'ALL')
        if how == 'type':
            e['type'] = e.pop('mech', 'ALL')
        elif how == 'empty':
            # the older name counts when there is no mechanism
            want = 'ALL'
            e['mech'] = ''
            if k % 3:
                want = ['RS', 'SS', 'NM', 'ALL'][k % 4]
                e['type'] = want
                t.label('type for an empty mech')
        elif how == 'none' and 'mech' in e and k % 3 == 0:
            e['type'] = ['RS', 'SS', 'NM', ''][k % 4]
            t.label('mech and type')
        if rake is not None:
            e['rake'] = rake if neg else str(rake)
        ref = dict(e)
        o = Origin(e)
        t.require(e == ref, 'the event given was changed: %r, was %r', e, ref)
        for q, v in ref.items():
            if q not in ('mech', 'type', 'rake'):
                t.require(getattr(o, q) == v, 'attribute %s: %r', q,
                          getattr(o, q))
        t.require(o.mech == want, 'mech %r, expected %r', o.mech, want)
        wr = rake if rake is not None else {
            'SS': 0.0, 'NM': -90.0, 'RS': 90.0, 'ALL': 0.0}[want]
        t.require(o.rake == wr and isinstance(o.rake, float),
                  'rake %r, expected %r', o.rake, wr)


KEY = st.one_of(st.text('abcdefghijklmnop', min_size=1, max_size=8),
                st.sampled_from(['event_type', 'a#b', 'a.b', 'A1', 'x y']))
def is_text(s):
    try:
        float(s.replace('_', ''))
    except ValueError:
        return bool(s)
    return False


VAL = st.one_of(
    st.integers(-10**6, 10**6), fl(-1e4, 1e4),
    st.text('abcXYZ =:/._-#,;"\'\\\té12', min_size=1, max_size=10)
    .map(str.strip).filter(is_text), st.sampled_from(
        ['2 km NE of A, B', 'us2008abcd', '#1', 'Route #5', '5 km', '1-2',
         '08:15', '0x10', 'a=b', '=', '==1']))


@sub('C15', 'source_file',
     st.tuples(st.lists(st.tuples(KEY, VAL, st.sampled_from(
         ['', ' ', '  '])), max_size=6),
         st.lists(st.tuples(st.integers(0, 6), st.sampled_from(
             ['# comment = 1', '', '   ', '#'])), max_size=4),
         st.booleans(), events(), st.booleans()),
     quick=300, thorough=5000,
     rule='key = value lines with integers, decimals and text, comments and blank lines, overriding an event file; non-trivial = at least one key')
def source(case, t):
    from impactutils.rupture.origin import (Origin, read_source,
                                            write_event_file)
    rows, extra, asfile, e, over = case
    rows = list(rows)
    if over:
        rows += [('mag', 7.25, ''), ('locstring', 'new place', ' '),
                 ('mech', 'NM', '')]
    lines = ['%s%s=%s%s' % (k, sp, sp, v) for k, v, sp in rows]
    for i, x in extra:
        lines.insert(min(i, len(lines)), x)
    want = {}
    for k, v, _ in rows:
        want[k] = v
    if rows:
        t.label('keys')
    with scratch() as d:
        f = os.path.join(d, 'source.txt')
        with open(f, 'w', encoding='utf-8') as fh:
            fh.write('\n'.join(lines) + '\n')
        got = read_source(io.StringIO('\n'.join(lines))) if asfile else \
            read_source(f)
        t.require(got == want, 'read %r, expected %r', got, want)
        for k in want:
            t.require(type(got[k]) is type(want[k]), 'type of %s', k)
        if over and not set(want) & set(
                ['id', 'lat', 'lon', 'type', 'rake', 'time']):
            x = os.path.join(d, 'event.xml')
            t.require(write_event_file(real(e), x) is None, 'write')
            o = Origin.fromFile(x, sourcefile=f)
            for k, v in want.items():
                t.require(getattr(o, k) == v, 'source value %s', k)
            t.require(o.id == e['id'] and o.netid == e['netid'],
                      'values not in the source file changed')


@sub('C15', 'set_mechanism',
     st.tuples(st.sampled_from(MECHS + ['rs', None, '']),
               st.one_of(st.none(), fl(-360, 360), st.sampled_from(
                   [-360.0, -180.0, 180.0, 360.0, -181.0, 181.0])),
               st.one_of(st.none(), fl(0, 90), st.sampled_from(
                   [0.0, 90.0, -0.001, 90.001])), events()),
     quick=300, thorough=4000,
     rule='any mechanism, rake in [-360, 360] or default, dip or default; non-trivial = accepted')
def set_mech(case, t):
    from impactutils.rupture.origin import Origin
    m, rake, dip, e = case
    o = Origin(real(e))
    before = dict(o.__dict__)
    ok = m in MECHS and (dip is None or 0 <= dip <= 90)
    if not ok:
        t.label('-refused')
        t.raises(ValueError, o.setMechanism, mech=m, rake=rake, dip=dip)
        t.require(o.__dict__ == before, 'a refused mechanism changed the '
                  'origin')
        return
    t.label('set')
    o.setMechanism(mech=m, rake=rake, dip=dip)
    d0 = {'RS': (90.0, 40.0), 'NM': (-90.0, 50.0), 'SS': (0.0, 90.0),
          'ALL': (45.0, 90.0)}[m]
    t.require(o.mech == m, 'mech')
    t.require(o.dip == (d0[1] if dip is None else dip), 'dip %r', o.dip)
    if rake is None:
        t.require(o.rake == d0[0], 'rake %r', o.rake)
    else:
        t.require(-180 <= o.rake <= 180, 'rake %r out of range', o.rake)
        t.close(abs((o.rake - rake + 180) % 360 - 180), 0, abs_=1e-9,
                msg='rake is another angle')
    for k, v in before.items():
        if k not in ('mech', 'rake', 'dip'):
            t.require(getattr(o, k) == v, '%s changed', k)
