"""C28: web queries retry once, never invent data, and read it right."""
import copy
import datetime
import io
import json
import os
import socket
import time
import urllib.error
import urllib.parse
import urllib.request
import warnings

from hypothesis import strategies as st

from vp import util
from vp.core import sub

MOD = 'impactutils.comcat.query'


class Response(io.BytesIO):
    status = code = 200
    headers = {}

    def getcode(self):
        return 200

    def info(self):
        return {}


class Torn(Response):
    def read(self, *a):
        raise ConnectionResetError('lost')


class Web:
    """urlopen that answers by script; remembers what was asked."""

    def __init__(self, answer, script=()):
        self.answer, self.script = answer, list(script)
        self.log = []            # (url, outcome)

    def __enter__(self):
        import impactutils.comcat.query as q
        self.q = q
        self.old = (urllib.request.urlopen, time.sleep)
        self.own = {k: getattr(q, k) for k in
                    ('urlopen', 'sleep', 'WAITSECS') if hasattr(q, k)}
        urllib.request.urlopen = self.open
        time.sleep = lambda s: None
        for k, v in (('urlopen', self.open), ('sleep', time.sleep),
                     ('WAITSECS', 0)):
            if k in self.own:
                setattr(q, k, v)
        return self

    def __exit__(self, *a):
        urllib.request.urlopen, time.sleep = self.old
        for k, v in self.own.items():
            setattr(self.q, k, v)

    def open(self, url, *a, **kw):
        if not isinstance(url, str):
            url = url.full_url
        out = self.script.pop(0) if self.script else 'ok'
        self.log.append((url, out))
        if isinstance(out, int):
            raise urllib.error.HTTPError(url, out, 'no', {}, io.BytesIO())
        if out == 'urlerror':
            raise urllib.error.URLError('unreachable')
        if out == 'timeout':
            raise socket.timeout('timed out')
        data = self.answer(url).encode('utf-8')
        if out == 'cut':         # the rest of the answer is missing
            data = data[:-1 - self.log.count((url, out)) * len(data) // 4]
        if out == 'torn':
            return Torn(data)
        return Response(data)


OUT = st.sampled_from(['ok', 'ok', 503, 503, 503, 404, 500, 502, 204, 429,
                       'urlerror', 'timeout', 'torn'])
JSON_OUT = st.one_of(OUT, OUT, OUT, st.just('cut'))
NUM = st.one_of(st.integers(-90, 90), st.floats(-90, 90, width=32))
TXT = st.text(st.characters(blacklist_categories=['Cs']), max_size=12)
PLACE = st.fixed_dictionaries({
    'type': st.just('Feature'), 'id': st.integers(0, 99),
    'properties': st.fixed_dictionaries({'name': TXT,
                                         'population': st.integers(0, 9)})})
NETS = ['AK', 'CI', 'NC', 'US', 'NN', 'MX']
AUTH = st.fixed_dictionaries({'properties': st.fixed_dictionaries({
    'network': st.sampled_from(NETS),
    'type': st.sampled_from(['anss', 'contributor', 'NA'])})})
GEO = st.fixed_dictionaries({
    'lat': NUM, 'lon': st.one_of(NUM, st.floats(-180, 180)),
    'radius': st.one_of(st.none(), st.integers(0, 1000)),
    'pop': st.one_of(st.none(), st.integers(0, 10**7)),
    'places': st.lists(PLACE, max_size=3),
    'auth': st.lists(AUTH, max_size=3), 'meta': st.booleans(),
    'fe': TXT, 'script': st.one_of(st.just([]),
                                   st.lists(JSON_OUT, min_size=1,
                                            max_size=4))})


def judge(t, log, err, want=None):
    """At most two attempts for a URL, the second after a failure; success
    exactly if the last attempt of every URL succeeded."""
    urls = []
    for u, _ in log:
        if u not in urls:
            urls.append(u)
    ok = True
    for u in urls:
        outs = [o for v, o in log if v == u]
        t.require(len(outs) <= 2, '%d attempts for %s', len(outs), u)
        t.require(outs[0] != 'ok' or len(outs) == 1,
                  'asked again after an answer: %r', outs)
        if outs[0] == 503:
            t.require(len(outs) == 2, 'no second attempt after 503')
            t.label('retry')
        ok = ok and outs[-1] == 'ok'
    if ok:
        t.require(err is None, 'fails although the data arrived: %r %r', err,
                  log)
    else:
        t.require(err is not None, 'no exception although the data did not '
                  'arrive: %r', log)
        t.label('failure')
    return ok


@sub('C28', 'geoserve', GEO, quick=600, thorough=10000,
     rule='GeoServe over scripted web answers (data, 503, other codes, lost connections): attempts, exceptions, query parameters, places, regions and authority judged; non-trivial = a failing attempt or a region with an authority')
def geoserve(case, t):
    from impactutils.comcat.query import GeoServe
    places = {'geonames': {'type': 'FeatureCollection',
                           'features': case['places'],
                           'count': len(case['places'])}}
    regions = {'authoritative': {'features': case['auth']},
               'fe': {'features': [{'properties': {'name': case['fe']}}]}}
    full = dict(regions)
    if case['meta']:
        full['metadata'] = places['metadata'] = {'status': 200}

    def answer(url):
        return json.dumps(places if 'places' in url else full)
    kw = {}
    if case['radius'] is not None:
        kw['maxradius'] = case['radius']
    if case['pop'] is not None:
        kw['minpop'] = case['pop']
    err = g = None
    with Web(answer, case['script']) as web:
        try:
            g = GeoServe(case['lat'], case['lon'], **kw)
        except Exception as e:
            err = e
    if not judge(t, web.log, err):
        return
    kinds = set()
    for u, _ in web.log:
        p = urllib.parse.urlparse(u)
        q = {k: v[0] for k, v in urllib.parse.parse_qs(p.query).items()}
        t.require(float(q['latitude']) == case['lat'] and
                  float(q['longitude']) == case['lon'], 'asked for %r', u)
        if 'places' in p.path:
            t.require(float(q['maxradiuskm']) == kw.get('maxradius', 500) and
                      float(q['minpopulation']) == kw.get('minpop', 1000),
                      'asked for %r', u)
        kinds.add('places' in p.path)
    t.require(kinds == {True, False}, 'asked only %r', web.log)
    for again in range(2):
        t.require(g.getPlaces() == case['places'], 'places %r, not %r',
                  g.getPlaces(), case['places'])
        a = case['auth'][0]['properties'] if case['auth'] else \
            {'network': 'US', 'type': 'NA'}
        t.require(tuple(g.getAuthoritative()) == (a['network'], a['type']),
                  'authority %r, not %r', g.getAuthoritative(), a)
        t.require(g.getRegions() == regions, 'regions %r, not %r',
                  g.getRegions(), regions)
    if case['auth']:
        t.label('authority')


SRC = ['us', 'at', 'atlas', 'ci', 'nc', 'gcmt', 'usp', 'official', 'nn', 'n']
EVENT = st.fixed_dictionaries({
    'ids': st.lists(st.tuples(st.sampled_from(SRC), st.integers(0, 9999)),
                    min_size=1, max_size=5, unique=True),
    'auth': st.integers(0, 4), 'order': st.integers(0, 4),
    'lon': st.floats(-180, 180), 'lat': st.floats(-90, 90),
    'depth': st.floats(-5, 700), 'mag': st.floats(-1, 9.5),
    'time': st.one_of(st.integers(-2 * 10**12, 2 * 10**12),
                      st.integers(0, 10**10)),
    'place': TXT, 'tsunami': st.sampled_from([0, 1]),
    'grid': st.one_of(st.none(), TXT), 'old': st.booleans(),
    'script': st.one_of(st.just([]), st.lists(JSON_OUT, min_size=1,
                                              max_size=2)),
    'gscript': st.one_of(st.just([]), st.lists(OUT, min_size=1,
                                               max_size=2))})


@sub('C28', 'comcat', EVENT, quick=600, thorough=10000,
     rule='ComCatInfo over scripted web answers for generated events: attempts, exceptions, ids paired with sources, parameters, and the grid file judged; non-trivial = a failing attempt, or several ids')
def comcat(case, t):
    from impactutils.comcat.query import ComCatInfo
    ids = ['%s%d' % x for x in case['ids']]
    k = case['auth'] % len(ids)
    gurl = 'https://x.org/download/grid.xml'
    srcs = [x[0] for x in case['ids']]
    r = case['order'] % len(srcs)
    srcs = srcs[r:] + srcs[:r]
    products = {'origin': [{}]}
    if case['grid'] is not None:
        products['shakemap'] = [{'contents': {'download/grid.xml':
                                              {'url': gurl}}}]
    doc = {'id': ids[k], 'geometry': {
        'coordinates': [case['lon'], case['lat'], case['depth']]},
        'properties': {'ids': ',%s,' % ','.join(ids),
                       'sources': ',%s,' % ','.join(srcs),
                       'time': case['time'], 'mag': case['mag'],
                       'place': case['place'], 'tsunami': case['tsunami'],
                       'url': 'https://x.org/' + ids[k],
                       'products': products}}
    text = json.dumps(doc)

    def answer(url):
        return case['grid'] if url == gurl else text
    err = c = None
    with Web(answer, case['script']) as web, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            c = ComCatInfo(ids[k])
        except Exception as e:
            err = e
    t.require(all(ids[k] in u for u, _ in web.log), 'asked for %r', web.log)
    if not judge(t, web.log, err):
        return
    if len(ids) > 1:
        t.label('ids')
    for again in range(2):
        a, others = c.getAssociatedIds()
        t.require(a == ids[k] and sorted(others) ==
                  sorted(ids[:k] + ids[k + 1:]), 'ids %r %r of %r', a,
                  others, ids)
        s, osrc = c.getAssociatedSources()
        src = dict(zip(ids, [x[0] for x in case['ids']]))
        t.require(s == src[a] and list(osrc) == [src[o] for o in others],
                  'sources %r %r of %r %r', s, osrc, a, others)
        e = c.getEventParams()
        t.require((e['lat'], e['lon'], e['depth'], e['magnitude']) ==
                  (case['lat'], case['lon'], case['depth'], case['mag']),
                  'parameters %r', e)
        dt = (e['time'] - datetime.datetime(1970, 1, 1)).total_seconds() - \
            case['time'] / 1000
        t.require(abs(dt) < 1.001, 'origin time off by %r s', dt)
        t.require(c.getLocation() == case['place'] and
                  c.getTsunami() == case['tsunami'] and
                  c.getURL() == doc['properties']['url'],
                  'place, tsunami or url differ')
    with util.scratch() as d:
        f = os.path.join(d, 'grid.xml')
        if case['old']:
            with open(f, 'w') as fh:
                fh.write('previous')
        with Web(answer, case['gscript']) as web:
            t.require(c.getShakeGrid() == (gurl if case['grid'] is not None
                                           else None), 'grid url')
            t.require(web.log == [], 'the url of the grid is known')
            res = c.getShakeGrid(local_file=f)
        got = None
        if os.path.exists(f):
            with open(f, newline='') as fh:
                got = fh.read()
        if case['grid'] is not None and web.log and web.log[-1][1] == 'ok':
            t.require(res == f and got == case['grid'], 'grid file %r, '
                      'returned %r', got, res)
        else:
            t.require(res is None, 'no grid, but %r', res)
            t.require(got == ('previous' if case['old'] else None),
                      'a failed download left %r', got)
            t.label('no grid')
