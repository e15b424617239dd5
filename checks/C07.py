"""C07: rupture GeoJSON write/read round trip."""
import copy
import json
import os

import numpy as np
from hypothesis import strategies as st

from vp import rupgen as R
from vp.core import sub
from vp.gen import fl, dec
from vp.util import scratch

TEXT = st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=0x17f,
                                      exclude_characters='\x7f'), max_size=20)


@st.composite
def origins(draw):
    d = R.origin_dict(
        lat=draw(dec(-90, 90, 4)), lon=draw(dec(-180, 180, 4)),
        depth=draw(dec(0, 100, 1)), mag=draw(dec(4, 9, 1)),
        mech=draw(st.sampled_from(['SS', 'RS', 'NM', 'ALL'])))
    d['id'] = draw(st.text('abcdefgh0123456789', min_size=1, max_size=10))
    d['locstring'] = draw(TEXT)
    d['network'] = draw(TEXT)
    d['time'] = (draw(st.one_of(st.integers(1900, 2030),
                                st.integers(1, 1899),
                                st.integers(2031, 9999))),
                 draw(st.integers(1, 12)), draw(st.integers(1, 28)),
                 draw(st.integers(0, 23)), draw(st.integers(0, 59)),
                 draw(st.integers(0, 59)),
                 draw(st.one_of(st.just(0), st.integers(0, 999999))))
    if draw(st.booleans()):
        d['rake'] = draw(dec(-180, 180, 1))
    if draw(st.booleans()):
        d['productcode'] = draw(st.text('abc123', min_size=1, max_size=6))
    return d


@st.composite
def case_finite(draw):
    sp = draw(R.spec(max_groups=3, max_seg=3, small=True, bend=25, skew=10))
    kind = draw(st.sampled_from(['quad', 'edge', 'edge', 'slope']))
    warp = []
    if kind == 'slope':
        # vertical walls with sloping top edges and level bottom edges or the
        # other way around: on one plane whatever the depths
        one = draw(st.booleans())
        sp = sp[:1] if one else sp
        for g in sp:
            if one:
                for k in ('az', 'len', 'ratio'):
                    g[k] = g[k][:1]
            g['dip'] = 90.0
            g['width'] = max(g['width'], 5.0)
        warp = draw(st.tuples(st.sampled_from(['top', 'bottom']),
                              st.lists(fl(0, 3), min_size=4, max_size=4)))
    if kind == 'edge':
        # depth perturbations (km) of bottom points of every group
        warp = draw(st.lists(fl(0, 3), min_size=4, max_size=4))
    return dict(kind=kind, spec=sp, warp=warp,
                mesh_dx=draw(st.sampled_from([1.0, 2.0, 0.75])),
                ref=draw(TEXT), origin=draw(origins()),
                sites=draw(R.sites(n=3, far=80)))


def polys_of(case):
    polys = R.polygons(case['spec'])
    if case['kind'] == 'edge':
        w = case['warp']
        for p in polys:
            n = (len(p) - 1) // 2
            for k in range(n, 2 * n):
                p[k][2] += w[k % len(w)]
    elif case['kind'] == 'slope':
        side, w = case['warp']
        for p in polys:
            n = (len(p) - 1) // 2
            for k in range(n):
                if side == 'top':
                    p[k][2] += w[k % len(w)]
                else:
                    p[n + k][2] += w[k % len(w)]
            p[-1] = list(p[0])
    return polys


def same_origin(t, o, d):
    for k in ('id', 'netid', 'network', 'lat', 'lon', 'depth', 'locstring',
              'mag', 'mech'):
        t.require(getattr(o, k) == d[k], 'origin %s: %r, expected %r',
                  k, getattr(o, k), d[k])
    for k in ('rake', 'productcode'):
        if k in d:
            t.require(getattr(o, k) == d[k], 'origin %s: %r, expected %r',
                      k, getattr(o, k), d[k])
    tm = o.time
    got = (tm.year, tm.month, tm.day, tm.hour, tm.minute, tm.second,
           tm.microsecond)
    t.require(got == tuple(d['time']), 'origin time %r, expected %r',
              got, d['time'])


def outline(polys):
    out = []
    for p in polys:
        out += [list(x) for x in p] + [[np.nan] * 3]
    return np.array(out)


def eq(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def dists(r, lon, lat, gc2=True):
    z = np.zeros_like(lon)
    out = [r.computeRrup(lon, lat, z)[0], r.computeRjb(lon, lat, z)[0],
           r.computeRepi(lon, lat, z), r.computeRhyp(lon, lat, z)]
    g = r.computeGC2(lon, lat, z)
    out += [g[k] for k in sorted(g)]
    return out


@sub('C07', 'finite_roundtrip', case_finite(), quick=200, thorough=4000,
     rule='1-3 groups of 1-3 quads (planar) or warped (edge) ruptures, generated origin (years 1-9999), reference, mesh; non-trivial = all')
def finite(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    from impactutils.rupture.edge_rupture import EdgeRupture
    from impactutils.rupture.factory import (get_rupture, rupture_from_dict,
                                             is_quadrupture_class)
    polys = polys_of(case)
    d = R.geojson(polys, case['ref'])
    o = R.make_origin(case['origin'])
    quad = case['kind'] == 'quad'
    r = (QuadRupture(copy.deepcopy(d), o) if quad
         else EdgeRupture(copy.deepcopy(d), o, mesh_dx=case['mesh_dx']))
    t.label(case['kind'], 'groups%d' % len(polys))
    with scratch() as tmp:
        f = os.path.join(tmp, 'rupture.json')
        # an older, longer file is replaced
        with open(f, 'w') as fh:
            fh.write('{"type": "older"}' * 2000)
        r.writeGeoJson(f)
        with open(f, encoding='utf-8') as fh:
            j = json.load(fh)
        # what is on disk is the rupture
        t.require(j['features'][0]['geometry']['type'] == 'MultiPolygon',
                  'geometry type')
        got = j['features'][0]['geometry']['coordinates'][0]
        t.require(got == [[list(x) for x in p] for p in polys],
                  'coordinates on disk differ from the rupture')
        t.require(j['metadata']['reference'] == case['ref'], 'reference')
        r3in = copy.deepcopy(j)
        r3 = rupture_from_dict(j)
        t.require(j == r3in, 'rupture_from_dict changed its input')
        r2 = get_rupture(R.make_origin(case['origin']), f,
                         mesh_dx=case['mesh_dx'])
        # the written file can itself be rewritten identically
        f2 = os.path.join(tmp, 'again.json')
        r3.writeGeoJson(f2)
        with open(f2) as fh:
            t.require(json.load(fh) == r3in, 'second write differs')
    same_origin(t, r3.getOrigin(), case['origin'])
    same_origin(t, r2.getOrigin(), case['origin'])
    t.require(type(r3) is type(r), 'rupture_from_dict gave %s', type(r3))
    # class picked from the geometry
    devs, off = [], []
    for q in R.poly_quads_geo(polys):
        devs += [abs(q[0][2] - q[1][2]), abs(q[2][2] - q[3][2])]
    for q in R.poly_quads(polys):
        n = np.cross(q[1] - q[0], q[3] - q[0])
        n /= np.linalg.norm(n)
        off.append(abs((q[2] - q[0]) @ n) / np.linalg.norm(q[2] - q[3]))
    if max(devs) < 0.045 and max(off) < 0.045:
        t.require(isinstance(r2, QuadRupture), 'planar quads read as %s',
                  type(r2))
        t.label('class-quad')
    elif max(devs) > 0.055 or max(off) > 0.055:
        t.require(isinstance(r2, EdgeRupture),
                  'non-planar or non-horizontal quads read as %s', type(r2))
        t.label('class-edge')
    for x in (r2, r3):
        t.require(x.getReference() == case['ref'], 'reference lost')
        if type(x) is not type(r):
            continue
        for a in ('lons', 'lats', 'depths'):
            t.require(eq(getattr(x, a), getattr(r, a)), '%s differ', a)
        for m in ('getLength', 'getWidth', 'getArea', 'getStrike', 'getDip',
                  'getDepthToTop'):
            t.require(getattr(x, m)() == getattr(r, m)(), '%s differs', m)
    if not quad:
        t.require(j['metadata']['mesh_dx'] == case['mesh_dx'],
                  'mesh spacing not stored')
        out = outline(polys)
        for k, a in enumerate(('lons', 'lats', 'depths')):
            t.require(eq(getattr(r3, a), out[:, k]),
                      'outline %s differs from the input', a)
    else:
        raw = r3.getRuptureAsArrays()
        out = []
        for p in polys:
            out += [list(x) for x in p[:-1]] + [[np.nan] * 3]
        out = np.array(out)
        for k in range(3):
            t.require(eq(raw[k], out[:, k]), 'vertex arrays differ')
    pl = [R.place(s, polys) for s in case['sites']]
    lon = np.array([p[0] for p in pl])
    lat = np.array([p[1] for p in pl])
    a, b = dists(r, lon, lat), dists(r3, lon, lat)
    for x, y in zip(a, b):
        t.require(eq(x, y), 'distances differ after the round trip: %r %r',
                  x, y)


@sub('C07', 'point_roundtrip', st.tuples(origins(), TEXT), quick=150, thorough=3000,
     rule='point ruptures with generated origin and reference; non-trivial = all')
def point(case, t):
    from impactutils.rupture.point_rupture import PointRupture
    from impactutils.rupture.factory import get_rupture, rupture_from_dict
    d, ref = case
    o = R.make_origin(d)
    r = PointRupture(o, reference=ref)
    t.label('point')
    with scratch() as tmp:
        f = os.path.join(tmp, 'rupture.json')
        r.writeGeoJson(f)
        with open(f) as fh:
            j = json.load(fh)
        r2 = get_rupture(R.make_origin(d), f)
        r3 = rupture_from_dict(j)
    t.require(j['features'][0]['geometry'] == {
        'type': 'Point', 'coordinates': [d['lon'], d['lat'], d['depth']]},
        'point geometry %r', j['features'][0]['geometry'])
    for x in (r2, r3):
        t.require(type(x) is PointRupture, 'read back as %s', type(x))
        same_origin(t, x.getOrigin(), d)
        t.require((x.lons, x.lats, x.depths) == (d['lon'], d['lat'],
                                                 d['depth']), 'position')
        t.require(x.getQuadrilaterals() is None and x.getLength() is None
                  and x.getArea() is None, 'point rupture has an extent')
    r4 = get_rupture(o)
    t.require(type(r4) is PointRupture and r4.getOrigin() is o,
              'the rupture without a file is %r', r4)
    t.require(r3.getReference() == ref, 'reference lost: %r',
              r3.getReference())
    t.require(r2.getReference() == ref, 'reference lost by get_rupture: %r',
              r2.getReference())


DEFECTS = ['collection', 'nofeature', 'twofeatures', 'noreference',
           'featuretype', 'geomtype', 'nocoords', 'unclosed', 'even',
           'upside', 'flat', 'level', 'nometadata']


@st.composite
def defective(draw):
    return dict(spec=draw(R.spec(max_groups=3, max_seg=3, small=True,
                                 dips=fl(20, 90))),
                kind=draw(st.sampled_from(DEFECTS)),
                which=draw(st.integers(0, 2)), at=draw(st.integers(0, 3)),
                word=draw(st.sampled_from(
                    ['Feature', 'feature', 'FeatureSet', 'GeometryCollection',
                     '', 'Polygon', 'LineString', 'MultiPoint',
                     'multipolygon'])),
                point=draw(st.booleans()),
                origin=draw(origins()))


def spoil(d, case):
    """one defect, named by case['kind'], in a well-formed document"""
    k, w = case['kind'], case['word']
    f = d['features'][0]
    if k == 'collection':
        d['type'] = w
    elif k == 'nofeature':
        d['features'] = []
    elif k == 'twofeatures':
        d['features'].append(copy.deepcopy(f))
    elif k == 'noreference':
        del d['metadata']['reference']
    elif k == 'nometadata':
        del d['metadata']
    elif k == 'featuretype':
        f['type'] = 'Fault' if w == 'Feature' else w
    elif k == 'geomtype':
        f['geometry']['type'] = w
    elif k == 'nocoords':
        del f['geometry']['coordinates']
    else:
        ps = f['geometry']['coordinates'][0]
        p = ps[case['which'] % len(ps)]
        n = len(p) // 2
        i = case['at'] % n
        if k == 'unclosed':
            p[-1] = [p[0][0] + [1e-3, 0, 0][i % 3], p[0][1] +
                     [0, 1e-3, 0][i % 3], p[0][2] + [0, 0, 0.5][i % 3]]
        elif k == 'even':
            p.insert(i + 1, list(p[i]))
        elif k == 'upside':
            p[:] = [list(x) for x in p[n:2 * n] + p[:n]]
            p.append(list(p[0]))
        elif k == 'flat':
            for x in p:
                x[2] = 5.0
        elif k == 'level':
            # one pair only, at one depth
            p[i][2] = p[2 * n - 1 - i][2]
            p[-1] = list(p[0])
    return d


@sub('C07', 'refuse', defective(), quick=300, thorough=4000,
     rule='well-formed documents with one defect (type of collection, feature or geometry, feature count, reference, coordinates, unclosed, even, upside-down, flat or partly flat polygon) read as dict and as file; non-trivial = all')
def refuse(case, t):
    from impactutils.rupture.factory import (
        get_rupture, rupture_from_dict, rupture_from_dict_and_origin)
    from impactutils.rupture.quad_rupture import QuadRupture
    from impactutils.rupture.point_rupture import PointRupture
    o = R.make_origin(case['origin'])
    k = case['kind']
    point = case['point'] and DEFECTS.index(k) < 7
    r = (PointRupture(o, reference='ref') if point else
         QuadRupture(R.geojson(R.polygons(case['spec']), 'ref'), o))
    with scratch() as tmp:
        f = os.path.join(tmp, 'rupture.json')
        r.writeGeoJson(f)
        with open(f) as fh:
            d = json.load(fh)
        # the time may also be written without a fraction of a second
        whole = copy.deepcopy(d)
        whole['metadata']['time'] = (d['metadata']['time'].split('.')[0]
                                     .rstrip('Z') + 'Z')
        x = rupture_from_dict(whole)
        same_origin(t, x.getOrigin(), dict(
            case['origin'], time=case['origin']['time'][:6] + (0,)))
        spoil(d, case)
        t.label(k, 'point' if point else 'quad')
        with open(f, 'w') as fh:
            json.dump(d, fh)
        calls = [lambda: rupture_from_dict(copy.deepcopy(d)),
                 lambda: rupture_from_dict_and_origin(copy.deepcopy(d), o),
                 lambda: get_rupture(o, f)]
        for i, c in enumerate(calls):
            try:
                got = c()
            except Exception:
                continue
            t.require(False, 'document with a defect (%s) accepted as %r by '
                      'call %d', k, type(got), i)


@sub('C07', 'codings', st.tuples(
    R.spec(max_groups=2, max_seg=2, small=True, dips=fl(20, 90)),
    st.text(st.characters(exclude_categories=('Cs', 'Cc')), max_size=20),
    st.sampled_from(['utf-8', 'utf-8-sig', 'utf-16', 'latin-1', 'ascii']),
    st.booleans(), origins()),
     quick=120, thorough=1500,
     rule='GeoJSON of other writers: not escaped text in UTF-8, with mark, UTF-16 or Latin-1, indented or not: read with the same reference and outline; non-trivial = text beyond ASCII')
def codings(case, t):
    from impactutils.rupture.factory import get_rupture
    spec, ref, code, indent, od = case
    polys = R.polygons(spec)
    d = R.geojson(polys, ref)
    txt = json.dumps(d, ensure_ascii=code == 'ascii',
                     indent=2 if indent else None)
    try:
        data = txt.encode(code)
        if code == 'latin-1' and data.decode('utf-8') != txt:
            return t.label('-ambiguous')
    except UnicodeEncodeError:
        return t.label('-not in this coding')
    except UnicodeDecodeError:
        pass
    t.label(code if not txt.isascii() else '-ascii')
    with scratch() as tmp:
        f = os.path.join(tmp, 'rupture.json')
        with open(f, 'wb') as fh:
            fh.write(data)
        r = get_rupture(R.make_origin(od), f, mesh_dx=2.0)
    t.require(r.getReference() == ref, 'reference %r, expected %r',
              r.getReference(), ref)
    got = r._geojson['features'][0]['geometry']['coordinates'][0]
    t.require(got == [[list(x) for x in p] for p in polys], 'coordinates %r',
              got)
