"""C17: elapsed times and local time by position."""
import json
import os
from datetime import datetime, timedelta
from zoneinfo import ZoneInfo

import numpy as np
from hypothesis import assume, strategies as st

from vp.core import sub
from vp.gen import fl
from vp.util import scratch

UNITS = [('weeks', 604800), ('days', 86400), ('hours', 3600),
         ('minutes', 60), ('seconds', 1)]
ZONES = ['America/New_York', 'America/Los_Angeles', 'Asia/Tokyo',
         'Asia/Kolkata', 'Asia/Kathmandu', 'Europe/London', 'Europe/Helsinki',
         'Pacific/Auckland', 'America/Phoenix', 'Africa/Johannesburg',
         'Australia/Adelaide', 'America/Sao_Paulo', 'Etc/GMT+5', 'UTC']
EPOCH = datetime(1975, 1, 1)


def utc(minutes, seconds=0):
    return EPOCH + timedelta(minutes=minutes, seconds=seconds)


# switches to / from summer time (UTC minutes after EPOCH are close to these)
SWITCH = [datetime(2016, 3, 13, 7), datetime(2016, 11, 6, 6),
          datetime(2016, 3, 13, 10), datetime(2016, 11, 6, 9),
          datetime(2019, 3, 31, 1), datetime(2019, 10, 27, 1),
          datetime(2018, 9, 29, 14), datetime(2018, 3, 31, 14)]
MINUTES = st.one_of(
    st.integers(0, 45 * 365 * 1440),
    st.tuples(st.sampled_from(SWITCH), st.integers(-14 * 60, 14 * 60)).map(
        lambda v: int((v[0] - EPOCH).total_seconds() // 60) + v[1]))


def offset(zone, u):
    z = ZoneInfo(zone)
    return u.replace(tzinfo=ZoneInfo('UTC')).astimezone(z).utcoffset()


@sub('C17', 'elapsed', st.tuples(
    st.integers(0, 10 ** 9), st.integers(0, 999999),
    st.one_of(st.integers(0, 200), st.integers(0, 10 ** 5),
              st.integers(0, 3 * 10 ** 6), st.integers(0, 6 * 10 ** 9),
              st.tuples(st.sampled_from([60, 3600, 86400, 604800]),
                        st.integers(0, 60), st.integers(-1, 1)).map(
                  lambda v: max(0, v[0] * v[1] + v[2]))),
    st.integers(0, 999999)), quick=2000, thorough=40000,
    rule='any start (with microseconds) and difference up to 190 years, biased to unit boundaries; non-trivial = at least one minute')
def elapsed(case, t):
    from impactutils.time.timeutils import ElapsedTime
    s, us, d, du = case
    a = datetime(1970, 1, 1) + timedelta(seconds=s, microseconds=us)
    b = a + timedelta(seconds=d, microseconds=du)
    e = ElapsedTime()
    got = e.getTimeElapsed(a, b)
    rest, want = d, {}
    for name, size in UNITS:
        want[name], rest = divmod(rest, size)
    t.label('minutes' if d >= 60 else '-seconds')
    t.require(set(got) == set(want) and all(got[k] == want[k] for k in want),
              '%d s are %r', d, got)
    big = next((i for i, (k, _) in enumerate(UNITS) if want[k]), 4)

    def part(k):
        n = want[k]
        return '%d %s' % (n, k[:-1] if n == 1 else k)
    exp = part(UNITS[big][0])
    if big < 4:
        exp += ', ' + part(UNITS[big + 1][0])
    t.require(e.getElapsedString(a, b) == exp, '%d s: %r, expected %r', d,
              e.getElapsedString(a, b), exp)
    if b > a:
        t.raises(Exception, e.getTimeElapsed, b, a)
        t.raises(Exception, e.getElapsedString, b, a)


@st.composite
def raster(draw):
    ny, nx = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    rx, ry = (draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 5.0]))
              for _ in '12')
    cross = draw(st.integers(0, 3)) == 0
    if cross:
        west = 180 - rx * draw(st.integers(0, nx))
    else:
        west = draw(st.integers(-180, 180 - int(np.ceil(nx * rx))))
    north = draw(st.integers(-90 + int(np.ceil(ny * ry)), 90))
    names = draw(st.permutations(ZONES))[:draw(st.integers(1, 6))]
    codes = draw(st.lists(st.integers(0, 250), min_size=len(names),
                          max_size=len(names), unique=True))
    cells = draw(st.lists(st.integers(0, len(names) - 1), min_size=nx * ny,
                          max_size=nx * ny))
    pts = draw(st.lists(st.tuples(
        fl(-1, 7), fl(-1, 7), st.sampled_from(['floor', 'ceil', 'round']),
        MINUTES, st.integers(0, 59)), min_size=1, max_size=6))
    far = draw(st.lists(st.tuples(fl(-90, 90), fl(-180, 180)), max_size=2))
    return dict(ny=ny, nx=nx, rx=rx, ry=ry, west=west, north=north,
                names=names, codes=codes, cells=cells, pts=pts, far=far)


def cell_index(x, n, how):
    """Cell of a continuous coordinate, None when rounding could decide."""
    if how == 'floor':
        k = np.floor(x)
    elif how == 'ceil':
        k = np.ceil(x)
    else:
        k = np.floor(x + 0.5)
    edge = x % 1 if how != 'round' else (x + 0.5) % 1
    if min(edge, 1 - edge) < 1e-6 and x not in (0, n):
        return None
    return int(min(max(k, 0), n - 1))


@sub('C17', 'raster_time_zones', raster(), quick=1000, thorough=8000,
     rule='generated time-zone rasters of 1-6 x 1-6 cells (also over the date line), positions in and outside, three rounding methods, times around summer-time switches; non-trivial = all')
def rasters(case, t):
    from PIL import Image
    from impactutils.time.timeutils import TimeConversion
    c = case
    east = c['west'] + c['nx'] * c['rx']
    south = c['north'] - c['ny'] * c['ry']
    e2 = east - 360 if east > 180 else east
    t.label('dateline' if east > 180 else 'plain')
    with scratch() as d:
        f, j = os.path.join(d, 'a.tif'), os.path.join(d, 'a.json')
        arr = np.array([c['codes'][k] for k in c['cells']], dtype=np.uint8)
        Image.fromarray(arr.reshape(c['ny'], c['nx'])).save(f)
        with open(j, 'w') as fh:
            json.dump(dict(zip(c['names'], c['codes'])), fh)
        kw = dict(tiff=f, raster_shape=(c['ny'], c['nx']),
                  extents={'Upper Left': (c['west'], c['north']),
                           'Lower Left': (c['west'], south),
                           'Upper Right': (e2, c['north']),
                           'Lower Right': (e2, south)},
                  resolution=(c['rx'], c['ry']), timezone_coding=j)
        tc = TimeConversion(**kw)
        from impactutils.exceptions import RequiredArgumentError
        for k in list(kw)[1:]:
            t.raises(RequiredArgumentError, TimeConversion, **{
                a: b for a, b in kw.items() if a != k})
    todo = []
    for x, y, how, mi, se in c['pts']:
        lon = c['west'] + x * c['rx']
        lat = c['north'] - y * c['ry']
        if lon > 180:
            lon -= 360
        if abs(lat) <= 90 and lon >= -180:
            todo.append((lat, lon, how, utc(mi, se)))
    for la, lo in c['far']:
        todo.append((la, lo, 'floor', utc(10 ** 6)))
    for lat, lon, how, u in todo:
        # position in the unwrapped frame, moved to the nearest boundary
        xs = lon
        if east > 180 and lon < c['west']:
            xs = lon + 360
            if abs((xs - east) - (c['west'] + 360 - xs)) < 1e-6:
                continue
            if xs - east > c['west'] + 360 - xs:
                xs = c['west']
        xs = min(max(xs, c['west']), east)
        ys = min(max(lat, south), c['north'])
        i = cell_index((xs - c['west']) / c['rx'], c['nx'], how)
        k = cell_index((c['north'] - ys) / c['ry'], c['ny'], how)
        if i is None or k is None:
            continue
        zone = c['names'][c['cells'][k * c['nx'] + i]]
        got = tc.get_timezone_code(lat, lon, rounding_method=how)
        t.require(got == zone, 'zone at (%r, %r) %s is %s, expected %s', lat,
                  lon, how, got, zone)
        lt = tc.to_localtime(u, lat, lon, rounding_method=how)
        t.require(lt.replace(tzinfo=None) == u + offset(zone, u),
                  'local time of %s at %s is %s', u, zone, lt)
        t.require(lt.utcoffset() == offset(zone, u), 'offset')
        loc = lt.replace(tzinfo=None)
        z = ZoneInfo(zone)
        # a local time may come twice; its UTC time is one that gives it
        back = tc.to_localtime(tc.to_utctime(
            loc, lat, lon, rounding_method=how).replace(tzinfo=None), lat,
            lon, rounding_method=how)
        t.require(back.replace(tzinfo=None) == loc, 'the UTC time of %s at '
                  '%s is that of %s', loc, zone, back)
        if loc.replace(tzinfo=z, fold=0).utcoffset() == \
                loc.replace(tzinfo=z, fold=1).utcoffset():
            back = tc.to_utctime(loc, lat, lon, rounding_method=how)
            t.require(back.replace(tzinfo=None) == u and
                      back.utcoffset() == timedelta(0),
                      'UTC of local time %s at %s is %s, expected %s', loc,
                      zone, back, u)
    from impactutils.exceptions import UnsupportedArgumentError
    t.raises(UnsupportedArgumentError, tc.get_timezone_code, 0.0, 0.0,
             rounding_method='nearest')


@st.composite
def shapes(draw):
    n = draw(st.integers(1, 4))
    lat0 = draw(st.integers(-60, 50))
    lon0 = draw(st.integers(-175, 150))
    w = draw(st.sampled_from([1.0, 3.0, 5.0]))
    # strips side by side, cut by a slanted line
    xs = [lon0 + w * i for i in range(n + 1)]
    sl = [draw(fl(-0.2, 0.2)) * w for _ in xs]
    h = draw(st.sampled_from([1.0, 4.0, 8.0]))
    hole = draw(st.integers(0, 2)) == 0
    pts = draw(st.lists(st.tuples(fl(-0.6, n + 0.6), fl(-0.3, 1.3), MINUTES,
                                  st.integers(0, 59)), min_size=1,
                        max_size=5))
    return dict(xs=xs, sl=sl, lat=lat0, h=h, w=w, hole=hole, pts=pts,
                zones=draw(st.permutations(ZONES))[:n])


def polygons(c):
    out = []
    for i, z in enumerate(c['zones']):
        a, b, la, h = c['xs'][i], c['xs'][i + 1], c['lat'], c['h']
        ring = [(a, la), (b, la), (b + c['sl'][i + 1], la + h),
                (a + c['sl'][i], la + h), (a, la)]
        rings = [ring]
        if c['hole'] and i == 0:
            mx, my, r = (a + b) / 2, la + h / 2, min(c['w'], h) * 0.12
            rings.append([(mx - r, my - r), (mx - r, my + r),
                          (mx + r, my + r), (mx + r, my - r),
                          (mx - r, my - r)])
        out.append((z, rings))
    return out


def nautical(lon):
    x = lon / 15.0
    if abs(abs(x % 1) - 0.5) < 1e-6:
        return None
    return timedelta(hours=int(np.floor(x + 0.5)))


@sub('C17', 'polygon_time_zones', shapes(), quick=600, thorough=3000,
     rule='generated shapefile of 1-4 adjacent zones (with hole), one LocalTime object moved through 1-5 positions and times in and outside; non-trivial = all')
def zones(case, t):
    import fiona
    from shapely.geometry import Polygon, Point
    from impactutils.time.timeutils import LocalTime
    polys = polygons(case)
    geo = [(z, Polygon(r[0], r[1:])) for z, r in polys]
    assume(all(g.is_valid for _, g in geo))
    with scratch() as d:
        f = os.path.join(d, 'tz.shp')
        with fiona.open(f, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                        schema={'geometry': 'Polygon',
                                'properties': {'tzid': 'str'}}) as out:
            for z, r in polys:
                out.write({'geometry': {'type': 'Polygon', 'coordinates': r},
                           'properties': {'tzid': z}})
        lt = None
        for x, y, mi, se in case['pts']:
            lon = case['xs'][0] + x * case['w']
            lat = case['lat'] + y * case['h']
            u = utc(mi, se)
            p = Point(lon, lat)
            # straight edges differ between projections: keep a margin
            if min(g.boundary.distance(p) for _, g in geo) < \
                    0.02 * case['w']:
                continue
            if lt is None:
                lt = LocalTime(f, u, lat, lon)
            else:
                t.label('updated')
                lt.update(u, lat, lon)
            zone = next((z for z, g in geo if g.contains(p)), None)
            off = nautical(lon) if zone is None else offset(zone, u)
            if off is None:
                continue
            t.label('inside' if zone else 'outside')
            t.require(lt.getUTCOffset() == off,
                      'offset %r, expected %r (%s)', lt.getUTCOffset(), off,
                      zone)
            t.require(lt.getLocalTime() == u + off, 'local time %r, expected '
                      '%r', lt.getLocalTime(), u + off)
            if zone:
                t.require(lt.getTimeZone() == zone, 'time zone %r, expected '
                          '%r', lt.getTimeZone(), zone)


NE = []


def ne_zones():
    if not NE:
        import fiona
        from shapely.geometry import shape
        import impactutils
        f = os.path.join(os.path.dirname(impactutils.__file__), 'data',
                         'ne_10m_time_zones.shp')
        with fiona.open(f) as c:
            for x in c:
                NE.append((shape(x['geometry']), x['properties']['tz_name1st'],
                           x['properties']['zone']))
    return NE


@sub('C17', 'natural_earth_time_zones',
     st.tuples(fl(-88, 88), fl(-179.5, 179.5), MINUTES), quick=60,
     thorough=1200,
     rule='any position (not within 0.1 degree of a zone boundary) with the bundled Natural Earth zones; oracle: direct point in polygon on longitude/latitude; non-trivial = inside exactly one zone')
def natural_earth(case, t):
    from shapely.geometry import Point
    from impactutils.time.timeutils import LocalTimeNE
    lat, lon, mi = case
    p = Point(lon, lat)
    near = [(g, n, z) for g, n, z in ne_zones() if
            g.bounds[0] - 1 < lon < g.bounds[2] + 1 and
            g.bounds[1] - 1 < lat < g.bounds[3] + 1]
    hit = [(n, z) for g, n, z in near if g.contains(p)]
    if len(hit) != 1 or min(g.boundary.distance(p)
                            for g, n, z in near) < 0.1:
        t.label('-edge')
        return
    t.label('zone')
    u = utc(mi)
    name, z = hit[0]
    try:
        off = offset(name, u)
    except Exception:
        off = timedelta(hours=z)
        t.label('unnamed-zone')
    lt = LocalTimeNE(u, lat, lon)
    t.require(lt.getUTCOffset() == off, 'offset %r, expected %r (%r)',
              lt.getUTCOffset(), off, hit)
    t.require(lt.getLocalTime() == u + off, 'local time')
