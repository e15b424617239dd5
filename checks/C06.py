"""C06: great-circle distance, azimuth, compass names."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import sub
from vp.gen import fl, lats, lons_any

R = 6371.0


def unit(lon, lat):
    lo, la = math.radians(lon), math.radians(lat)
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
            math.sin(la))


def ref_dist(lo1, la1, lo2, la2):
    a, b = unit(lo1, la1), unit(lo2, la2)
    c = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
         a[0] * b[1] - a[1] * b[0])
    return R * math.atan2(math.hypot(*c), sum(p * q for p, q in zip(a, b)))


def ref_az(lo1, la1, lo2, la2):
    """Angle from the local north to the direction of point 2 (degrees),
    with the tangent-plane length of that direction."""
    b = unit(lo2, la2)
    lo, la = math.radians(lo1), math.radians(la1)
    east = (-math.sin(lo), math.cos(lo), 0.0)
    north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo),
             math.cos(la))
    e = sum(p * q for p, q in zip(east, b))
    n = sum(p * q for p, q in zip(north, b))
    return math.degrees(math.atan2(e, n)) % 360.0, math.hypot(e, n)


def adiff(a, b):
    d = abs(a - b) % 360.0
    return min(d, 360.0 - d)


pair = st.one_of(
    st.tuples(lons_any(), lats(), lons_any(), lats()),
    st.tuples(lons_any(), lats(-89, 89), fl(-0.5, 0.5), fl(-0.5, 0.5)).map(
        lambda c: (c[0], c[1], c[0] + c[2], c[1] + c[3])))


@sub('C06', 'distance', st.lists(st.tuples(pair, fl(-8, 700), fl(-8, 700)),
                                 min_size=1, max_size=5),
     quick=1500, thorough=30000,
     rule='1-5 point pairs, global and nearby; non-trivial = points differ')
def distance(case, t):
    from impactutils.extern.openquake.geodetic import (
        geodetic_distance, distance as dist3)
    P = np.array([c[0] for c in case])
    D = np.array([c[1:] for c in case])
    g = geodetic_distance(P[:, 0], P[:, 1], P[:, 2], P[:, 3])
    h = geodetic_distance(P[:, 2], P[:, 3], P[:, 0], P[:, 1])
    g3 = dist3(P[:, 0], P[:, 1], D[:, 0], P[:, 2], P[:, 3], D[:, 1])
    t.require(np.shape(g) == (len(case),), 'shape')
    for i, (c, d1, d2) in enumerate(case):
        r = ref_dist(*c)
        # arcsin form loses precision only next to the antipode
        tol = 1e-5 if r < 0.99 * math.pi * R else 1.0
        t.close(g[i], r, abs_=tol, msg='distance')
        t.close(h[i], r, abs_=tol, msg='distance reversed')
        t.close(geodetic_distance(*c), r, abs_=tol, msg='scalar distance')
        r3 = math.hypot(r, d1 - d2)
        t.close(g3[i], r3, abs_=tol, msg='3-D distance')
        if r > 1e-3:
            t.label('apart')
    # one-to-many broadcasting
    m = geodetic_distance(P[0, 0], P[0, 1], P[:, 2], P[:, 3])
    for i, (c, _, _) in enumerate(case):
        r = ref_dist(P[0, 0], P[0, 1], c[2], c[3])
        t.close(m[i], r, abs_=1e-5 if r < 0.99 * math.pi * R else 1.0,
                msg='one-to-many')


@sub('C06', 'azimuth', st.lists(pair, min_size=1, max_size=4), quick=1500, thorough=30000,
     rule='point pairs; non-trivial = direction well defined (not same, antipodal or at a pole)')
def azim(case, t):
    from impactutils.extern.openquake.geodetic import azimuth
    from impactutils.vectorutils.point import Point
    P = np.array(case)
    a = azimuth(P[:, 0], P[:, 1], P[:, 2], P[:, 3])
    for i, c in enumerate(case):
        az, ln = ref_az(*c)
        s = azimuth(*c)
        p = Point(c[0], c[1]).azimuth(Point(c[2], c[3], 5.0))
        for v in (a[i], s, p):
            t.require(0 <= v <= 360, 'azimuth %r out of range' % v)
            if ln > 1e-6:
                t.require(adiff(v, az) < 1e-6 / ln + 1e-6,
                          'azimuth %r expected %r' % (v, az))
                t.label('defined')


NAMES = [('N', 'North'), ('NNE', 'North-northeast'), ('NE', 'Northeast'),
         ('ENE', 'East-northeast'), ('E', 'East'), ('ESE', 'East-southeast'),
         ('SE', 'Southeast'), ('SSE', 'South-southeast'), ('S', 'South'),
         ('SSW', 'South-southwest'), ('SW', 'Southwest'),
         ('WSW', 'West-southwest'), ('W', 'West'), ('WNW', 'West-northwest'),
         ('NW', 'Northwest'), ('NNW', 'North-northwest')]
STEP = {'cardinal': 4, 'intercardinal': 2, 'meteorological': 1}


def allowed(az, resolution, form, slack):
    """Names whose direction is nearest to az (both on a tie)."""
    k = STEP[resolution]
    cand = [(adiff(az, 22.5 * i), i) for i in range(0, 16, k)]
    best = min(cand)[0]
    return {NAMES[i][form == 'long'] for d, i in cand if d <= best + slack}


res = st.sampled_from(['cardinal', 'intercardinal', 'meteorological'])
form = st.sampled_from(['short', 'long'])
angle = st.one_of(fl(0, 360), fl(-360, 0), st.integers(0, 64).map(lambda k: k * 5.625),
                  st.tuples(st.integers(0, 32), fl(-0.01, 0.01)).map(
                      lambda c: max(0.0, min(360.0, c[0] * 11.25 + c[1]))))


@sub('C06', 'compass_azimuth', st.tuples(angle, res, form), quick=2500, thorough=40000,
     rule='angles incl. sector boundaries, 3 resolutions x 2 formats; non-trivial = not within 1e-9 of a tie')
def comp_az(case, t):
    from impactutils.mapping.compass import get_compass_dir_azimuth
    az, r, f = case
    got = get_compass_dir_azimuth(az, resolution=r, format=f)
    ok = allowed(az, r, f, 1e-9)
    if len(ok) == 1:
        t.label(r + '-' + f)
    t.require(got in ok, 'azimuth %r %s %s -> %r, nearest is %r' % (
        az, r, f, got, ok))
    if r == 'intercardinal' and f == 'short':
        t.require(get_compass_dir_azimuth(az) == got, 'defaults differ')


@sub('C06', 'compass_points', st.tuples(pair, res, form), quick=2000, thorough=30000,
     rule='point pairs, 3 resolutions x 2 formats; non-trivial = direction well defined and not on a tie')
def comp_pts(case, t):
    from impactutils.mapping.compass import get_compass_dir
    c, r, f = case
    az, ln = ref_az(*c)
    got = get_compass_dir(c[1], c[0], c[3], c[2], resolution=r, format=f)
    if ln < 1e-6:
        ok = {n[f == 'long'] for n in NAMES}
    else:
        ok = allowed(az, r, f, 1e-5 / ln + 1e-5)
    if len(ok) == 1:
        t.label(r + '-' + f)
    t.require(got in ok, '%r %s %s -> %r, nearest is %r (azimuth %r)' % (
        c, r, f, got, ok, az))


@sub('C06', 'compass_rejects', st.tuples(angle, st.sampled_from(
    ['format', 'resolution']), st.text(max_size=8)), quick=300, thorough=2000,
     rule='unknown format or resolution names; non-trivial = all')
def comp_rej(case, t):
    from impactutils.mapping.compass import get_compass_dir_azimuth
    az, which, s = case
    if s in ('short', 'long', 'cardinal', 'intercardinal', 'meteorological'):
        return
    t.label(which)
    t.raises(KeyError, get_compass_dir_azimuth, az, **{which: s})
