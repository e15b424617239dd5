"""C04: geographic <-> earth-centred coordinates."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import forms
from vp.core import sub
from vp.gen import lats, lons_any, depths

A = 6378137.0
F = 1 / 298.257223563
E2 = F * (2 - F)


def ref(lat, lon, dep):
    """Independent WGS84 geodetic -> ECEF (via the parametric ellipse)."""
    la, lo, h = math.radians(lat), math.radians(lon), -dep * 1000.0
    b = A * (1 - F)
    # prime-vertical radius written with a and b instead of e
    n = A * A / math.sqrt((A * math.cos(la)) ** 2 + (b * math.sin(la)) ** 2)
    return ((n + h) * math.cos(la) * math.cos(lo),
            (n + h) * math.cos(la) * math.sin(lo),
            (n * b * b / (A * A) + h) * math.sin(la))


def norm_lon(x):
    x = math.fmod(x, 360.0)
    if x > 180:
        x -= 360
    if x <= -180:
        x += 360
    return x


def same_place(t, lat, lon, dep, la2, lo2, de2, what):
    t.require(-90 <= la2 <= 90 and -180 <= lo2 <= 180,
              '%s: out of range (%r, %r)' % (what, la2, lo2))
    t.close(la2, lat, abs_=1e-6, msg=what + ' latitude')
    t.close(de2, dep, abs_=1e-4, msg=what + ' depth')
    if abs(lat) < 89.999:
        d = abs(norm_lon(lo2) - norm_lon(lon))
        d = min(d, 360 - d)
        t.require(d * math.cos(math.radians(lat)) < 1e-6,
                  '%s longitude: got %r expected %r' % (what, lo2, lon))
    a = ref(la2, lo2, de2)
    b = ref(lat, lon, dep)
    for p, q in zip(a, b):
        t.close(p, q, abs_=0.5, msg=what + ' position (m)')


pts = st.lists(st.tuples(lats(), lons_any(), depths()), min_size=1, max_size=6)


@sub('C04', 'forward_matches_wgs84', pts, quick=800, thorough=20000,
     rule='1-6 points lat[-90,90] lon[-540,540] depth[-9,1000]; non-trivial = off-equator point at non-zero depth')
def forward(case, t):
    from impactutils.vectorutils.ecef import latlon2ecef
    la = np.array([c[0] for c in case])
    lo = np.array([c[1] for c in case])
    de = np.array([c[2] for c in case])
    la0, lo0, de0 = la.copy(), lo.copy(), de.copy()
    X = latlon2ecef(la, lo, de)
    t.require(len(X) == 3, 'not a triple')
    for k in range(3):
        t.require(np.shape(X[k]) == la.shape, 'shape changed')
    for i, c in enumerate(case):
        r = ref(*c)
        s = latlon2ecef(float(c[0]), float(c[1]), float(c[2]))
        for k in range(3):
            t.close(X[k][i], r[k], abs_=0.01, msg='array component %d' % k)
            t.close(s[k], r[k], abs_=0.01, msg='scalar component %d' % k)
        if abs(c[0]) > 0.01 and abs(c[2]) > 0.01:
            t.label('off-equator-at-depth')
    t.require((la == la0).all() and (lo == lo0).all() and (de == de0).all(),
              'inputs were modified')


@sub('C04', 'round_trip', st.tuples(pts, st.booleans()), quick=800, thorough=20000,
     rule='points as above through latlon2ecef and back, 1-D and 2-D arrays and scalars; non-trivial = off-equator at depth')
def round_trip(case, t):
    from impactutils.vectorutils.ecef import latlon2ecef, ecef2latlon
    pts_, two_d = case
    la = np.array([c[0] for c in pts_])
    lo = np.array([c[1] for c in pts_])
    de = np.array([c[2] for c in pts_])
    if two_d:
        la, lo, de = [np.vstack((v, v[::-1])) for v in (la, lo, de)]
        t.label('-2d')
    x, y, z = latlon2ecef(la, lo, de)
    x0, y0, z0 = x.copy(), y.copy(), z.copy()
    la2, lo2, de2 = ecef2latlon(x, y, z)
    t.require((x == x0).all() and (y == y0).all() and (z == z0).all(),
              'inputs were modified')
    for v in (la2, lo2, de2):
        t.require(isinstance(v, np.ndarray) and v.shape == la.shape,
                  'shape changed: %r -> %r' % (la.shape, np.shape(v)))
    for idx in np.ndindex(la.shape):
        same_place(t, la[idx], lo[idx], de[idx],
                   la2[idx], lo2[idx], de2[idx], 'array')
    for c in pts_:
        s = ecef2latlon(*[float(v) for v in latlon2ecef(*c)])
        for v in s:
            t.require(np.ndim(v) == 0, 'scalar in, array out')
        same_place(t, c[0], c[1], c[2], *s, what='scalar')
        if abs(c[0]) > 0.01 and abs(c[2]) > 0.01:
            t.label('off-equator-at-depth')
        if abs(c[1]) > 170:
            t.label('-near-antimeridian')


@sub('C04', 'inverse_of_raw_ecef',
     st.tuples(lats(), lons_any(), depths()), quick=600, thorough=20000,
     rule='ECEF triples produced by the independent reference; non-trivial = all')
def inverse(case, t):
    from impactutils.vectorutils.ecef import ecef2latlon
    from impactutils.vectorutils.vector import Vector
    x, y, z = ref(*case)
    s = ecef2latlon(x, y, z)
    same_place(t, case[0], case[1], case[2], *s, what='ecef2latlon')
    p = Vector(x, y, z).toPoint()
    same_place(t, case[0], case[1], case[2], p.latitude, p.longitude, p.depth,
               what='Vector.toPoint')
    t.label('point')


@sub('C04', 'vector_point_round_trip',
     st.tuples(lats(), lons_any(), depths()), quick=600, thorough=20000,
     rule='Point -> Vector -> Point; non-trivial = all')
def vec(case, t):
    from impactutils.vectorutils.vector import Vector
    from impactutils.vectorutils.point import Point
    lat, lon, dep = case
    pt = Point(lon, lat, dep)
    t.require((pt.x, pt.y, pt.z) == (lon, lat, dep) and
              (pt.longitude, pt.latitude, pt.depth) == (lon, lat, dep),
              'Point accessors')
    t.require(Point(lon, lat).depth == 0 and Point(lon, lat).z == 0,
              'default depth is not 0')
    v = Vector.fromPoint(pt)
    for g, r in zip((v.x, v.y, v.z), ref(lat, lon, dep)):
        t.close(g, r, abs_=0.01, msg='Vector.fromPoint')
    p = v.toPoint()
    same_place(t, lat, lon, dep, p.latitude, p.longitude, p.depth,
               'fromPoint/toPoint')
    v2 = Vector.fromTuple(v.getTuple())
    t.require((v2.x, v2.y, v2.z) == (v.x, v.y, v.z), 'fromTuple(getTuple)')
    t.label('point')


WHOLE = st.lists(st.tuples(st.integers(-90, 90), st.integers(-180, 360),
                           st.integers(-9, 700)), min_size=1, max_size=6)


@sub('C04', 'array_forms', st.tuples(WHOLE, st.booleans()), quick=200,
     thorough=3000,
     rule='whole degrees and kilometres, and whole metres, as integers of any size (also unsigned), single precision, read-only, strided arrays and NumPy scalars: the same result as double precision; all non-trivial')
def array_forms(case, t):
    from impactutils.vectorutils.ecef import ecef2latlon, latlon2ecef
    pts, positive = case
    if positive:
        pts = [tuple(abs(v) for v in p) for p in pts]
    t.label('positive' if positive else 'any')
    cols = list(map(list, zip(*pts)))
    forms.same(t, lambda *c: dict(zip('xyz', latlon2ecef(*c))), 'xyz', cols, 2.0)
    if positive:
        for dt in ('uint8', 'uint16', 'uint32', 'uint64'):
            p2 = [(p[0], p[1] % 256, p[2] % 256) for p in pts] \
                if dt == 'uint8' else pts
            got = latlon2ecef(*[np.array(c).astype(dt) for c in zip(*p2)])
            for i, p in enumerate(p2):
                for k, w in enumerate(ref(*p)):
                    t.close(got[k][i], w, abs_=2.0, msg=dt)
                one = latlon2ecef(*[np.dtype(dt).type(v) for v in p])
                for k, w in enumerate(ref(*p)):
                    t.close(one[k], w, abs_=2.0, msg=dt + ' scalar')
    xyz = [tuple(round(v) for v in ref(*p)) for p in pts]
    cols = list(map(list, zip(*xyz)))
    for dt in ('int64', 'int32', 'float32', '>f8'):
        c = [np.array(v).astype(dt) for v in cols]
        la, lo, de = ecef2latlon(*c)
        for i in range(len(pts)):
            at = [float(v[i]) for v in c]
            for what, got in (('array', (la[i], lo[i], de[i])),
                              ('scalar', ecef2latlon(*[v[i] for v in c]))):
                for w, g in zip(at, ref(*map(float, got))):
                    t.close(g, w, abs_=5.0 if dt == 'float32' else 0.05,
                            msg='%s %s' % (dt, what))
