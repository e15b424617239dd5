"""C32: geographic points, projections and bounding boxes (vendored)."""
import math
from types import SimpleNamespace
import re

import numpy as np
from hypothesis import strategies as st

from vp.core import sub
from vp.gen import fl, lats, lons

R = 6371.0


def unit(lon, lat):
    lo, la = np.radians(np.asarray(lon, float)), np.radians(
        np.asarray(lat, float))
    return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo),
                     np.sin(la) + 0 * lo], axis=-1)


def gdist(lo1, la1, lo2, la2):
    a, b = unit(lo1, la1), unit(lo2, la2)
    return R * np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1),
                          np.sum(a * b, axis=-1))


def frame(lon, lat):
    lo, la = math.radians(lon), math.radians(lat)
    return (np.array([-math.sin(lo), math.cos(lo), 0.0]),
            np.array([-math.sin(la) * math.cos(lo),
                      -math.sin(la) * math.sin(lo), math.cos(la)]))


def gaz(lo1, la1, lo2, la2):
    e, n = frame(lo1, la1)
    b = unit(lo2, la2)
    return math.degrees(math.atan2(b @ e, b @ n)) % 360.0, math.hypot(
        b @ e, b @ n)


def adiff(a, b):
    d = abs(a - b) % 360.0
    return min(d, 360.0 - d)


def go(lon, lat, az, km):
    """destination on the sphere"""
    e, n = frame(lon, lat)
    c, a = km / R, math.radians(az)
    p = (math.cos(c) * unit(lon, lat)
         + math.sin(c) * (math.cos(a) * n + math.sin(a) * e))
    return (math.degrees(math.atan2(p[1], p[0])),
            math.degrees(math.atan2(p[2], math.hypot(p[0], p[1]))))


DEP = st.one_of(fl(-8.8, 40), fl(0, 700), st.sampled_from([0.0, 10.0]))
POS = st.tuples(lons(), lats(), DEP)
NEAR = st.tuples(fl(0, 360), st.one_of(fl(0, 5), fl(0, 300), fl(0, 9000)))


@sub('C32', 'point', st.tuples(POS, POS, NEAR, fl(-20, 700),
                               st.lists(st.tuples(POS, NEAR), min_size=1,
                                        max_size=4), st.booleans(),
                               st.booleans()),
     quick=400, thorough=8000,
     rule='any point, a second one near or far, a mesh with or without depths in 1-D or 2-D; non-trivial = points differ')
def point(case, t):
    from impactutils.extern.openquake.point import Point
    from openquake.hazardlib.geo.mesh import Mesh
    (lo, la, z), far, (az, km), dz, mesh, deep, flat = case
    p = Point(lo, la, z)
    t.require((p.x, p.y, p.z) == (lo, la, z) ==
              (p.longitude, p.latitude, p.depth), 'attributes')
    m = re.fullmatch(r'POINT\((\S+) (\S+)\)', p.wkt2d)
    t.require(m and (float(m[1]), float(m[2])) == (lo, la), 'wkt %s', p.wkt2d)
    m = re.fullmatch(r'<Latitude=(\S+), Longitude=(\S+), Depth=(\S+)>',
                     str(p))
    t.require(m and repr(p) == str(p), 'text %s', p)
    for s, v, tol in zip(m.groups(), (la, lo, z), (6e-7, 6e-7, 6e-5)):
        t.close(float(s), v, abs_=tol, msg='text of the point')
    t.require(p.on_surface() == (z == 0.0), 'on_surface')
    # going somewhere
    if -8.848 < z + dz < R:
        q = p.point_at(km, dz, az)
        wlo, wla = go(lo, la, az, km)
        # arcsin is blunt close to a pole
        near = 1e-5 if max(abs(la), abs(wla)) < 89 else 3e-4
        t.close(float(gdist(q.longitude, q.latitude, lo, la)), min(
            km, 2 * math.pi * R - km), abs_=near + 1e-7 * km,
            msg='distance of point_at')
        # at a pole every direction is south
        if abs(la) < 89.999:
            t.close(float(gdist(q.longitude, q.latitude, wlo, wla)), 0,
                    abs_=near + 1e-6 * km, msg='point_at')
        t.close(q.depth, z + dz, abs_=1e-9, msg='depth of point_at')
    else:
        t.raises(ValueError, p.point_at, km, dz, az)
    flo, fla = go(lo, la, az, km)
    for b in (far, (flo, fla, far[2])):
        q = Point(*b)
        d = float(gdist(lo, la, b[0], b[1]))
        w = math.hypot(d, z - b[2])
        if d > 0:
            t.label('apart')
        tol = 1e-6 * max(w, 1e-3) + (
            10.0 * R * 2e-16 / max(1e-8, math.pi - d / R)
            if d > 15000 else 0)
        t.close(float(p.distance(q)), w, abs_=tol + 1e-5, msg='distance')
        t.close(float(q.distance(p)), w, abs_=tol + 1e-5, msg='distance back')
        if abs(w - 1e-3) > 2e-5:
            t.require((p == q) == (w < 1e-3) == (not p != q),
                      'equality of points %g km apart', w)
        wa, h = gaz(lo, la, b[0], b[1])
        if h > 1e-5 and abs(la) < 89.99:
            a = float(p.azimuth(q))
            t.require(0 <= a <= 360 and adiff(a, wa) < 1e-3 + 1e-6 / h,
                      'azimuth %r, expected %r', a, wa)
    t.require(p == p and not p != p and not p == None and p != None,  # noqa
              'equality with itself and None')
    pts = [(lo + 0.0, la, z)]
    for b, (a, k) in mesh:
        pts.append(b)
        pts.append(go(lo, la, a, k) + (b[2],))
    if len(pts) % 2:
        pts.append(far)
    A = np.array(pts)
    shape = (-1,) if flat else (2, -1)
    M = Mesh(A[:, 0].reshape(shape), A[:, 1].reshape(shape),
             A[:, 2].reshape(shape) if deep else None)
    if not deep and len(pts) % 4:
        # the meshes of older versions of OpenQuake keep depths of None
        M = SimpleNamespace(lons=M.lons, lats=M.lats, depths=None)
    hd = gdist(lo, la, A[:, 0], A[:, 1])
    full = np.hypot(hd, z - (A[:, 2] if deep else 0.0))
    for got, want in ((p.distance_to_mesh(M), full),
                      (p.distance_to_mesh(M, with_depths=False), hd)):
        t.require(np.shape(got) == np.shape(M.lons), 'shape')
        e = np.abs(np.ravel(got) - want)
        ok = (e <= 1e-5 + 1e-6 * want) | (hd > 19900)
        t.require(ok.all(), 'distance to the mesh %r, expected %r', got, want)
    for r in (50.0, 500.0, float(np.ravel(p.distance_to_mesh(M))[1])):
        c = p.closer_than(M, r)
        t.require(np.shape(c) == np.shape(M.lons), 'shape')
        t.require((np.ravel(c) == (np.ravel(p.distance_to_mesh(M)) <= r))
                  .all(), 'closer_than %r', r)


@sub('C32', 'point_refused',
     st.tuples(st.sampled_from(['lon', 'lat', 'deep', 'high', 'nan', 'ok']),
               POS, st.one_of(fl(1e-9, 400), st.sampled_from([0.0, 1e-9])),
               st.booleans(), st.integers(0, 2)),
     quick=300, thorough=5000,
     rule='coordinates just or far outside their ranges, NaN, and the limits themselves; non-trivial = all')
def refused(case, t):
    from impactutils.extern.openquake.point import Point
    how, c, x, neg, k = case
    c = list(c)
    t.label(how)
    s = -1 if neg else 1
    if how == 'ok':
        c[0], c[1] = [(180.0 * s, c[1]), (c[0], 90.0 * s), (c[0], c[1])][k]
        c[2] = [c[2], 6370.999, -8.847][k]
        p = Point(*c)
        t.require((p.x, p.y, p.z) == tuple(c), 'accepted point changed')
        t.require(Point(c[0], c[1]).depth == 0, 'default depth')
        return
    if how == 'lon':
        c[0] = s * (180.0 + max(x, 1e-9))
    elif how == 'lat':
        c[1] = s * (90.0 + max(x, 1e-9))
    elif how == 'deep':
        c[2] = 6371.0 + x
    elif how == 'high':
        c[2] = -8.848 - x
    else:
        c[k] = float('nan')
    t.raises(ValueError, Point, *c)


@sub('C32', 'spaced_points', st.tuples(
    lons(), lats(-85, 85), DEP, fl(0, 360),
    st.one_of(fl(0, 400), fl(0, 20)), DEP, fl(0.5, 80)),
     quick=300, thorough=5000,
     rule='two points up to 400 km apart at different depths, spacing 0.5-80 km; non-trivial = more than two points')
def spaced(case, t):
    from impactutils.extern.openquake.point import Point
    lo, la, z, az, km, z2, step = case
    lo2, la2 = go(lo, la, az, km)
    p, q = Point(lo, la, z), Point(lo2, la2, z2)
    total = math.hypot(km, z2 - z)
    n = total / step
    # the number of intervals is rounded: the last point may lie beyond q
    if total > 0 and z + (z2 - z) * (n + 0.6) * step / total < -8.84:
        t.label('-ends in the air')
        return
    got = p.equally_spaced_points(q, step)
    if abs(n % 1 - 0.5) > 1e-6:
        t.require(len(got) == int(math.floor(n + 0.5)) + 1,
                  '%d points for %g intervals', len(got), n)
    if len(got) > 2:
        t.label('several')
    t.require(got[0] == p, 'does not begin at the point')
    for i, x in enumerate(got):
        if total == 0:
            break
        f = i * step / total
        wlo, wla = go(lo, la, az, km * f)
        t.close(float(gdist(x.longitude, x.latitude, wlo, wla)), 0,
                abs_=1e-4, msg='point %d off the way' % i)
        t.close(x.depth, z + (z2 - z) * f, abs_=1e-5, msg='depth')


@sub('C32', 'polygon_and_vector', st.tuples(
    lons(), lats(), DEP, st.one_of(fl(0.1, 100), fl(0.1, 3000)),
    st.sampled_from(['list', 'tuple', 'array', 'int', 'f32'])),
     quick=300, thorough=5000,
     rule='circles of 0.1-3000 km radius around any point (poles, date line); vectors as list, tuple, array, integers; non-trivial = all')
def poly(case, t):
    from impactutils.extern.openquake.point import Point
    lo, la, z, r, form = case
    p = Point(lo, la, z)
    t.label(form)
    # OpenQuake polygons cannot hold a pole
    if R * math.radians(90 - abs(la)) > 1.2 * r + 1:
        circle(t, p, lo, la, r)
    v = (R - z) * unit(lo, la)
    if form == 'int':
        v = np.round(v).astype(int)
        if not 0 < R - np.linalg.norm(v) < R:
            return
    elif form == 'f32':
        v = v.astype(np.float32)
    rr = float(np.linalg.norm(np.asarray(v, float)))
    if not -8.847 < R - rr < R:
        return
    x = Point.from_vector(tuple(v.tolist()) if form == 'tuple' else
                          v.tolist() if form in ('list', 'int') else v)
    back = (R - x.depth) * unit(x.longitude, x.latitude)
    t.require(np.linalg.norm(back - np.asarray(v, float)) < 1e-6 * R,
              'from_vector %r, expected %r', back, v)
    t.close(x.depth, R - rr, abs_=1e-6, msg='depth of the vector')


def circle(t, p, lo, la, r):
    t.label('circle')
    g = p.to_polygon(r)
    d = gdist(lo, la, g.lons, g.lats)
    # the projection is orthographic: r = R sin(angle)
    w = R * math.asin(r / R)
    t.require(np.all(np.abs(d - w) < 1e-4 + 1e-6 * w),
              'outline at %r km, expected %r', (d.min(), d.max()), w)
    # all around: neighbours are close to each other, and every direction
    # is there
    b = unit(g.lons, g.lats)
    e, n = frame(lo, la)
    a = np.sort(np.degrees(np.arctan2(b @ e, b @ n)) % 360.0)
    gap = np.diff(np.append(a, a[0] + 360.0))
    t.require(len(a) >= 16 and gap.max() < 25, 'the outline is not a circle')
    step = gdist(g.lons, g.lats, np.roll(g.lons, 1), np.roll(g.lats, 1))
    t.require(step.max() < 2 * w * math.sin(math.radians(15)),
              'the outline jumps')
    t.require(np.all((g.lons >= -180) & (g.lons <= 180)), 'longitudes')


def same_lon(a, b):
    return abs((a - b + 180) % 360 - 180) < 1e-9


@st.composite
def cloud(draw):
    """points around a centre, within a span of degrees of longitude"""
    c = draw(st.one_of(lons(), st.sampled_from([180.0, 179.0, -179.0, 0.0])))
    span = draw(st.sampled_from([0.5, 5.0, 40.0, 85.0]))
    pts = draw(st.lists(st.tuples(fl(-1, 1), fl(-1, 1)), min_size=1,
                        max_size=8))
    la = draw(fl(-80, 80))
    h = min(span, 40.0, 89 - abs(la))
    out = []
    for x, y in pts:
        lo = c + x * span
        lo = (lo + 180) % 360 - 180
        out.append([lo, la + y * h])
    return dict(centre=c, pts=out, off=[x * span for x, _ in pts],
                array=draw(st.booleans()))


@sub('C32', 'boxes', st.tuples(cloud(), lons(), lons()),
     quick=400, thorough=6000,
     rule='1-8 points spanning up to 170 degrees, half of them across the date line; collections wider than that; non-trivial = across the date line')
def boxes(case, t):
    from impactutils.extern.openquake import utils as U
    c, l1, l2 = case
    lo = [p[0] for p in c['pts']]
    la = [p[1] for p in c['pts']]
    if c['array']:
        lo, la = np.array(lo), np.array(la)
    w, e, n, s = U.get_spherical_bounding_box(lo, la)
    t.require((n, s) == (max(la), min(la)), 'latitudes %r', (n, s))
    if max(lo) - min(lo) > 180:
        t.label('date line')
    if not (-180.0 in list(lo) and max(lo) > 179.999) and \
            not (180.0 in list(lo) and min(lo) < -179.999):
        i, j = int(np.argmin(c['off'])), int(np.argmax(c['off']))
        t.require(same_lon(w, lo[i]) and same_lon(e, lo[j]),
                  'box %r..%r, expected %r..%r', w, e, lo[i], lo[j])
    # three points around the globe have no such box
    tri = [-170.0 + (l1 + 180) / 9, -50.0 + (l2 + 180) / 9 - 20,
           90.0 + (l1 + 180) / 9 - 20]
    gaps = np.diff(sorted(tri) + [min(tri) + 360])
    if gaps.max() < 179:
        t.raises(ValueError, U.get_spherical_bounding_box, tri, [0, 1, 2])
    # angles between longitudes
    x = U.get_longitudinal_extent(l1, l2)
    t.require(-180 <= x <= 180 and same_lon(l1 + x, l2),
              'extent %r of %r %r', x, l1, l2)
    cross = U.cross_idl(l1, l2)
    t.require(bool(cross) == (l1 * l2 < 0 and abs(l1 - l2) > 180) and
              bool(cross) == bool(U.cross_idl(l2, l1)), 'cross_idl')
    A = np.array(lo, float)
    keep = A.copy()
    f, flag = U.fix_lons_idl(A)
    t.require(np.array_equal(A, keep), 'the given longitudes were changed')
    over = A.min() < 0 < A.max() and A.max() - A.min() > 180
    t.require(bool(flag) == over, 'flag %r', flag)
    t.require(all(same_lon(p, q) for p, q in zip(f, A)) and
              (not over or f.max() - f.min() <= 180.0 and f.min() > 0),
              'fixed longitudes %r of %r', f, A)
    if not over:
        t.require(np.array_equal(f, A), 'longitudes changed needlessly')
    bb = (float(A.min()), float(min(la)), float(A.max()), float(max(la)))
    fb = U.fix_bounding_box_idl(bb)
    if over:
        t.require(fb == (bb[2], bb[1], bb[0] + 360, bb[3]), 'box %r', fb)
    else:
        t.require(fb == bb, 'box %r', fb)
    for w, e in ((bb[0], bb[2]), (min(l1, l2), max(l1, l2)), (min(l1, 0), 0),
                 (0, max(l1, 0))):
        fb = U.fix_bounding_box_idl((w, -1.0, e, 2.0), fix_idl=True)
        g = [v + 360 if v < 0 else v for v in (w, e)]
        t.require(fb == (min(g), -1.0, max(g), 2.0), 'forced box %r of %r '
                  'to %r', fb, w, e)


@sub('C32', 'boxes_around', st.tuples(
     st.lists(st.one_of(lons(), st.integers(-18, 18).map(lambda k: 10.0 * k),
                        fl(-180, 180)), min_size=2, max_size=7),
     st.sampled_from(['list', 'tuple', 'array'])),
     quick=600, thorough=8000,
     rule='2-7 longitudes anywhere on the globe, often on round values: the box is the complement of the widest gap, when that is wider than 180 degrees, and is refused otherwise; non-trivial = 3 or more different ones')
def boxes_around(case, t):
    from impactutils.extern.openquake import utils as U
    lo, form = case
    la = [float(k) for k in range(len(lo))]
    ring = sorted({x % 360.0 for x in lo})
    t.label('many' if len(ring) > 2 else '-few')
    gaps = [(b - a, b, a) for a, b in zip(ring, ring[1:] +
                                          [ring[0] + 360.0])]
    wide, west, east = max(gaps)
    if abs(wide - 180) < 1e-6:
        return                     # either way round
    f = {'list': list, 'tuple': tuple, 'array': np.array}[form]
    if wide < 180:
        t.label('refused')
        t.raises(ValueError, U.get_spherical_bounding_box, f(lo), f(la))
        t.raises(ValueError, U.OrthographicProjection.from_lons_lats,
                 np.array(lo), np.array(la))
        return
    if len({x for x in lo if abs(x) == 180.0}) == 2:
        t.label('both 180')
    w, e, n, s = U.get_spherical_bounding_box(f(lo), f(la))
    t.require((n, s) == (la[-1], la[0]), 'latitudes %r', (n, s))
    t.require(same_lon(w, west) and same_lon(e, east),
              'box %r..%r of %r, expected %r..%r', w, e, lo, west, east)


def ortho(lo0, la0, lon, lat):
    e, n = frame(lo0, la0)
    p = unit(lon, lat)
    return R * (p @ e), R * (p @ n)


@sub('C32', 'projection', st.tuples(cloud(), st.tuples(lons(), lats())),
     quick=400, thorough=6000,
     rule='projection centred on a box, forward and back, and points too far away; non-trivial = across the date line')
def projection(case, t):
    from impactutils.extern.openquake import utils as U
    c, far = case
    lo = np.array([p[0] for p in c['pts']])
    la = np.array([p[1] for p in c['pts']])
    w, e, n, s = U.get_spherical_bounding_box(lo, la)
    mid = U.get_middle_point(w, n, e, s)
    da, db = gdist(w, n, *mid), gdist(e, s, *mid)
    ab = gdist(w, n, e, s)
    if ab < 19000:
        t.close(float(da), float(ab) / 2, abs_=1e-4, msg='middle')
        t.close(float(db), float(ab) / 2, abs_=1e-4, msg='middle')
    if lo.max() - lo.min() > 180:
        t.label('date line')
    for pr in (U.get_orthographic_projection(w, e, n, s),
               U.OrthographicProjection(w, e, n, s),
               U.OrthographicProjection.from_lons_lats(lo, la)):
        x, y = pr(*mid)
        t.require(abs(x) < 1e-6 and abs(y) < 1e-6, 'centre at %r', (x, y))
        dist = gdist(lo, la, *mid)
        if dist.max() > 10000:
            if dist.max() > 10010:
                t.raises(ValueError, pr, lo, la)
                t.label('-too far')
            continue
        klo, kla = lo.copy(), la.copy()
        x, y = pr(lo, la)
        t.require(np.array_equal(lo, klo) and np.array_equal(la, kla),
                  'input changed')
        wx, wy = ortho(mid[0], mid[1], lo, la)
        t.require(np.abs(x - wx).max() < 1e-6 and
                  np.abs(y - wy).max() < 1e-6, 'projected to %r', (x, y))
        if dist.max() < 9500:
            blo, bla = pr(x, y, reverse=True)
            t.require(np.all(gdist(blo, bla, lo, la) < 1e-4), 'back')
            t.require(np.all((blo >= -180) & (blo <= 180)),
                      'longitudes %r', blo)
        d = float(gdist(far[0], far[1], *mid))
        if d > 10010:
            t.raises(ValueError, pr, np.array([far[0], lo[0]]),
                     np.array([far[1], la[0]]))
        elif d < 10000:
            x, y = pr(far[0], far[1])
            wx, wy = ortho(mid[0], mid[1], far[0], far[1])
            t.require(abs(x - wx) < 1e-6 and abs(y - wy) < 1e-6, 'scalar')


def crosses(p, q, r, s):
    """proper crossing, plus how close it is to a degenerate one"""
    def orient(a, b, c):
        v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        return v / max(1e-12, math.hypot(b[0] - a[0], b[1] - a[1]))
    o = (orient(p, q, r), orient(p, q, s), orient(r, s, p), orient(r, s, q))
    return (o[0] * o[1] < 0 and o[2] * o[3] < 0), min(map(abs, o))


def self_crossing(P):
    hit, margin = False, 1e9
    n = len(P) - 1
    for i in range(n):
        for j in range(i + 2, n):
            h, m = crosses(P[i], P[i + 1], P[j], P[j + 1])
            hit |= h
            margin = min(margin, m)
    return hit, margin


GRID = st.tuples(*[st.integers(-1000, 1000).map(lambda k: k / 1000)] * 2)


@sub('C32', 'lines', st.tuples(
    st.one_of(lons(), st.sampled_from([180.0, -179.9])), lats(-75, 75),
    st.one_of(st.lists(GRID, min_size=3, max_size=8, unique=True),
              st.lists(GRID, min_size=0, max_size=4)),
    st.sampled_from([10.0, 200.0]), st.booleans(), st.booleans()),
     quick=400, thorough=6000,
     rule='random lines of 1-8 points over 10 or 200 km, as open line or closed shape; non-trivial = crosses itself')
def lines(case, t):
    from impactutils.extern.openquake import utils as U
    lo, la, off, km, closed, array = case
    xy = [(0.0, 0.0)] + [(x * km, y * km) for x, y in off]
    ll = [go(lo, la, math.degrees(math.atan2(x, y)), math.hypot(x, y))
          for x, y in xy]
    if len({(round(x, 6), round(y, 6)) for x, y in ll}) != len(ll):
        t.label('-repeated')
        return
    hit, margin = self_crossing(xy)
    if closed and len(xy) > 3:
        h2, m2 = self_crossing(xy[-1:] + xy[:-1])
        hit, margin = hit or h2, min(margin, m2)
    if len(xy) > 3 and margin < 0.01 * km:
        t.label('-nearly touching')
        return
    for a, b in zip(xy, xy[1:]):
        if math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-3 * km:
            t.label('-short')
            return
    lons_, lats_ = [p[0] for p in ll], [p[1] for p in ll]
    if array:
        lons_, lats_ = np.array(lons_), np.array(lats_)
    got = U.line_intersects_itself(lons_, lats_, closed_shape=closed)
    t.label('crossing' if hit else '-simple')
    t.require(bool(got) == hit, 'line_intersects_itself is %r', got)
    if len(xy) >= 4:
        # a line that returns to its first point meets itself
        r = U.line_intersects_itself(list(lons_) + [lons_[0], lons_[1]],
                                     list(lats_) + [lats_[0], lats_[1]])
        t.require(bool(r), 'a line along itself is called simple')
    from impactutils.extern.openquake.point import Point
    pts = [Point(*p) for p in ll]
    rep = []
    for i, p in enumerate(pts):
        rep += [p] * (1 + (i * 7 + len(pts)) % 3)
    want = [p for i, p in enumerate(pts)]
    if pts and min([float(p.distance(q)) for p, q in
                    zip(pts, pts[1:] + pts[:1]) if p is not q] + [1]) > 2e-3:
        n = len(rep)
        got = U.clean_points(rep + rep[:1])
        t.require(len(rep) == n, 'input changed')
        end = [] if len(pts) == 1 else [pts[0]]
        t.require(len(got) == len(want + end) and all(
            a is b for a, b in zip(got, want + end)), 'cleaned points')
    t.require(U.clean_points([]) == [], 'no points')


V3 = st.tuples(fl(-1e4, 1e4), fl(-1e4, 1e4), fl(-1e4, 1e4))


@sub('C32', 'space', st.tuples(
    st.lists(st.tuples(lons(), lats(), DEP), min_size=1, max_size=5),
    st.sampled_from(['scalar', 'list', '1d', '2d', 'nodepth']),
    st.lists(st.tuples(V3, V3), min_size=1, max_size=4), st.booleans()),
     quick=300, thorough=5000,
     rule='positions to and from Cartesian space in every shape, triangle areas, unit vectors; non-trivial = all')
def space(case, t):
    from impactutils.extern.openquake import utils as U
    pts, form, vs, two = case
    t.label(form)
    A = np.array(pts)
    lo, la, z = A.T
    want = (R - z)[:, None] * unit(lo, la)
    if form == 'scalar':
        got = U.spherical_to_cartesian(*pts[0])
        want = want[0]
    elif form == 'list':
        got = U.spherical_to_cartesian(list(lo), list(la), list(z))
    elif form == '1d':
        got = U.spherical_to_cartesian(lo, la, z)
    elif form == '2d':
        s = (1, len(pts))
        got = U.spherical_to_cartesian(lo.reshape(s), la.reshape(s),
                                       z.reshape(s))
        want = want.reshape(s + (3,))
    else:
        got = U.spherical_to_cartesian(lo, la, None)
        want = R * unit(lo, la)
        z = z * 0
    t.require(got.shape == want.shape and np.abs(got - want).max() < 1e-8,
              'vectors %r, expected %r', got, want)
    keep = want.copy()
    blo, bla, bz = U.cartesian_to_spherical(want)
    t.require(np.array_equal(want, keep), 'input changed')
    t.require(np.shape(blo) == np.shape(bla) == np.shape(bz) ==
              want.shape[:-1], 'shape')
    k = 1 if form == 'scalar' else len(pts)
    t.require(np.all(gdist(np.ravel(blo), np.ravel(bla), lo[:k], la[:k])
                     < 1e-4) and
              np.abs(np.ravel(bz) - z[:k]).max() < 1e-7,
              'back at %r', (blo, bla, bz))
    E = np.array(vs)
    e1, e2 = E[:, 0], E[:, 1]
    if len(vs) == 1 or two:
        e1, e2 = e1[0], e2[0]
    area = U.triangle_area(e1, e2, e2 - e1)
    w = np.linalg.norm(np.cross(e1, e2), axis=-1) / 2
    L = np.maximum(np.linalg.norm(e1, axis=-1), np.linalg.norm(e2, axis=-1))
    t.require(np.shape(area) == np.shape(w), 'shape')
    # thin triangles lose half the digits in Heron's formula
    ok = w > 1e-3 * L * L
    t.require(np.all(np.abs(area - w)[ok] <= 1e-6 * w[ok]) if np.ndim(w)
              else (not ok or abs(area - w) <= 1e-6 * w),
              'area %r, expected %r', area, w)
    if np.all(np.linalg.norm(e1, axis=-1) > 1e-3):
        k = e1.copy()
        u = U.normalized(e1)
        t.require(np.array_equal(e1, k), 'input changed')
        t.require(u.shape == e1.shape and np.allclose(
            u * np.linalg.norm(e1, axis=-1)[..., None], e1, rtol=1e-9,
            atol=1e-9), 'unit vectors %r', u)


@sub('C32', 'plane', st.tuples(V3, V3, V3, st.lists(
    st.tuples(fl(-1, 1), fl(-1, 1)), min_size=4, max_size=8), fl(0, 1e-3)),
     quick=200, thorough=3000,
     rule='4-8 points of a plane, exactly or with a little noise; non-trivial = points spread in two directions')
def plane(case, t):
    from impactutils.extern.openquake import utils as U
    o, a, b, ks, noise = case
    o, a, b = map(np.array, (o, a, b))
    n = np.cross(a, b)
    if np.linalg.norm(n) < 1e-2 * np.linalg.norm(a) * np.linalg.norm(b) or \
            min(np.linalg.norm(a), np.linalg.norm(b)) < 10:
        t.label('-degenerate')
        return
    n = n / np.linalg.norm(n)
    b = b * (np.linalg.norm(a) / np.linalg.norm(b))
    P = np.array([o + x * a + y * b for x, y in ks])
    sv = np.linalg.svd(P - P.mean(axis=0))[1]
    if sv[1] < 0.05 * np.linalg.norm(a):
        t.label('-degenerate')
        return
    t.label('plane')
    P += noise * np.array([(-1) ** i for i in range(len(P))])[:, None] * n
    k = P.copy()
    ctr, nor = U.plane_fit(P)
    t.require(np.array_equal(P, k), 'input changed')
    t.close(np.linalg.norm(nor), 1, abs_=1e-9, msg='unit normal')
    t.require(abs(abs(nor @ n) - 1) < 1e-3, 'normal %r, expected %r', nor, n)
    t.require(abs((ctr - o) @ n) < 1e-3 + 1e-9 * np.linalg.norm(o) +
              noise, 'the point is off the plane')


@sub('C32', 'polygon_distance', st.tuples(
    st.lists(st.tuples(st.integers(50, 100), fl(1, 10)), min_size=3,
             max_size=7),
    st.lists(st.tuples(fl(-15, 15), fl(-15, 15)), min_size=1, max_size=6),
    st.sampled_from(['scalar', 'list', '1d', '2d'])),
     quick=300, thorough=5000,
     rule='star-shaped polygons and points inside and outside; non-trivial = a point inside')
def polygon_distance(case, t):
    import shapely.geometry
    from impactutils.extern.openquake import utils as U
    rays, pts, form = case
    az = np.cumsum([g for g, _ in rays])
    az = (az * (360.0 / az[-1])).tolist()
    rays = [(a, r) for a, (_, r) in zip(az, rays)]
    gaps = np.diff(az + [az[0] + 360])
    if gaps.min() < 2 or gaps.max() > 175:
        t.label('-not a star')
        return
    V = np.array([[r * math.sin(math.radians(a)), r * math.cos(
        math.radians(a))] for a, r in rays])
    poly = shapely.geometry.Polygon(V)
    want = []
    for x, y in pts:
        p = np.array([x, y])
        a = math.degrees(math.atan2(x, y)) % 360
        best = 1e9
        inside = False
        for i in range(len(V)):
            q, r = V[i], V[(i + 1) % len(V)]
            s = np.clip((p - q) @ (r - q) / ((r - q) @ (r - q)), 0, 1)
            best = min(best, np.linalg.norm(p - q - s * (r - q)))
            lo = az[i]
            if (a - lo) % 360 <= gaps[i]:
                # same side of this edge as the centre
                def side(z):
                    return ((r[0] - q[0]) * (z[1] - q[1])
                            - (r[1] - q[1]) * (z[0] - q[0]))
                if side(p) * side(np.zeros(2)) >= 0:
                    inside = True
        if inside:
            t.label('inside')
        want.append(0.0 if inside else best)
    A = np.array(pts)
    if form == 'scalar':
        got = U.point_to_polygon_distance(poly, pts[0][0], pts[0][1])
        want = want[:1]
        t.require(got.shape == (1,), 'shape')
    elif form == 'list':
        got = U.point_to_polygon_distance(poly, list(A[:, 0]), list(A[:, 1]))
    else:
        s = (-1,) if form == '1d' else (len(pts), 1)
        got = U.point_to_polygon_distance(poly, A[:, 0].reshape(s),
                                          A[:, 1].reshape(s))
        t.require(got.shape == A[:, 0].reshape(s).shape, 'shape')
    t.require(np.abs(np.ravel(got) - want).max() < 1e-6,
              'distances %r, expected %r', got, want)


class Thing:
    def __init__(self, lon, lat):
        self.lon, self.lat = lon, lat


@sub('C32', 'closest', st.tuples(
    st.one_of(lons(), st.sampled_from([180.0])), lats(-70, 70),
    st.lists(st.tuples(fl(0, 360), fl(0, 150)), min_size=1, max_size=8),
    st.tuples(fl(0, 360), fl(0, 150)), st.booleans(), st.booleans()),
     quick=250, thorough=4000,
     rule='1-8 objects within 150 km of each other and a place among them, with and without an index; non-trivial = several objects')
def closest(case, t):
    from impactutils.extern.openquake import utils as U
    lo, la, obs, (a, k), index, dicts = case
    if len(obs) > 1:
        t.label('several')
    ll = [go(lo, la, x, y) for x, y in obs]
    x, y = go(lo, la, a, k)
    objs = [dict(x=p[0], y=p[1]) if dicts else Thing(*p) for p in ll]
    kw = dict(getlon=lambda o: o['x'], getlat=lambda o: o['y']) if dicts \
        else {}
    keep = U.rtree
    try:
        if not index:
            U.rtree = None
        g = U.GeographicObjects(iter(objs), **kw)
        ob, d = g.get_closest(x, y)
    finally:
        U.rtree = keep
    i = [j for j, o in enumerate(objs) if o is ob]
    t.require(len(i) == 1, 'returned something else: %r', ob)
    ds = [float(gdist(x, y, *p)) for p in ll]
    t.close(float(d), ds[i[0]], abs_=1e-5, msg='distance of the object')
    # the index works in projected space: right to a few parts in a thousand
    t.require(d <= min(ds) * 1.005 + 1e-5, 'at %r km, the closest is at %r',
              d, min(ds))
