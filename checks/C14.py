"""C14: scalar measures and outlines of finite ruptures."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.C11 import edge_polys
from vp import rupgen as R
from vp.core import sub
from vp.gen import fl


def angdiff(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


def tri(a, b, c):
    return 0.5 * float(np.linalg.norm(np.cross(b - a, c - a)))


def quad_dip(q, up):
    n = np.cross(q[3] - q[0], q[1] - q[0])
    n /= np.linalg.norm(n)
    return math.degrees(math.acos(max(-1, min(1, float(n @ up)))))


SPEC = R.spec(max_groups=3, max_seg=3, small=True, ratios=False, bend=30,
              skew=15, dips=st.one_of(fl(10, 85), st.just(45.0)))


@sub('C14', 'quad_measures', SPEC, quick=300, thorough=6000,
     rule='1-3 groups of 1-3 parallelograms, dips 10-85; oracle: ECEF vector geometry of the given corners; non-trivial = all')
def quad_measures(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    polys = R.polygons(case)
    r = QuadRupture(R.geojson(polys), R.make_origin())
    qs, geo = R.poly_quads(polys), R.poly_quads_geo(polys)
    t.label('groups%d' % len(polys), 'quads%d' % min(4, len(qs)))
    top = [float(np.linalg.norm(q[1] - q[0])) for q in qs]
    wid = []
    for q in qs:
        s = (q[1] - q[0]) / np.linalg.norm(q[1] - q[0])
        d = q[3] - q[0]
        wid.append(float(np.linalg.norm(d - (d @ s) * s)))
    t.close(r.getLength(), sum(top), rel=1e-5, abs_=1e-4, msg='length')
    t.close(r.getWidth(), np.mean(wid), rel=1e-5, abs_=1e-4, msg='width')
    t.close(r.getArea(), sum(a * b for a, b in zip(top, wid)), rel=1e-5,
            abs_=1e-3, msg='area')
    for a, b, what in ((r.getIndividualTopLengths(), top, 'top lengths'),
                       (r.getIndividualWidths(), wid, 'widths')):
        t.require(len(a) == len(b) and np.allclose(a, b, rtol=1e-5,
                                                   atol=1e-4),
                  'individual %s %r, expected %r', what, a, b)
    t.close(r.getDepthToTop(), min(g['z'] for g in case), abs_=1e-4,
            msg='depth to top')
    dips = []
    for q, g in zip(qs, geo):
        _, _, up = R.enu(g[0][0], g[0][1])
        dips.append(quad_dip(q, up))
    t.close(r.getDip(), np.mean(dips), abs_=0.01, msg='dip')
    az = []
    for g in geo:
        # spherical azimuth, as everywhere in the package
        lo1, la1, lo2, la2 = map(math.radians, (g[0][0], g[0][1], g[1][0],
                                                g[1][1]))
        az.append(math.atan2(
            math.sin(lo2 - lo1) * math.cos(la2),
            math.cos(la1) * math.sin(la2) - math.sin(la1) * math.cos(la2)
            * math.cos(lo2 - lo1)))
    x = sum(w * math.sin(a) for w, a in zip(top, az))
    y = sum(w * math.cos(a) for w, a in zip(top, az))
    if math.hypot(x, y) > 0.05 * sum(top):
        t.require(angdiff(r.getStrike(), math.degrees(math.atan2(x, y)))
                  < 0.1, 'strike %r, expected %r', r.getStrike(),
                  math.degrees(math.atan2(x, y)))
    else:
        t.label('strike-cancels')
    t.require(r.getNumQuads() == len(qs) and r.getNumGroups() == len(polys),
              'counts')
    # outlines: every group closed, NaN after it
    out = []
    for p in polys:
        out += p + [[np.nan] * 3]
    out = np.array(out)
    for k, a in enumerate(('lons', 'lats', 'depths')):
        got = np.asarray(getattr(r, a))
        d = got - out[:, k]
        if k == 0:
            d = (d + 180) % 360 - 180
        t.require(got.shape == out[:, k].shape and np.array_equal(
            np.isnan(got), np.isnan(out[:, k])), 'outline %s: %r', a, got)
        t.require(np.nanmax(np.abs(d)) < 1e-3, 'outline %s: %r', a, got)
    arr = r.getRuptureAsArrays()
    flat = []
    for p in polys:
        flat += p[:-1] + [[np.nan] * 3]
    flat = np.array(flat)
    for k in range(3):
        t.require(np.array_equal(arr[k], flat[:, k], equal_nan=True),
                  'arrays')
    t.require(np.array_equal(r.getDeps(), flat[:, 2], equal_nan=True),
              'depths')
    # what is handed out is a copy
    q = r.getQuadrilaterals()
    q[0][0].longitude = 77.0
    q.pop()
    t.require(len(r.getQuadrilaterals()) == len(qs) and
              abs(r.getQuadrilaterals()[0][0].longitude - geo[0][0][0])
              < 1e-4 or abs(geo[0][0][0]) > 179.99,
              'getQuadrilaterals is not a copy')


@sub('C14', 'edge_measures', edge_polys(), quick=250, thorough=5000,
     rule='1-3 groups with warped quads; oracle: sphere length of the top edge and triangle areas; non-trivial = all')
def edge_measures(case, t):
    from checks.C13 import sphere
    from impactutils.rupture.edge_rupture import EdgeRupture
    polys = case
    r = EdgeRupture(R.geojson(polys), R.make_origin())
    t.label('groups%d' % len(polys))
    length = 0.0
    tops = []
    for p in polys:
        n = (len(p) - 1) // 2
        tops += [x[2] for x in p[:n]]
        for a, b in zip(p[:n - 1], p[1:n]):
            length += sphere(a[0], a[1], b[0], b[1])
    t.close(r.getLength(), length, rel=1e-5, abs_=1e-3, msg='length')
    qs = R.poly_quads(polys)
    area = sum(tri(q[0], q[1], q[2]) + tri(q[0], q[2], q[3]) for q in qs)
    t.close(r.getArea(), area, rel=1e-5, abs_=1e-3, msg='area')
    t.close(r.getWidth(), area / length, rel=2e-5, abs_=1e-3, msg='width')
    t.close(r.getDepthToTop(), min(tops), abs_=1e-9, msg='depth to top')
    out = []
    for p in polys:
        out += p + [[np.nan] * 3]
    out = np.array(out)
    for k, a in enumerate(('lons', 'lats', 'depths')):
        t.require(np.array_equal(getattr(r, a), out[:, k], equal_nan=True),
                  'outline %s differs', a)
    got = r.getQuadrilaterals()
    geo = R.poly_quads_geo(polys)
    t.require(len(got) == len(geo), 'number of quads')
    for g, w in zip(got, geo):
        for p, x in zip(g, w):
            t.require(abs(p.longitude - x[0]) < 1e-4 and
                      abs(p.latitude - x[1]) < 1e-4 and
                      abs(p.depth - x[2]) < 1e-3, 'corner %r for %r', p, x)
    # area-weighted mean normal
    nv = np.zeros(3)
    nn = np.zeros(3)
    uu = np.zeros(3)
    for q, g in zip(qs, geo):
        for (a, b, c), at in (((q[0], q[1], q[2]), g[1]),
                              ((q[0], q[2], q[3]), g[3])):
            n = np.cross(c - a, b - a) / 2
            w = float(np.linalg.norm(n))
            nv += n
            _, no, up = R.enu(at[0], at[1])
            nn += w * no
            uu += w * up
    if np.linalg.norm(nv) < 0.3 * area:
        t.label('normals-cancel')
        return
    nv /= np.linalg.norm(nv)
    nn /= np.linalg.norm(nn)
    uu /= np.linalg.norm(uu)
    if nv @ uu < 0:
        nv = -nv
    dip = math.degrees(math.acos(max(-1.0, min(1.0, float(nv @ uu)))))
    t.close(r.getDip(), dip, abs_=0.1, msg='dip')
    if 3 < dip < 89.5:
        h = nv - (nv @ uu) * uu
        e = np.cross(nn, uu)
        az = math.degrees(math.atan2(float(h @ e), float(h @ nn)))
        t.require(angdiff(r.getStrike(), az - 90) < 0.1 + 0.3 / math.sin(
            math.radians(dip)), 'strike %r, expected %r', r.getStrike(),
            az - 90)


@sub('C14', 'quad_vectors',
     st.tuples(R.one_group(1, ratios=False, small=True,
                           dips=fl(10, 85)), fl(0.3, 3)),
     quick=250, thorough=5000,
     rule='normal, strike, down-dip and vertical vectors, mesh and plane distance of single quads; non-trivial = all')
def vectors(case, t):
    from impactutils.rupture import utils as U
    from impactutils.rupture.quad_rupture import QuadRupture
    from impactutils.vectorutils.vector import Vector
    g, dx = case
    polys = R.polygons([g])
    q = QuadRupture(R.geojson(polys), R.make_origin()).getQuadrilaterals()[0]
    e = R.poly_quads(polys)[0]
    geo = R.poly_quads_geo(polys)[0]
    t.label('dip%d' % int(g['dip'] // 30))
    _, _, up = R.enu(geo[0][0], geo[0][1])
    s = (e[1] - e[0]) / np.linalg.norm(e[1] - e[0])
    n = np.cross(e[3] - e[0], s)
    n /= np.linalg.norm(n)
    d = np.cross(s, n)
    for name, v, want in (('normal', U.get_quad_normal(q), n),
                          ('strike', U.get_quad_strike_vector(q), s),
                          ('down-dip', U.get_quad_down_dip_vector(q), d),
                          ('vertical', U.get_vertical_vector(q), up)):
        a = v.getArray()
        t.require(np.allclose(a, want, atol=1e-4), '%s vector %r, expected '
                  '%r', name, a, want)
        t.close(np.linalg.norm(a), 1.0, abs_=1e-9, msg='unit length')
    t.require(float(U.get_quad_normal(q).getArray() @ up) > 0,
              'normal points down')
    t.require(float(U.get_quad_down_dip_vector(q).getArray() @ up) < 0,
              'down-dip vector points up')
    t.close(U.get_quad_dip(q), quad_dip(e, up), abs_=0.01, msg='dip')
    t.close(U.get_quad_length(q), np.linalg.norm(e[1] - e[0]), rel=1e-5,
            abs_=1e-5, msg='length')
    dd = e[3] - e[0]
    t.close(U.get_quad_width(q), np.linalg.norm(dd - (dd @ s) * s), rel=1e-5,
            abs_=1e-5, msg='width')
    rq = U.reverse_quad(q)
    t.require([rq[0], rq[1], rq[2], rq[3]] == [q[1], q[0], q[3], q[2]],
              'reversed quad')
    # mesh: corners coincide, regular in between, cells have centres
    m = U.get_quad_mesh(q, dx)
    P = np.stack([m['x'], m['y'], m['z']], -1) / 1000
    ny, nx = P.shape[:2]
    t.require(nx >= 2 and ny >= 2, 'mesh %d x %d', ny, nx)
    u = np.linspace(0, 1, nx)[None, :, None]
    v = np.linspace(0, 1, ny)[:, None, None]
    want = (1 - v) * ((1 - u) * e[0] + u * e[1]) + v * ((1 - u) * e[3]
                                                       + u * e[2])
    t.require(np.allclose(P, want, atol=1e-3), 'mesh points')
    L, W = np.linalg.norm(e[1] - e[0]), np.linalg.norm(e[3] - e[0])
    for size, k in ((L, nx), (W, ny)):
        sp = size / (k - 1)
        t.require(sp <= 1.51 * dx and (k == 2 or sp >= 0.66 * dx),
                  'mesh spacing %r for target %r (side %r)', sp, dx, size)
    for a, sl in (('ul', np.s_[:-1, :-1]), ('ur', np.s_[:-1, 1:]),
                  ('ll', np.s_[1:, :-1]), ('lr', np.s_[1:, 1:])):
        c = np.stack([m[a + 'x'], m[a + 'y'], m[a + 'z']], -1) / 1000
        t.require(np.array_equal(c, P[sl]), 'cell corner %s', a)
    c = np.stack([m['cpx'], m['cpy'], m['cpz']], -1) / 1000
    mid = (P[:-1, :-1] + P[1:, 1:]) / 2
    t.require(np.allclose(c, mid, atol=1e-3), 'cell centres')
    # distance to plane (m)
    V = [Vector(*(1000 * x)) for x in e]
    for k in (-2.5, 0.0, 1.7):
        p = e[0] + 0.3 * (e[1] - e[0]) + 0.6 * (e[3] - e[0]) + k * n
        t.close(U.get_distance_to_plane([V[0], V[1], V[3]],
                                        Vector(*(1000 * p))),
                abs(k) * 1000, abs_=0.5, msg='distance to plane')


@sub('C14', 'slip_vectors',
     st.tuples(fl(0, 360), fl(0, 90), fl(-180, 180)), quick=200,
     thorough=4000,
     rule='strike-slip and dip-slip parts add up; strike slip is along strike; unit length where the two are perpendicular; non-trivial = all')
def slip(case, t):
    from impactutils.rupture import utils as U
    strike, dip, rake = case
    t.label('slip')
    a = U.get_local_unit_slip_vector(strike, dip, rake).getArray()
    s = U.get_local_unit_slip_vector_SS(strike, dip, rake).getArray()
    d = U.get_local_unit_slip_vector_DS(strike, dip, rake).getArray()
    t.require(np.allclose(a, s + d, atol=1e-12), 'components do not add up')
    k, p, r = map(math.radians, case)
    t.require(np.allclose(s, [math.cos(r) * math.sin(k),
                              math.cos(r) * math.cos(k), 0], atol=1e-12),
              'strike-slip part %r', s)
    t.close(np.linalg.norm(d), abs(math.sin(r)), abs_=1e-12,
            msg='size of the dip-slip part')
    t.close(d[2], math.sin(r) * math.sin(p), abs_=1e-12, msg='vertical part')
    # dip slip moves in the vertical plane across a north-south strike
    a = U.get_local_unit_slip_vector(0.0 if strike < 180 else 180.0, dip,
                                     rake).getArray()
    t.close(np.linalg.norm(a), 1.0, abs_=1e-9, msg='unit length')


@sub('C14', 'quad_slip', st.tuples(R.one_group(max_seg=1, small=True,
                                               ratios=False),
                                   st.one_of(fl(-180, 180),
                                             st.sampled_from([0.0, 180.0]))),
     quick=150, thorough=3000,
     rule='slip of a quadrilateral: a unit vector, along the top edge for strike slip, horizontally and in the size of its vertical part the local slip vector of the same strike and dip; non-trivial = all')
def quad_slip(case, t):
    from impactutils.rupture import utils as U
    from impactutils.vectorutils.point import Point
    g, rake = case
    top, bot = R.group_points(g)
    pts = top + bot[::-1]
    e = R.ecef(*np.array(pts).T)
    q = [Point(*p) for p in pts]
    s = U.get_quad_slip(q, rake).getArray().ravel()
    t.close(np.linalg.norm(s), 1.0, abs_=1e-9, msg='length of the slip')
    d = (e[1] - e[0]) / np.linalg.norm(e[1] - e[0])
    t.label('oblique')
    for r, sign in ((0.0, 1), (180.0, -1)):
        a = U.get_quad_slip(q, r).getArray().ravel()
        t.require(np.linalg.norm(sign * a - d) < 0.012, 'slip %r for rake '
                  '%r, the top edge has the direction %r', a, r, d)
    lo, la, _ = R.geodetic(e.mean(axis=0))
    E, N, up = R.enu(float(lo), float(la))
    lo, la = pts[0][0], pts[0][1]
    strike = math.degrees(math.atan2((e[1] - e[0]) @ E, (e[1] - e[0]) @ N))
    loc = U.get_local_unit_slip_vector(strike % 360, U.get_quad_dip(q),
                                       rake).getArray()
    size = np.linalg.norm(loc)
    loc = loc / size
    got = np.array([s @ E, s @ N, abs(s @ up)])
    loc[2] = abs(loc[2])
    # spherical formulas: azimuths are off by up to 0.4 degrees
    t.require(np.linalg.norm(got - loc) < 0.015 / size, 'slip %r in local '
              'coordinates, expected %r', got, loc)


MECH = st.one_of(fl(-180, 180), st.sampled_from(
    [-180.0, -150.0, -30.0, 30.0, 150.0, 180.0, -120.0, -60.0, 60.0, 120.0,
     0.0, 45.0, -90.0, 90.0]))


@sub('C14', 'rake_to_mechanism', MECH, quick=300, thorough=4000,
     rule='any rake in [-180, 180]: within 30 degrees of a pure mechanism it is that mechanism, else ALL; non-trivial = all')
def mech(case, t):
    from impactutils.rupture.utils import rake_to_mech
    r = case
    want = 'ALL'
    if min(abs(r), 180 - abs(r)) <= 30:
        want = 'SS'
    elif abs(r - 90) <= 30:
        want = 'RS'
    elif abs(r + 90) <= 30:
        want = 'NM'
    t.label(want)
    t.require(rake_to_mech(r) == want, '%r is %r, expected %r', r,
              rake_to_mech(r), want)
    t.require(rake_to_mech(None) == 'ALL', 'no rake')
