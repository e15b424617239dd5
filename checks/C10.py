"""C10: distances to quadrilateral ruptures."""
import numpy as np
from hypothesis import strategies as st

from vp import forms as F
from vp import rupgen as R
from vp.core import sub
from vp.gen import fl


@st.composite
def case(draw, **kw):
    return dict(spec=draw(R.spec(max_groups=3, max_seg=3, **kw)),
                sites=draw(R.sites(n=6)),
                deps=draw(st.lists(st.one_of(st.just(0.0), fl(-3, 30)),
                                   min_size=6, max_size=6)),
                grid=draw(st.booleans()))


def setup(case):
    from impactutils.rupture.quad_rupture import QuadRupture
    polys = R.polygons(case['spec'])
    r = QuadRupture(R.geojson(polys), R.make_origin())
    pl = [R.place(s, polys) for s in case['sites']]
    lon = np.array([p[0] for p in pl])
    lat = np.array([p[1] for p in pl])
    return polys, r, lon, lat


def shaped(case, a):
    """the same sites as a 2-D grid of two equal rows"""
    return np.array([a, a[::-1]]) if case['grid'] else a


def labels(t, case):
    t.label('groups%d' % len(case['spec']))
    if sum(len(g['len']) for g in case['spec']) > 1:
        t.label('multi-quad')
    if any(g['dip'] == 90.0 for g in case['spec']):
        t.label('vertical')


@sub('C10', 'rrup_is_shortest_distance', case(), quick=300, thorough=8000,
     rule='1-3 groups of 1-3 planar trapezoids anywhere within +-65 deg latitude, 1-6 sites 0-250 km away at depth -3..30 km, 1-D and 2-D; non-trivial = all')
def rrup(case, t):
    polys, r, lon, lat = setup(case)
    labels(t, case)
    dep = np.array(case['deps'][:len(lon)])
    L, A, D = shaped(case, lon), shaped(case, lat), shaped(case, dep)
    c0 = (L.copy(), A.copy(), D.copy())
    got, var = r.computeRrup(L, A, D)
    t.require(var is None, 'variance of a finite rupture')
    t.require(np.shape(got) == L.shape, 'shape %r for %r', np.shape(got),
              L.shape)
    t.require(all(np.array_equal(a, b) for a, b in zip((L, A, D), c0)),
              'site arrays were modified')
    qs = R.poly_quads(polys)
    E = R.ecef(L.ravel(), A.ravel(), D.ravel())
    for i, p in enumerate(E):
        ref = min(R.quad_dist(p, q) for q in qs)
        t.close(got.ravel()[i], ref, abs_=1e-4, rel=1e-6,
                msg='Rrup of site %d' % i)
    # a site's distance does not depend on the other sites
    one, _ = r.computeRrup(lon[:1], lat[:1], dep[:1])
    t.close(one[0], got.ravel()[0], abs_=1e-7, msg='Rrup alone')


@sub('C10', 'rjb_is_distance_to_projection', case(), quick=300, thorough=8000,
     rule='same ruptures, surface sites; oracle: geodesic plane around the site; non-trivial = all')
def rjb(case, t):
    polys, r, lon, lat = setup(case)
    labels(t, case)
    L, A = shaped(case, lon), shaped(case, lat)
    z = np.zeros_like(L)
    got, var = r.computeRjb(L, A, z)
    rr, _ = r.computeRrup(L, A, z)
    t.require(var is None and np.shape(got) == L.shape, 'shape')
    geo = R.poly_quads_geo(polys)
    for i in range(L.size):
        lo, la, g = L.ravel()[i], A.ravel()[i], float(got.ravel()[i])
        refs = [R.surf_poly_dist(lo, la, q) for q in geo]
        ref = min(a for a, b in refs)
        edge = min(b for a, b in refs)
        tol = 0.11 + 1e-3 * ref
        t.require(g >= 0, 'negative distance')
        # straight chords cut up to 80 m below the surface: close to an edge
        # either side of it is acceptable
        if ref == 0 and edge > 0.11:
            t.require(g == 0, 'Rjb %r of a site %.3f km inside the '
                      'projection', g, edge)
            t.label('inside')
        else:
            t.close(g, ref, abs_=tol, msg='Rjb of site %d' % i)
        # never farther horizontally than in three dimensions
        t.require(float(rr.ravel()[i]) >= g - 0.12 - 1e-3 * g,
                  'Rrup %r < Rjb %r', rr.ravel()[i], g)


@st.composite
def globe(draw):
    return dict(spec=draw(R.spec(max_groups=2, max_seg=2)), at=draw(st.lists(
        st.tuples(fl(-180, 180), fl(-90, 90), st.one_of(st.just(0.0), fl(
            -3, 700))), min_size=1, max_size=6)), anti=draw(st.booleans()))


@sub('C10', 'sites_anywhere', globe(), quick=150, thorough=4000,
     rule='sites anywhere on the globe, also at the other side and deep: Rrup is the straight distance, Rjb of surface sites between chord and arc; non-trivial = a site more than 5000 km away')
def sites_anywhere(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    polys = R.polygons(case['spec'])
    r = QuadRupture(R.geojson(polys), R.make_origin())
    lon, lat, dep = (np.array(x) for x in zip(*case['at']))
    if case['anti']:
        x, y = polys[0][0][:2]
        lon[0], lat[0] = R.shift_lon(x, 180.0), -y
    got = r.computeRrup(lon, lat, dep)[0]
    rj = r.computeRjb(lon, lat, dep * 0)[0]
    qs = R.poly_quads(polys)
    flat = R.poly_quads([[[x, y, 0.0] for x, y, z in p] for p in polys])
    far = False
    for i, p in enumerate(R.ecef(lon, lat, dep)):
        ref = min(R.quad_dist(p, q) for q in qs)
        far = far or ref > 5000
        t.close(got[i], ref, abs_=1e-4, rel=1e-6, msg='Rrup of site %d' % i)
        p = R.ecef(lon[i:i + 1], lat[i:i + 1], np.zeros(1))[0]
        ref = min(R.quad_dist(p, q) for q in flat)
        a = min(ref / 12713.5, 1.0)
        t.require(ref * 0.998 - 0.2 <= rj[i] <= 12713.5 * np.arcsin(a)
                  * 1.002 + 0.2, 'Rjb %r of a site %r km away', rj[i], ref)
    t.label('far' if far else '-near')


@st.composite
def vcase(draw):
    n = draw(st.integers(1, 3))
    lat, lon = draw(fl(-60, 60)), draw(st.one_of(
        fl(-180, 180), st.sampled_from([-118.0, 179.99])))
    if draw(st.booleans()):
        lat, lon = round(lat, 2), round(lon, 2)
    az = draw(st.one_of(fl(0, 360), st.sampled_from([0.0, 90.0, 180.0])))
    return dict(lat=lat, lon=lon, az=[az] + [
        (az + draw(fl(-30, 30))) % 360 for _ in range(n - 1)],
        len=[draw(fl(2, 40)) for _ in range(n)], z=draw(fl(0, 10)),
        width=draw(fl(2, 25)), sites=draw(R.sites(n=4)))


@sub('C10', 'vertical_rupture', vcase(), quick=250, thorough=5000,
     rule='exactly vertical ruptures (bottom edge straight below the top edge); non-trivial = all')
def vertical(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    top = [[case['lon'], case['lat'], case['z']]]
    for a, ln in zip(case['az'], case['len']):
        lo, la = R.step(top[-1][0], top[-1][1], a, ln)
        top.append([float(lo), float(la), case['z']])
    bot = [[a, b, c + case['width']] for a, b, c in top]
    polys = [top + bot[::-1] + [top[0]]]
    r = QuadRupture(R.geojson(polys), R.make_origin())
    t.label('vertical')
    pl = [R.place(s, polys) for s in case['sites']]
    lon = np.array([p[0] for p in pl])
    lat = np.array([p[1] for p in pl])
    z = np.zeros_like(lon)
    rr = r.computeRrup(lon, lat, z)[0]
    rj = r.computeRjb(lon, lat, z)[0]
    qs = R.poly_quads(polys)
    E = R.ecef(lon, lat, z)
    geo = R.poly_quads_geo(polys)
    for i in range(len(lon)):
        ref = min(R.quad_dist(E[i], q) for q in qs)
        t.close(rr[i], ref, abs_=0.12, rel=1e-3, msg='Rrup')
        ref = min(R.surf_poly_dist(lon[i], lat[i], q)[1] for q in geo)
        t.close(rj[i], ref, abs_=0.12, rel=1e-3, msg='Rjb')


LINE = st.fixed_dictionaries({
    'at': st.tuples(st.sampled_from([0.0, 45.0, -120.5, 180.0, -180.0, 179.9,
                                     13.37]),
                    st.sampled_from([0.0, 0.0, 35.0, -41.25, 60.0, 12.3])),
    'dir': st.sampled_from([(0, 1), (0, 1), (0, -1), (1, 0), (1, 0), (-1, 0),
                            (1, 1), (-2, 1)]),
    'deg': st.sampled_from([0.01, 0.1, 0.25, 0.3]),
    'segs': st.integers(1, 3), 'two': st.booleans(),
    'z': st.sampled_from([0.0, 0.0, 5.0]),
    'dip': st.sampled_from(['vertical', 'vertical', 'dipping']),
    'f': st.lists(st.sampled_from(
        [-12.0, -5.0, -3.0, -1.0, -0.5, -0.001, 0.0, 0.25, 0.5, 1.0, 1.001,
         1.5, 2.0, 3.0, 4.0, 7.0, 15.0]), min_size=1, max_size=6)})


@sub('C10', 'sites_in_line', LINE, quick=300, thorough=6000,
     rule='sites exactly in line with ruptures along meridians, the equator and others, beyond the ends and on the trace and its vertices: Rjb and Rrup; non-trivial = a site beyond an end of a vertical rupture')
def sites_in_line(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    (lo, la), (dx, dy), k = case['at'], case['dir'], case['deg']
    n = case['segs']

    def at(f):
        return [R.shift_lon(lo, f * k * dx) if dx else lo, la + f * k * dy]

    def strip(a, b, m):
        top = [at(a + (b - a) * i / m) + [case['z']] for i in range(m + 1)]
        if case['dip'] == 'vertical':
            bot = [[x, y, 12.0] for x, y, _ in top]
        else:
            bot = [[R.shift_lon(x, 0.05 * dy), y - 0.05 * dx, 12.0]
                   for x, y, _ in top]
        return top + bot[::-1] + [top[0]]
    polys = [strip(0, n, n)]
    if case['two']:
        # another one in the same line
        polys.append(strip(n + 1.5, n + 2.5, 1))
    r = QuadRupture(R.geojson(polys), R.make_origin())
    lon, lat = np.array([at(f) for f in case['f']]).T
    z = np.zeros(len(lon))
    rr = r.computeRrup(lon, lat, z)[0]
    rj = r.computeRjb(lon, lat, z)[0]
    geo = R.poly_quads_geo(polys)
    qs = R.poly_quads(polys)
    E = R.ecef(lon, lat, z)
    beyond = False
    for i in range(len(lon)):
        ref = min(R.surf_poly_dist(lon[i], lat[i], q)[1] for q in geo)
        beyond = beyond or ref > 1
        # (chords are shorter than arcs)
        t.close(rj[i], ref, abs_=0.12 + ref ** 3 / 8e8, rel=1e-3, msg='Rjb')
        ref = min(R.quad_dist(E[i], q) for q in qs)
        t.close(rr[i], ref, abs_=0.12, rel=1e-3, msg='Rrup')
    t.label('beyond' if beyond and case['dip'] == 'vertical' else '-other')


@st.composite
def mcase(draw):
    c = draw(case())
    c['dlon'] = draw(st.one_of(fl(-180, 180), st.sampled_from([180.0, 90.0])))
    c['perm'] = draw(st.randoms(use_true_random=False)).random()
    return c


@sub('C10', 'rotation_and_union', mcase(), quick=150, thorough=4000,
     rule='rotating rupture and sites in longitude (also over the date line), reordering groups, and taking groups apart; non-trivial = all')
def meta(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    polys, r, lon, lat = setup(case)
    labels(t, case)
    dep = np.array(case['deps'][:len(lon)])
    base = r.computeRrup(lon, lat, dep)[0], r.computeRjb(lon, lat, dep * 0)[0]
    o = R.make_origin()
    d = case['dlon']
    rp = [[[R.shift_lon(x, d), y, z] for x, y, z in p] for p in polys]
    rl = np.array([R.shift_lon(x, d) for x in lon])
    rot = QuadRupture(R.geojson(rp), o)
    for a, b, what in zip((rot.computeRrup(rl, lat, dep)[0],
                           rot.computeRjb(rl, lat, dep * 0)[0]), base,
                          ('Rrup', 'Rjb')):
        for x, y in zip(a, b):
            if what == 'Rjb' and min(x, y) == 0 and max(x, y) < 0.12:
                continue
            t.close(x, y, abs_=1e-3, msg='%s after rotation by %r' % (what, d))
    k = int(case['perm'] * len(polys))
    pp = polys[k:] + polys[:k]
    per = QuadRupture(R.geojson(pp), o)
    parts = [QuadRupture(R.geojson([p]), o) for p in polys]
    for j, (what, fn) in enumerate((
            ('Rrup', lambda q: q.computeRrup(lon, lat, dep)[0]),
            ('Rjb', lambda q: q.computeRjb(lon, lat, dep * 0)[0]))):
        x = fn(per)
        y = np.min([fn(q) for q in parts], axis=0)
        for a, b, c in zip(x, y, base[j]):
            t.close(a, c, abs_=1e-6, msg=what + ' after reordering groups')
            t.close(b, c, abs_=1e-6, msg=what + ' as minimum over groups')


@sub('C10', 'depth_on_plane',
     st.tuples(R.spec(max_groups=1, max_seg=3, small=True, ratios=False,
                      bend=15, skew=8, dips=fl(10, 75)),
               fl(0.03, 0.97), fl(0.03, 0.97), st.integers(0, 2),
               fl(0, 360), fl(2, 50)),
     quick=200, thorough=4000,
     rule='depth of the rupture plane below a surface point over a dipping quad, NaN off the projection; non-trivial = all')
def depth_at(case, t):
    import math
    from impactutils.rupture.quad_rupture import QuadRupture
    spec, u, v, k, az, km = case
    polys = R.polygons(spec)
    r = QuadRupture(R.geojson(polys), R.make_origin())
    qs = R.poly_quads(polys)
    q = qs[k % len(qs)]
    p = (1 - v) * ((1 - u) * q[0] + u * q[1]) + v * ((1 - u) * q[3] + u * q[2])
    lo, la, de = map(float, R.geodetic(p))
    t.label('top%d' % (spec[0]['z'] > 0), 'quads%d' % len(qs))
    d = float(r.getDepthAtPoint(la, lo))
    t.close(d, de, abs_=0.2 + 0.12 * math.tan(math.radians(spec[0]['dip'])),
            msg='depth of the plane')
    lo, la = R.step(lo, la, az, 300 + km)
    t.require(math.isnan(float(r.getDepthAtPoint(float(la), float(lo)))),
              'depth off the rupture is not NaN')


@sub('C10', 'depth_of_the_plane_below',
     st.tuples(R.spec(max_groups=1, max_seg=2, small=True, ratios=False,
                      bend=15, skew=8, dips=fl(10, 60)),
               fl(0.05, 0.95), fl(0.05, 0.95), st.integers(0, 1), fl(8, 25),
               fl(0, 360), fl(1, 6), fl(2, 20), fl(0, 40), st.booleans(),
               st.booleans()),
     quick=120, thorough=3000,
     rule='a point over a deep dipping plane with the upright strip of another group or another rupture part reaching the surface closer by than the plane is deep: the depth is that of the plane below; non-trivial = the strip is closer in space than the plane')
def depth_below(case, t):
    import math
    from impactutils.rupture.quad_rupture import QuadRupture
    spec, u, v, k, top, az, km, ln, turn, first, bottom = case
    spec = [dict(g, z=top) for g in spec]
    deep = R.polygons(spec)
    qs = R.poly_quads(deep)
    q = qs[k % len(qs)]
    p = (1 - v) * ((1 - u) * q[0] + u * q[1]) + v * ((1 - u) * q[3] + u * q[2])
    lo, la, de = map(float, R.geodetic(p))
    slo, sla = R.step(lo, la, az, km)
    strip = R.polygons([dict(lat=float(sla), lon=float(slo), z=0.0,
                             az=[(az + turn - 20) % 360], len=[ln],
                             dip=90.0, width=12.0 if bottom else 3.0)])
    r = QuadRupture(R.geojson(strip + deep if first else deep + strip),
                    R.make_origin())
    site = R.ecef(np.array([lo]), np.array([la]), np.zeros(1))[0]
    near = min(R.quad_dist(site, x) for x in R.poly_quads(strip)) \
        < min(R.quad_dist(site, x) for x in qs)
    t.label('strip nearer' if near else '-plane nearer',
            'strip first' if first else 'strip last')
    t.close(float(r.getDepthAtPoint(la, lo)), de,
            abs_=0.2 + 0.12 * math.tan(math.radians(spec[0]['dip'])),
            msg='depth of the plane below the point')


def wrap(x):
    return (x + 179) % 360 - 179


def whole_degrees(v):
    """polygons of one or two groups with corners at whole degrees"""
    (lon, lat), (dx, dy), two = v
    if dx == dy == 0:
        dx = 1
    out = []
    for k in range(2 if two else 1):
        a = [wrap(lon + 3 * k), lat, 0.0]
        b = [wrap(lon + 3 * k + dx), lat + dy, 0.0]
        c, d = list(b), list(a)
        c[2] = d[2] = 12.0
        out.append([a, b, c, d, a])
    return out


@sub('C10', 'array_forms', st.tuples(F.PLACES, st.tuples(
    st.integers(-1, 1), st.integers(-1, 1)), st.booleans(), F.INTS),
     quick=40, thorough=800,
     rule='sites at whole degrees as arrays of integers, single precision, read-only, strided, Fortran order, one column: the same distances as double precision; all non-trivial')
def array_forms(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    polys = whole_degrees(case[:3])
    r = QuadRupture(R.geojson(polys), R.make_origin())
    lon, lat = case[0]
    t.label('two groups' if case[2] else 'one group')
    F.same(t, lambda x, y, z: {'Rrup': r.computeRrup(x, y, z)[0],
                               'Rjb': r.computeRjb(x, y, z)[0]},
           ['Rrup', 'Rjb'], [[wrap(lon + s[0]) for s in case[3]],
                             [lat + s[1] for s in case[3]],
                             [s[2] for s in case[3]]], 0.01)
