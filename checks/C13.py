"""C13: point ruptures, point distances and the get_distance interface."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.C11 import edge_polys
from vp import forms as F
from vp import rupgen as R
from vp.core import sub
from vp.gen import fl

ALL = ['repi', 'rhypo', 'rjb', 'rrup', 'rx', 'ry', 'ry0', 'U', 'T', 'rvolc']
RE = 6371.0


def sphere(lo1, la1, lo2, la2):
    def v(lo, la):
        lo, la = math.radians(lo), math.radians(la)
        return np.array([math.cos(la) * math.cos(lo),
                         math.cos(la) * math.sin(lo), math.sin(la)])
    a, b = v(lo1, la1), v(lo2, la2)
    return RE * math.atan2(float(np.linalg.norm(np.cross(a, b))),
                           float(a @ b))


@st.composite
def org(draw):
    lat = draw(st.one_of(fl(-85, 85), st.sampled_from([0.0, 34.2])))
    lon = draw(st.one_of(fl(-180, 180), st.sampled_from([180.0, -118.0])))
    return dict(lat=lat, lon=lon, depth=draw(st.one_of(
        st.sampled_from([0.0, 10.0]), fl(0, 300))), mag=draw(fl(4, 8.5)))


@st.composite
def pcase(draw, n=5, far=500):
    o = draw(org())
    sites = draw(st.lists(st.tuples(fl(0, 360), st.one_of(
        st.just(0.0), fl(0, 20), fl(0, far)),
        st.one_of(st.just(0.0), fl(-3, 30))), min_size=1, max_size=n))
    return dict(o=o, sites=sites, grid=draw(st.booleans()),
                wide=draw(st.booleans()))


def arrays(c):
    out = []
    for az, km, dep in c['sites']:
        lo, la = R.step(c['o']['lon'], c['o']['lat'], az, km)
        if c['wide']:
            lo = lo % 360.0
        out.append((float(lo), float(la), dep))
    a = np.array(out)
    lon, lat, dep = a[:, 0].copy(), a[:, 1].copy(), a[:, 2].copy()
    if c['grid']:
        lon, lat, dep = [np.array([x, x[::-1], x]) for x in (lon, lat, dep)]
    return lon, lat, dep


@sub('C13', 'epicentral_and_hypocentral', pcase(), quick=300, thorough=8000,
     rule='any origin, 1-D and 2-D sites up to 500 km, depth -3..30, longitudes in either convention; non-trivial = all')
def points(case, t):
    from impactutils.rupture.point_rupture import PointRupture
    r = PointRupture(R.make_origin(**case['o']))
    lon, lat, dep = arrays(case)
    a = r.computeRepi(lon, lat, dep)
    b = r.computeRhyp(lon, lat, dep)
    t.require(np.shape(a) == np.shape(b) == lon.shape, 'shape')
    t.label('grid' if case['grid'] else 'list')
    o = case['o']
    for i in range(lon.size):
        s = sphere(o['lon'], o['lat'], lon.ravel()[i], lat.ravel()[i])
        z = dep.ravel()[i]
        t.close(a.ravel()[i], math.hypot(s, z), rel=1e-6, abs_=1e-3,
                msg='repi')
        t.close(b.ravel()[i], math.hypot(s, o['depth'] - z), rel=1e-6,
                abs_=1e-3, msg='rhypo')
    g = r.computeGC2(lon, lat, dep)
    t.require(set(g) == {'rx', 'ry', 'ry0', 'U', 'T'}, 'GC2 keys')
    t.require(all(np.shape(v) == lon.shape and np.all(v == 0)
                  for v in g.values()), 'GC2 of a point')
    t.require(r.getQuadrilaterals() is None and r.getLength() is None
              and r.getArea() is None, 'a point has no extent')
    t.require((r.lons, r.lats, r.depths) == (o['lon'], o['lat'], o['depth']),
              'location of the point rupture')
    t.require((r.getStrike(), r.getDip(), r.getWidth(), r.getDepthToTop())
              == (0.0, 90.0, 0.0, 0.0), 'defaults')


PARS = {  # region -> mech -> (scaling, mechanism, aspect, min dip, max dip)
    None: dict.fromkeys(['ALL', 'RS', 'NM', 'SS'], ('WC94', 'A', 1.7, 10, 90)),
    'Subduction': dict.fromkeys(['ALL', 'RS', 'NM', 'SS'],
                                ('WC94', 'A', 1.7, 10, 90)),
    'Active Shallow Crust': dict(ALL=('WC94', 'A', 1.7, 10, 90),
                                 RS=('HB08', 'R', 1.7, 35, 50),
                                 NM=('HB08', 'N', 1.7, 40, 60),
                                 SS=('HB08', 'SS', 1.7, 75, 90)),
    'Stable Shallow Crust': dict(ALL=('S14', 'A', 1.0, 10, 90),
                                 RS=('S14', 'R', 1.0, 30, 60),
                                 NM=('S14', 'N', 1.0, 40, 60),
                                 SS=('S14', 'SS', 1.0, 60, 90))}


def ps2ff(o, mech, region, repi):
    from ps2ff.constants import MagScaling, Mechanism
    from ps2ff.run import single_event_adjustment
    sc, me, ar, d0, d1 = PARS[region][mech]
    repi = np.clip(repi, 0.0001, None)
    x, jb, rup, jbv, rupv = single_event_adjustment(
        o['mag'], o['depth'], ar=ar, mechanism=getattr(Mechanism, me),
        mag_scaling=getattr(MagScaling, sc), n_repi=13,
        min_repi=np.min(repi) - 1e-5, max_repi=np.max(repi) + 0.1, nxny=7,
        n_theta=19, n_dip=4, min_dip=math.radians(d0),
        max_dip=math.radians(d1), n_eps=5, trunc=2)
    return [np.interp(repi, x, y) for y in (jb, jbv, rup, rupv)]


def point_sub(region, mechs, quick):
    @sub('C13', 'finite_fault_adjustment_%s' % str(region).split()[0],
         pcase(n=3), quick=quick, thorough=40,
         rule='point-source Rjb and Rrup with variances for region %s and each mechanism; oracle: ps2ff called with the parameters of that region; non-trivial = all' % region)
    def adjust(case, t):
        from impactutils.rupture.point_rupture import PointRupture
        lon, lat, dep = arrays(case)
        dep = dep * 0
        for k, mech in enumerate(mechs):
            o = R.make_origin(mech=mech, **case['o'])
            if region is not None:
                o._tectonic_region = region
            r = PointRupture(o)
            repi = r.computeRepi(lon, lat, dep)
            ref = ps2ff(case['o'], mech, region, repi)
            if (k + len(case['sites'])) % 2:
                d, v = r.computeRjb(lon, lat, dep)
                what, want = 'Rjb', ref[:2]
                t.require(np.all(d <= np.clip(repi, 1e-4, None) + 1e-6),
                          'Rjb exceeds the epicentral distance')
            else:
                d, v = r.computeRrup(lon, lat, dep)
                what, want = 'Rrup', ref[2:]
            t.label(what)
            t.require(np.shape(d) == np.shape(v) == lon.shape, 'shape')
            t.require(np.all(d >= 0) and np.all(v >= 0), 'negative %s', what)
            t.require(np.allclose(d, want[0], rtol=1e-6, atol=1e-6),
                      '%s %s %s: %r, expected %r', region, mech, what, d,
                      want[0])
            t.require(np.allclose(v, want[1], rtol=1e-6, atol=1e-6),
                      '%s %s variance of %s: %r, expected %r', region, mech,
                      what, v, want[1])


point_sub(None, ['NM'], 2)
point_sub('Subduction', ['RS'], 2)
point_sub('Active Shallow Crust', ['ALL', 'RS', 'NM', 'SS'], 3)
point_sub('Stable Shallow Crust', ['ALL', 'RS', 'NM', 'SS'], 3)


@st.composite
def dcase(draw):
    kind = draw(st.sampled_from(['quad', 'edge']))
    if kind == 'quad':
        polys = R.polygons(draw(R.spec(max_groups=2, max_seg=2, small=True,
                                       ratios=False, dips=fl(15, 90))))
    else:
        polys = draw(edge_polys(max_groups=2))
    m = draw(st.lists(st.sampled_from(ALL), min_size=1, max_size=6))
    return dict(kind=kind, polys=polys, methods=m, sites=draw(
        R.sites(n=3, far=80)), dx=draw(fl(0.8, 3)), dx2=draw(fl(0.8, 3)),
        dep=draw(st.one_of(st.just(0.0), fl(0, 10))),
        bad=draw(st.sampled_from(['', 'rjB', 'rhyp', 'x'])),
        grid=draw(st.booleans()), o=draw(org()))


def rupture(case):
    from impactutils.rupture.quad_rupture import QuadRupture
    from impactutils.rupture.edge_rupture import EdgeRupture
    o = R.make_origin(**case['o'])
    if case['kind'] == 'quad':
        return QuadRupture(R.geojson(case['polys']), o)
    return EdgeRupture(R.geojson(case['polys']), o, mesh_dx=case['dx'])


def grid_of(case):
    pl = np.array([R.place(s, case['polys']) for s in case['sites']])
    lon, lat = pl[:, 0].copy(), pl[:, 1].copy()
    if case['grid']:
        lon, lat = np.array([lon, lon[::-1]]), np.array([lat, lat[::-1]])
    return lon, lat, np.full_like(lon, case['dep'])


@sub('C13', 'get_distance', dcase(), quick=150, thorough=4000,
     rule='any list of the ten measures on quad and edge ruptures: each equals the direct computation; unknown names, odd shapes refused; rupture unchanged; non-trivial = all')
def getdist(case, t):
    from impactutils.exceptions import ConsistentLengthError
    from impactutils.rupture.distance import (get_distance,
                                              get_distance_measures)
    t.label(case['kind'], 'n%d' % len(set(case['methods'])))
    t.require(sorted(get_distance_measures()) == sorted(ALL), 'measures')
    lon, lat, dep = grid_of(case)
    keep = [a.copy() for a in (lon, lat, dep)]
    r = rupture(case)
    dx = case['dx2']
    d = get_distance(list(case['methods']), lat, lon, dep, r, dx=dx)
    t.require(all(np.array_equal(a, b) for a, b in zip(keep, (lon, lat, dep))),
              'site arrays were modified')
    ref = rupture(dict(case, dx=dx))
    want = dict(ref.computeGC2(lon, lat, dep),
                repi=ref.computeRepi(lon, lat, dep),
                rhypo=ref.computeRhyp(lon, lat, dep),
                rrup=ref.computeRrup(lon, lat, dep)[0],
                rjb=ref.computeRjb(lon, lat, dep)[0],
                rvolc=np.zeros_like(lon))
    for m in case['methods']:
        t.require(m in d, '%s is missing', m)
        t.require(np.shape(d[m]) == lon.shape, 'shape of %s', m)
        t.require(np.allclose(d[m], want[m], rtol=1e-9, atol=1e-9),
                  '%s: %r, computed directly %r', m, d[m], want[m])
        if m in ('rrup', 'rjb'):
            t.require(m + '_var' in d and d[m + '_var'] is None,
                      'variance of a finite rupture')
    allowed = set(ALL) | {'rrup_var', 'rjb_var'}
    t.require(set(d) <= allowed, 'unknown keys %r', set(d) - allowed)
    s = get_distance(case['methods'][0], lat, lon, dep, r, dx=dx)
    t.require(np.array_equal(s[case['methods'][0]], d[case['methods'][0]]),
              'a single name differs from a list')
    # the rupture still has its own spacing
    own = rupture(case)
    t.require(np.array_equal(r.computeRrup(lon, lat, dep)[0],
                             own.computeRrup(lon, lat, dep)[0]),
              'get_distance changed the rupture')
    t.raises(NotImplementedError, get_distance,
             list(case['methods']) + [case['bad']], lat, lon, dep, r)
    for k in range(3):
        a = [lat, lon, dep]
        a[k] = a[k].ravel()[:0] if case['grid'] else np.append(a[k], 1.0)
        t.raises(ConsistentLengthError, get_distance, ['repi'], a[0], a[1],
                 a[2], r)


GMPES = [('abrahamson_2014', 'AbrahamsonEtAl2014'),
         ('boore_2014', 'BooreEtAl2014'),
         ('campbell_bozorgnia_2008', 'CampbellBozorgnia2008'),
         ('chiou_youngs_2014', 'ChiouYoungs2014'),
         ('zhao_2006', 'ZhaoEtAl2006Asc')]


@st.composite
def ctx(draw):
    c = draw(dcase())
    c['gm'] = draw(st.lists(st.integers(0, len(GMPES) - 1), min_size=1,
                            max_size=3))
    c['single'] = draw(st.booleans())
    c['rake'] = draw(st.one_of(st.none(), fl(-180, 180)))
    c['mech'] = draw(st.sampled_from(['ALL', 'RS', 'NM', 'SS']))
    return c


@sub('C13', 'openquake_contexts', ctx(), quick=80, thorough=2000,
     rule='Distance and getRuptureContext for 1-3 ground motion models; non-trivial = all')
def contexts(case, t):
    import importlib
    from impactutils.rupture.distance import Distance, get_distance
    lon, lat, dep = grid_of(case)
    gm = [getattr(importlib.import_module('openquake.hazardlib.gsim.' + a),
                  b)() for a, b in (GMPES[i] for i in case['gm'])]
    r = rupture(case)
    if case['single']:
        gm = gm[:1]
    need = {'repi', 'rhypo', 'rrup', 'rjb'}
    for g in gm:
        need |= set(g.REQUIRES_DISTANCES)
    t.label('need%d' % len(need), case['kind'])
    D = Distance(gm[0] if case['single'] else gm, lon, lat, dep, r)
    c = D.getDistanceContext()
    d = get_distance(list(need), lat, lon, dep, r, dx=case['dx'])
    for m in need:
        t.require(hasattr(c, m), 'context lacks %s', m)
        t.require(np.allclose(getattr(c, m), d[m], rtol=1e-9, atol=1e-9),
                  'context %s differs', m)
    t.require(c.rrup_var is None and c.rjb_var is None, 'variances')
    # what is handed out is a copy
    c.repi[...] = -1
    t.require(np.allclose(D.getDistanceContext().repi, d['repi']),
              'the context is not a copy')
    t.raises(TypeError, Distance, gm + ['x'], lon, lat, dep, r)
    t.raises(TypeError, Distance, None, lon, lat, dep, r)
    kw = dict(case['o'], mech=case['mech'])
    if case['rake'] is not None:
        kw['rake'] = case['rake']
    o = R.make_origin(**kw)
    r._origin = o
    x = r.getRuptureContext(gm)
    want = case['rake'] if case['rake'] is not None else {
        'SS': 0.0, 'NM': -90.0, 'RS': 90.0, 'ALL': 0.0}[case['mech']]
    t.require(x.rake == want, 'rake %r, expected %r', x.rake, want)
    t.require((x.mag, x.hypo_lat, x.hypo_lon, x.hypo_depth) == (
        o.mag, o.lat, o.lon, o.depth), 'hypocentre or magnitude')
    t.require((x.strike, x.dip, x.ztor, x.width) == (
        r.getStrike(), r.getDip(), r.getDepthToTop(), r.getWidth()),
        'rupture parameters')


@sub('C13', 'array_forms', st.tuples(F.PLACES, F.INTS, st.integers(1, 30)),
     quick=60, thorough=600,
     rule='sites at whole degrees as arrays of integers, single precision, read-only, strided, Fortran order, one column: the same distances as double precision; all non-trivial')
def array_forms(case, t):
    from impactutils.rupture.point_rupture import PointRupture
    (lon, lat), ss, z = case
    r = PointRupture(R.make_origin(lon=lon, lat=lat, depth=float(z)))
    t.label('sites %d' % len(ss))
    F.same(t, lambda x, y, z: {'Repi': r.computeRepi(x, y, z),
                               'Rhypo': r.computeRhyp(x, y, z)},
           ['Repi', 'Rhypo'],
           [[lon + s[0] for s in ss], [lat + s[1] for s in ss],
            [s[2] for s in ss]], 0.01)


@sub('C13', 'array_forms_converted', st.tuples(
    F.PLACES, F.INTS, st.integers(1, 30), st.integers(0, 11)),
     quick=5, thorough=60,
     rule='the same for the converted Rjb and Rrup of a point, one kind of array per case; all non-trivial')
def array_forms_converted(case, t):
    from impactutils.rupture.point_rupture import PointRupture
    (lon, lat), ss, z, k = case
    r = PointRupture(R.make_origin(lon=lon, lat=lat, depth=float(z)))
    F.same(t, lambda x, y, z: {'Rjb': r.computeRjb(x, y, z)[0],
                               'Rrup': r.computeRrup(x, y, z)[0]},
           ['Rjb', 'Rrup'],
           [[lon + s[0] for s in ss], [lat + s[1] for s in ss],
            [s[2] for s in ss]], 0.01, only=k)
    t.label('sites %d' % len(ss))
