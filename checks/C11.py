"""C11: distances to edge ruptures (any top and bottom edge)."""
import numpy as np
from hypothesis import strategies as st

from checks.C10 import whole_degrees, wrap
from vp import forms as F
from vp import rupgen as R
from vp.core import sub
from vp.gen import fl


@st.composite
def edge_group(draw, lonlat, max_pts=4):
    lat, lon = lonlat
    n = draw(st.integers(2, max_pts))
    az = draw(st.one_of(fl(0, 360), st.sampled_from([0.0, 90.0, 225.0])))
    z0 = draw(st.one_of(st.just(0.0), fl(0, 8)))
    lo, la = lon, lat
    top, bot = [], []
    off = draw(st.one_of(st.just(0.0), fl(1, 12)))
    dz = draw(fl(2, 12))
    taper = draw(st.sampled_from([0, 0, 0, 1, -1]))
    for i in range(n):
        if i:
            lo, la = map(float, R.step(lo, la, az + draw(fl(-25, 25)),
                                       draw(fl(1, 14))))
        top.append([lo, la, max(0.0, z0 + draw(st.one_of(
            st.just(0.0), fl(-3, 3))))])
        bo = off + draw(fl(0, 3))
        wid = dz + draw(fl(0, 3))
        if taper:
            # from narrow to wide or from wide to narrow
            k = (i if taper > 0 else n - 1 - i) / (n - 1)
            bo, wid = bo * (0.05 + 0.95 * k), wid * (0.05 + 0.95 * k)
        x, y = map(float, R.step(lo, la, az + 90 + draw(fl(-10, 10)), bo))
        bot.append([x, y, top[-1][2] + wid])
    return top + bot[::-1] + [top[0]]


@st.composite
def edge_polys(draw, max_groups=3):
    lat = draw(st.one_of(fl(-60, 60), st.sampled_from([0.0, 34.0])))
    lon = draw(st.one_of(fl(-180, 180), st.sampled_from([-118.0, 179.95])))
    out = []
    for i in range(draw(st.integers(1, max_groups))):
        lo, la = R.step(lon, lat, draw(fl(0, 360)), draw(fl(0, 40)))
        out.append(draw(edge_group((float(la), float(lo)))))
    return out


@st.composite
def case(draw, polys=None):
    return dict(polys=draw(polys if polys is not None else edge_polys()),
                dx=draw(st.one_of(st.sampled_from([0.5, 1.0, 2.0]),
                                  fl(0.4, 3))),
                sites=draw(R.sites(n=4, far=60)),
                deps=draw(st.lists(st.one_of(st.just(0.0), st.just('on'),
                                             fl(-2, 20)),
                                   min_size=4, max_size=4)),
                grid=draw(st.booleans()))


def patch_dist(p, q):
    """Distance from p to the bilinear patch q (4 ECEF points): grid search
    with zoom."""
    u0 = v0 = 0.5
    h = 0.5
    best = None
    n = 21
    for _ in range(6):
        u = np.clip(np.linspace(u0 - h, u0 + h, n), 0, 1)
        v = np.clip(np.linspace(v0 - h, v0 + h, n), 0, 1)
        U, V = np.meshgrid(u, v)
        U, V = U[..., None], V[..., None]
        s = (1 - V) * ((1 - U) * q[0] + U * q[1]) \
            + V * ((1 - U) * q[3] + U * q[2])
        d = np.linalg.norm(s - p, axis=-1)
        k = np.unravel_index(np.argmin(d), d.shape)
        best = d[k] if best is None else min(best, d[k])
        u0, v0 = float(U[k][0]), float(V[k][0])
        h *= 0.2
    return float(best)


def slack(qs, dx):
    """No point of a patch is farther than this from a mesh whose spacing
    rounds the edges to about dx."""
    out = 0.0
    for q in qs:
        top = np.linalg.norm(q[1] - q[0])
        bot = np.linalg.norm(q[2] - q[3])
        left = np.linalg.norm(q[3] - q[0])
        right = np.linalg.norm(q[2] - q[1])
        sx = max(top, bot) / max(1.0, top / dx - 0.55)
        # (rows follow the mean length of the vectors connecting the edges)
        f = np.linspace(0, 1, 201)[:, None]
        m = np.mean(np.linalg.norm((1 - f) * (q[3] - q[0])
                                   + f * (q[2] - q[1]), axis=1))
        sy = max(left, right) / max(1.0, m / dx - 0.55)
        out = max(out, 0.5 * (sx + sy))
    return out + 0.01


def sites_of(case):
    pl = [R.place(s, case['polys']) for s in case['sites']]
    lon = np.array([p[0] for p in pl])
    lat = np.array([p[1] for p in pl])
    # 'on': as deep as the point of the surface the site was placed at
    dep = np.array([R.place_depth(s, case['polys']) if d == 'on' else d
                    for s, d in zip(case['sites'], case['deps'])])
    if case['grid']:
        return [np.array([a, a[::-1]]) for a in (lon, lat, dep)]
    return lon, lat, dep


def check(case, t, r, what):
    L, A, D = sites_of(case)
    if what == 'Rjb':
        D = np.zeros_like(L)
    keep = [x.copy() for x in (L, A, D)]
    got, var = getattr(r, 'compute' + what)(L, A, D)
    t.require(var is None and np.shape(got) == L.shape, 'shape or variance')
    t.require(all(np.array_equal(a, b) for a, b in zip(keep, (L, A, D))),
              'site arrays were modified')
    polys = case['polys']
    if what == 'Rjb':
        polys = [[[a, b, 0.0] for a, b, c in p] for p in polys]
    qs = R.poly_quads(polys)
    E = R.ecef(L.ravel(), A.ravel(), D.ravel())
    for i, p in enumerate(E):
        g = float(got.ravel()[i])
        ds = [patch_dist(p, q) for q in qs]
        ref = min(ds)
        up = min(d + slack([q], case['dx']) for d, q in zip(ds, qs))
        t.require(ref - 0.02 <= g, '%s %r is below the distance %r to the '
                  'surface', what, g, ref)
        t.require(g <= up, '%s %r, but the surface is %r km away (mesh %r)',
                  what, g, ref, case['dx'])


def labels(t, case):
    t.label('groups%d' % len(case['polys']))
    if case['dx'] < 1:
        t.label('fine')


def make(case):
    from impactutils.rupture.edge_rupture import EdgeRupture
    return EdgeRupture(R.geojson(case['polys']), R.make_origin(),
                       mesh_dx=case['dx'])


@sub('C11', 'rrup_within_mesh_spacing', case(), quick=200, thorough=4000,
     rule='1-3 groups of 1-3 warped quads with sloping edges, mesh 0.4-3 km, sites in and around at depth -2..20; non-trivial = all')
def rrup(case, t):
    labels(t, case)
    check(case, t, make(case), 'Rrup')


@sub('C11', 'rjb_within_mesh_spacing', case(), quick=200, thorough=4000,
     rule='same ruptures, surface sites; oracle: patches at zero depth; non-trivial = all')
def rjb(case, t):
    labels(t, case)
    check(case, t, make(case), 'Rjb')


@st.composite
def strip(draw):
    """one quad with thousands of mesh points along or across"""
    dx = draw(st.sampled_from([0.005, 0.02, 0.1, 0.5, 2.0]))
    n = draw(fl(500, 6000))
    n = min(n, 1000 / dx)
    m = draw(fl(1, 8))
    along = draw(st.booleans())
    if not along:
        # down to 60 km
        n = min(n, 60 / dx)
    return dict(dx=dx, n=n, m=m, along=along, lat=draw(fl(-60, 60)),
                lon=draw(fl(-180, 180)), az=draw(fl(0, 360)),
                z=draw(fl(0, 5)),
                sites=draw(st.lists(st.tuples(fl(0, 1), fl(0, 1)),
                                    min_size=3, max_size=6)))


@sub('C11', 'many_mesh_points', strip(), quick=60, thorough=1000,
     rule='a straight strip of 5 m to 1000 km with 500-6000 mesh points along or down, spacing 5 m - 2 km; points of the surface are not farther from it than the mesh allows; non-trivial = over 1000 points')
def strip_mesh(c, t):
    from impactutils.rupture.edge_rupture import EdgeRupture
    L, W = c['n'] * c['dx'], c['m'] * c['dx']
    if not c['along']:
        L, W = W, L
    t.label('over 1000' if c['n'] > 1000 else '-few')
    a = [c['lon'], c['lat'], c['z']]
    x, y = map(float, R.step(a[0], a[1], c['az'], L))
    b = [x, y, c['z']]
    off, dz = W * 0.5, W * 0.75 ** 0.5
    bot = []
    for v in (b, a):
        x, y = map(float, R.step(v[0], v[1], c['az'] + 90, off))
        bot.append([x, y, v[2] + dz])
    poly = [a, b] + bot + [a]
    r = EdgeRupture(R.geojson([poly]), R.make_origin(), mesh_dx=c['dx'])
    q = R.poly_quads([poly])[0]
    pts = [(1 - v) * ((1 - u) * q[0] + u * q[1])
           + v * ((1 - u) * q[3] + u * q[2]) for u, v in c['sites']]
    lo, la, de = (np.array(x) for x in zip(*[
        [float(w) for w in R.geodetic(p)] for p in pts]))
    got = r.computeRrup(lo, la, de)[0]
    lim = slack([q], c['dx']) - 0.009
    t.require(np.all(got >= 0) and np.all(got <= lim), 'points of the surface '
              'are %r km away from it (mesh %r)', got, c['dx'])


@st.composite
def tapered(draw):
    """Two to four points, each much wider or narrower than the one before."""
    n = draw(st.integers(2, 4))
    lat, lon = draw(fl(-60, 60)), draw(fl(-180, 180))
    az, z0 = draw(fl(0, 360)), draw(fl(0, 5))
    small, big = draw(fl(0.3, 2)), draw(fl(12, 40))
    turn = draw(st.integers(0, 1))
    plunge = draw(fl(20, 80))
    top, bot = [], []
    for i in range(n):
        if i:
            lon, lat = map(float, R.step(lon, lat, az + draw(fl(-10, 10)),
                                         draw(fl(3, 20))))
        w = small if (i + turn) % 2 else big
        top.append([lon, lat, z0])
        x, y = map(float, R.step(lon, lat, az + 90,
                                 w * np.cos(np.radians(plunge))))
        bot.append([x, y, z0 + w * float(np.sin(np.radians(plunge)))])
    return dict(poly=top + bot[::-1] + [top[0]], dx=draw(fl(0.4, 2)),
                sites=draw(st.lists(st.tuples(st.integers(0, 2), fl(0, 1),
                                              fl(0, 1)),
                                    min_size=6, max_size=12)))


@sub('C11', 'narrow_and_wide', tapered(), quick=80, thorough=1500,
     rule='edges whose distance changes from 0.3-2 km to 12-40 km and back between neighbouring points: points of the surface are not farther from it than the mesh allows; non-trivial = 3 or more points')
def narrow_and_wide(c, t):
    from impactutils.rupture.edge_rupture import EdgeRupture
    poly = c['poly']
    r = EdgeRupture(R.geojson([poly]), R.make_origin(), mesh_dx=c['dx'])
    qs = R.poly_quads([poly])
    t.label('points' if len(qs) > 1 else '-two points')
    E = []
    for k, u, v in c['sites']:
        q = qs[k % len(qs)]
        E.append((1 - v) * ((1 - u) * q[0] + u * q[1])
                 + v * ((1 - u) * q[3] + u * q[2]))
    lo, la, de = (np.array(x) for x in zip(*[
        [float(w) for w in R.geodetic(p)] for p in E]))
    got = r.computeRrup(lo, la, de)[0]
    for (k, u, v), g in zip(c['sites'], got):
        lim = slack([qs[k % len(qs)]], c['dx'])
        t.require(0 <= g <= lim, 'the point %r, %r of patch %d is %r km '
                  'from the surface (mesh %r, expected up to %r)', u, v,
                  k % len(qs), g, c['dx'], lim)


@st.composite
def both(draw):
    sp = draw(R.spec(max_groups=2, max_seg=2, small=True, ratios=False,
                     bend=25, skew=10, dips=fl(20, 80)))
    for g in sp:
        g['len'] = [min(x, 12.0) for x in g['len']]
        g['width'] = min(g['width'], 12.0)
    return draw(case(st.just(R.polygons(sp))))


@sub('C11', 'agrees_with_quad_rupture', both(), quick=150, thorough=3000,
     rule='the same planar polygons as QuadRupture and EdgeRupture: distances agree within the mesh bound, scalar measures closely; non-trivial = all')
def agree(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    labels(t, case)
    e = make(case)
    q = QuadRupture(R.geojson(case['polys']), R.make_origin())
    L, A, D = sites_of(case)
    sl = slack(R.poly_quads(case['polys']), case['dx'])
    a, b = e.computeRrup(L, A, D)[0], q.computeRrup(L, A, D)[0]
    t.require(np.all(a >= b - 0.01) and np.all(a <= b + sl),
              'Rrup: edge %r quad %r mesh %r', a, b, case['dx'])
    D = D * 0
    a, b = e.computeRjb(L, A, D)[0], q.computeRjb(L, A, D)[0]
    t.require(np.all(a >= b - 0.05) and np.all(a <= b + sl + 0.05),
              'Rjb: edge %r quad %r mesh %r', a, b, case['dx'])
    t.close(e.getDepthToTop(), q.getDepthToTop(), abs_=0.01,
            msg='depth to top')
    t.close(e.getLength(), q.getLength(), rel=0.01, abs_=0.05, msg='length')


@st.composite
def refine(draw):
    c = draw(case())
    c['dx2'] = draw(fl(0.4, 3))
    c['dlon'] = draw(st.one_of(fl(-180, 180), st.sampled_from([180.0, 90.0])))
    return c


@sub('C11', 'rotation_union_and_requested_mesh', refine(), quick=150,
     thorough=2000,
     rule='longitude rotation, minimum over separate groups, get_distance(dx) equals a rupture built with that spacing and keeps the rupture; non-trivial = all')
def meta(case, t):
    from impactutils.rupture.edge_rupture import EdgeRupture
    from impactutils.rupture.distance import get_distance
    labels(t, case)
    L, A, D = sites_of(case)
    e = make(case)
    base = e.computeRrup(L, A, D)[0], e.computeRjb(L, A, D * 0)[0]
    o = R.make_origin()
    rot = [[[R.shift_lon(x, case['dlon']), y, z] for x, y, z in p]
           for p in case['polys']]
    L2 = np.vectorize(lambda x: R.shift_lon(x, case['dlon']))(L)
    er = EdgeRupture(R.geojson(rot), o, mesh_dx=case['dx'])
    # rounding a length to a mesh count may tip over: allow one mesh bound
    sl = slack(R.poly_quads(case['polys']), case['dx'])
    for a, b in zip((er.computeRrup(L2, A, D)[0],
                     er.computeRjb(L2, A, D * 0)[0]), base):
        d = np.abs(a - b)
        t.require(np.all(d < sl), 'rotation changes the distance by %r', d)
    parts = [EdgeRupture(R.geojson([p]), o, mesh_dx=case['dx'])
             for p in case['polys']]
    a = np.min([p.computeRrup(L, A, D)[0] for p in parts], axis=0)
    t.require(np.allclose(a, base[0], atol=1e-6),
              'Rrup is not the minimum over the groups')
    a = np.min([p.computeRjb(L, A, D * 0)[0] for p in parts], axis=0)
    t.require(np.allclose(a, base[1], atol=1e-6),
              'Rjb is not the minimum over the groups')
    d = get_distance(['rrup', 'rjb'], A, L, D * 0, e, dx=case['dx2'])
    f = EdgeRupture(R.geojson(case['polys']), o, mesh_dx=case['dx2'])
    t.require(np.array_equal(d['rrup'], f.computeRrup(L, A, D * 0)[0]) and
              np.array_equal(d['rjb'], f.computeRjb(L, A, D * 0)[0]),
              'get_distance(dx=%r) does not use that spacing', case['dx2'])
    again = e.computeRrup(L, A, D)[0]
    t.require(np.array_equal(again, base[0]),
              'get_distance changed the rupture')


@sub('C11', 'array_forms', st.tuples(F.PLACES, st.tuples(
    st.integers(-1, 1), st.integers(-1, 1)), st.booleans(), F.INTS),
     quick=25, thorough=500,
     rule='sites at whole degrees as arrays of integers, single precision, read-only, strided, Fortran order, one column: the same distances as double precision; all non-trivial')
def array_forms(case, t):
    from impactutils.rupture.edge_rupture import EdgeRupture
    polys = whole_degrees(case[:3])
    r = EdgeRupture(R.geojson(polys), R.make_origin(), mesh_dx=5.0)
    lon, lat = case[0]
    t.label('two groups' if case[2] else 'one group')
    F.same(t, lambda x, y, z: {'Rrup': r.computeRrup(x, y, z)[0],
                               'Rjb': r.computeRjb(x, y, z)[0]},
           ['Rrup', 'Rjb'], [[wrap(lon + s[0]) for s in case[3]],
                             [lat + s[1] for s in case[3]],
                             [s[2] for s in case[3]]], 0.01)
