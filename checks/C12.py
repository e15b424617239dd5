"""C12: strike-parallel and strike-normal (GC2) coordinates."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.C10 import whole_degrees, wrap
from checks.C11 import edge_polys
from vp import forms as F
from vp import gc2ref as G
from vp import rupgen as R
from vp.core import sub
from vp.gen import fl

KEYS = {'rx', 'ry', 'ry0', 'U', 'T'}
KW = dict(small=True, ratios=False, bend=35, skew=15, dips=fl(15, 80))


@st.composite
def case(draw, groups=1):
    return dict(spec=draw(R.spec(max_groups=groups, max_seg=3, **KW)),
                rev=draw(st.integers(0, 7)),
                sites=draw(R.sites(n=5, far=120)), grid=draw(st.booleans()))


def against(polys, rev):
    """some of the groups listed against their strike (top edge from the far
    end): a quad rupture sorts that out"""
    out = []
    for i, p in enumerate(polys):
        if rev >> i & 1:
            n = (len(p) - 1) // 2
            q = p[:n][::-1] + p[n:-1][::-1]
            p = q + [q[0]]
        out.append(p)
    return out


def sites_of(case, polys):
    pl = [R.place(s, polys) for s in case['sites']]
    a = np.array(pl)
    lon, lat = a[:, 0], a[:, 1]
    if case.get('grid'):
        lon, lat = np.array([lon, lon[::-1]]), np.array([lat, lat[::-1]])
    return lon, lat


def quad(polys, dx=None):
    from impactutils.rupture.quad_rupture import QuadRupture
    return QuadRupture(R.geojson(polys), R.make_origin())


def edge(polys):
    from impactutils.rupture.edge_rupture import EdgeRupture
    return EdgeRupture(R.geojson(polys), R.make_origin(), mesh_dx=2.0)


def shape_ok(t, d, lon):
    t.require(set(d) == KEYS, 'keys %r', sorted(d))
    for k, v in d.items():
        t.require(np.shape(v) == lon.shape, 'shape of %s', k)
        t.require(np.all(np.isfinite(v)), '%s is not finite: %r', k, v)
    t.require(np.array_equal(d['rx'], d['T']), 'rx is not T')
    t.require(np.all(d['ry0'] >= 0), 'negative ry0')


def tops(polys):
    return [p[:(len(p) - 1) // 2] for p in polys]


def planes(polys, lo, la):
    """traces as km coordinates around a point between site and rupture"""
    az, _, dd = R.GEOD.inv(lo, la, polys[0][0][0], polys[0][0][1])
    c = R.GEOD.fwd(lo, la, az, dd / 2)
    tr = [G.plane(c[0], c[1], [p[0] for p in x], [p[1] for p in x])
          for x in tops(polys)]
    return tr, G.plane(c[0], c[1], [lo], [la])[0]


def tlen(tr):
    return float(np.sum(np.hypot(*np.diff(tr, axis=0).T)))


@sub('C12', 'one_trace_against_reference', case(), quick=250, thorough=6000,
     rule='one connected trace of 1-3 segments, sites within 120 km; oracle: own GC2 in geodesic plane coordinates; non-trivial = all')
def one(case, t):
    polys = R.polygons(case['spec'])
    t.label('segments%d' % len(case['spec'][0]['len']))
    r = quad(against(polys, case['rev']))
    if case['rev'] & 1:
        t.label('against-strike')
    lon, lat = sites_of(case, polys)
    d = r.computeGC2(lon, lat, np.zeros_like(lon))
    shape_ok(t, d, lon)
    d2 = edge(polys).computeGC2(lon, lat, np.zeros_like(lon))
    shape_ok(t, d2, lon)
    for i in range(lon.size):
        lo, la = lon.ravel()[i], lat.ravel()[i]
        tr, s = planes(polys, lo, la)
        T, U = G.gc2(tr, s)
        ln = tlen(tr[0])
        far = math.hypot(*s) * 2 + ln
        tol = 0.15 + 0.012 * far
        for dd, what in ((d, 'quad'), (d2, 'edge')):
            g = {k: float(v.ravel()[i]) for k, v in dd.items()}
            if abs(T) < 0.05 and 0 < U < ln:
                # next to the trace itself
                t.require(abs(g['T']) < 0.3, '%s: T %r on the trace', what,
                          g['T'])
                continue
            t.close(g['T'], T, abs_=tol, msg=what + ' T')
            t.close(g['U'], U, abs_=tol, msg=what + ' U')
            t.close(g['ry'], U - ln / 2, abs_=tol, msg=what + ' ry')
            t.close(g['ry0'], max(0.0, -U, U - ln), abs_=tol,
                    msg=what + ' ry0')
            t.close(g['ry0'], max(0.0, -g['U'], g['U'] - ln),
                    abs_=0.1 + 0.01 * ln, msg=what + ' ry0 of its U')


def multi_ref(tr, s):
    """-> (T, U, umax, total, margin); tr oriented so that every trace dips
    to its right.  margin tells how far the orientation decisions are from a
    tie."""
    ends = [(j, e, tr[j][0 if e == 0 else -1]) for j in range(len(tr))
            for e in (0, 1)]
    ds = sorted(((float(np.hypot(*(p - q))), i, k)
                 for i, (j, e, p) in enumerate(ends)
                 for k, (m, f, q) in enumerate(ends) if m > j), reverse=True)
    same = max(float(np.hypot(*(x[-1] - x[0]))) for x in tr)
    margin = ds[0][0] - ds[1][0]
    margin = min(margin, ds[0][0] - same)
    a0, a1 = ends[ds[0][1]][2], ends[ds[0][2]][2]
    ah = (a1 - a0) / np.hypot(*(a1 - a0))
    bp = [x[-1] - x[0] for x in tr]
    e = [float(ah @ b) for b in bp]
    E = sum(e)
    margin = min([margin, abs(E)] + [abs(x) for x in e])
    if E < 0:
        a0, ah, e = a1, -ah, [-x for x in e]
    W = T = U = 0.0
    umax = -1e9
    total = 0.0
    for x, ej in zip(tr, e):
        if ej < 0:
            x = x[::-1]
        k = float((x[0] - a0) @ ah)
        for a, b in zip(x[:-1], x[1:]):
            ln = float(np.hypot(*(b - a)))
            uh = (b - a) / ln
            th = np.array([uh[1], -uh[0]])
            u, tt = float((s - a) @ uh), float((s - a) @ th)
            if abs(tt) < 0.05:
                margin = 0.0
                tt = 0.05
            w = (math.atan((ln - u) / tt) - math.atan(-u / tt)) / tt
            W += w
            T += w * tt
            U += w * (u + k)
            k += ln
            total += ln
        umax = max(umax, k)
    return T / W, U / W, umax, total, margin


@sub('C12', 'several_traces_against_reference', case(groups=3), quick=350,
     thorough=8000,
     rule='1-3 traces (any relative strike, discordant ones included); oracle: own GC2 with origin/discordance rules; non-trivial = several traces, no near-ties')
def several(case, t):
    polys = R.polygons(case['spec'])
    if len(polys) == 1:
        t.label('-single')
        return
    rs = [('quad', quad(against(polys, case['rev']))), ('edge', edge(polys))]
    lon, lat = sites_of(case, polys)
    ds = [(w, r.computeGC2(lon, lat, np.zeros_like(lon))) for w, r in rs]
    for w, d in ds:
        shape_ok(t, d, lon)
    for i in range(lon.size):
        lo, la = lon.ravel()[i], lat.ravel()[i]
        tr, s = planes(polys, lo, la)
        T, U, umax, total, margin = multi_ref(tr, s)
        span = max(float(np.hypot(*(p - q))) for x in tr for y in tr
                   for p in x for q in y)
        if margin < 0.5 + 0.005 * span:
            continue
        t.label('traces%d' % len(tr))
        tol = 0.3 + 0.012 * (2 * math.hypot(*s) + span)
        for w, d in ds:
            g = {k: float(v.ravel()[i]) for k, v in d.items()}
            t.close(g['T'], T, abs_=tol, msg=w + ' T')
            t.close(g['U'], U, abs_=tol, msg=w + ' U')
            t.close(g['ry'], U - total / 2, abs_=tol, msg=w + ' ry')
            t.close(g['ry0'], max(0.0, -U, U - umax), abs_=tol,
                    msg=w + ' ry0')


@st.composite
def split(draw):
    n = draw(st.integers(2, 5))
    lens = [draw(fl(2, 15)) for _ in range(n)]
    cut = sorted(draw(st.lists(st.integers(1, n - 1), min_size=1, max_size=3,
                               unique=True)))
    order = draw(st.permutations(range(len(cut) + 1)))
    return dict(lat=draw(fl(-60, 60)), lon=draw(st.one_of(
        fl(-180, 180), st.sampled_from([179.95, -118.0]))),
        az=draw(fl(0, 360)), lens=lens, cut=cut, order=order,
        z=draw(fl(0, 5)), dip=draw(fl(15, 80)), width=draw(fl(3, 20)),
        sites=draw(R.sites(n=5, far=100)))


@sub('C12', 'splitting_a_straight_trace', split(), quick=200, thorough=5000,
     rule='a straight trace of 2-5 segments as one group and cut into 2-4 groups listed in any order gives the same coordinates; non-trivial = all')
def splitting(case, t):
    c = case
    top = [[c['lon'], c['lat'], c['z']]]
    for ln in c['lens']:
        x, y = R.step(top[-1][0], top[-1][1], c['az'], ln)
        top.append([float(x), float(y), c['z']])
    te = R.ecef(*[[p[i] for p in top] for i in range(3)])
    _, _, up = R.enu(c['lon'], c['lat'])
    v = te[-1] - te[0]
    h = np.cross(v, up)
    h /= np.linalg.norm(h)
    k = math.radians(c['dip'])
    b = te + c['width'] * (math.cos(k) * h - math.sin(k) * up)
    lo, la, de = R.geodetic(b)
    bot = [[float(p), float(q), float(w)] for p, q, w in zip(lo, la, de)]

    def poly(i, j):
        return top[i:j + 1] + bot[i:j + 1][::-1] + [top[i]]
    n = len(c['lens'])
    edges = [0] + list(c['cut']) + [n]
    parts = [poly(a, b) for a, b in zip(edges[:-1], edges[1:])]
    t.label('groups%d' % len(parts),
            'shuffled' if list(c['order']) != sorted(c['order']) else 'ordered')
    whole = [poly(0, n)]
    lon, lat = sites_of(c, whole)
    z = np.zeros_like(lon)
    d0 = edge(whole).computeGC2(lon, lat, z)
    for mk in (edge, quad):
        d = mk([parts[i] for i in c['order']]).computeGC2(lon, lat, z)
        for key in KEYS:
            for a, b in zip(d[key], d0[key]):
                # the pieces are chained along a geodesic, not a map line
                t.close(a, b, abs_=0.12, rel=0.004, msg='%s %s split %r' % (
                    mk.__name__, key, c['order']))


@st.composite
def rot(draw):
    c = draw(case(groups=3))
    c['dlon'] = draw(st.one_of(fl(-180, 180), st.sampled_from([180.0, 90.0])))
    c['edge'] = draw(st.booleans())
    if c['edge']:
        c['polys'] = draw(edge_polys())
    else:
        c['polys'] = R.polygons(c['spec'])
    return c


@sub('C12', 'longitude_rotation', rot(), quick=200, thorough=5000,
     rule='rotating rupture and sites by any longitude (also over the date line) keeps all coordinates; non-trivial = all')
def rotation(case, t):
    polys = case['polys']
    mk = edge if case['edge'] else quad
    lon, lat = sites_of(case, polys)
    z = np.zeros_like(lon)
    t.label('groups%d' % len(polys), mk.__name__)
    d0 = mk(polys).computeGC2(lon, lat, z)
    shape_ok(t, d0, lon)
    if len(polys) > 1:
        tr, s = planes(polys, lon.ravel()[0], lat.ravel()[0])
        if multi_ref(tr, s)[4] < 0.01:
            t.label('-tie')
            return
    d = case['dlon']
    p2 = [[[R.shift_lon(x, d), y, w] for x, y, w in p] for p in polys]
    l2 = np.vectorize(lambda x: R.shift_lon(x, d))(lon)
    d1 = mk(p2).computeGC2(l2, lat, z)
    for k in KEYS:
        for a, b in zip(d0[k].ravel(), d1[k].ravel()):
            # the map projection is centred differently over the date line
            t.close(b, a, abs_=0.15, rel=0.02, msg='%s after rotation by %r'
                    % (k, d))


@sub('C12', 'sites_on_the_trace',
     st.tuples(R.spec(max_groups=3, max_seg=3, **KW),
               st.lists(st.tuples(st.integers(0, 8), st.one_of(
                   st.sampled_from([0.0, 1.0, 0.5]), fl(0, 1))),
                   min_size=1, max_size=6)),
     quick=150, thorough=3000,
     rule='sites at vertices and along the top edge: T ~ 0, ry0 ~ 0, finite; non-trivial = all')
def on_trace(case, t):
    spec, pts = case
    polys = R.polygons(spec)
    seg = [(a, b) for x in tops(polys) for a, b in zip(x[:-1], x[1:])]
    t.label('groups%d' % len(polys))
    lon, lat = [], []
    for k, f in pts:
        a, b = seg[k % len(seg)]
        if f in (0.0, 1.0):
            lo, la = (a if f == 0 else b)[:2]
        else:
            az, _, d = R.GEOD.inv(a[0], a[1], b[0], b[1])
            lo, la = R.step(a[0], a[1], az, f * d / 1000)
        lon.append(float(lo))
        lat.append(float(la))
    lon, lat = np.array(lon), np.array(lat)
    for mk in (quad, edge):
        d = mk(polys).computeGC2(lon, lat, np.zeros_like(lon))
        shape_ok(t, d, lon)
        if len(polys) == 1:
            # (vertices are the shared limit of two segments)
            t.require(np.all(np.abs(d['T']) < 0.6), 'T %r on the trace',
                      d['T'])
            t.require(np.all(d['ry0'] < 0.3), 'ry0 %r on the trace',
                      d['ry0'])


@st.composite
def in_line(draw):
    gs = draw(R.spec(max_groups=3, max_seg=3, lonlat=(
        draw(fl(-1, 1)), draw(st.sampled_from([0.0, 10.0, -118.0, 77.5]))),
        az0=draw(st.sampled_from([0.0, 180.0, None])), **KW))
    gs[0]['az'][0] = draw(st.sampled_from([0.0, 180.0]))
    for k in range(1, len(gs[0]['az'])):
        # the other segments dip to the same side
        gs[0]['az'][k] = (gs[0]['az'][0] + draw(fl(-35, 35))) % 360
    return dict(spec=gs, sites=draw(st.lists(st.tuples(
        st.booleans(), fl(0.5, 60)), min_size=1, max_size=5)))


@sub('C12', 'sites_in_line', in_line(), quick=150, thorough=3000,
     rule='sites exactly in line with one of the segments of 1-3 traces (on the meridian the map is centred on): as the reference, and as sites 60 m beside; non-trivial = no near-ties')
def in_line_sites(case, t):
    polys = R.polygons(case['spec'])
    g = case['spec'][0]
    lo0 = polys[0][0][0]
    ys = sorted([polys[0][0][1], polys[0][1][1]])
    t.require(abs(polys[0][1][0] - lo0) < 1e-9, 'harness: not a meridian')
    la = np.array([ys[0] - s / 110.6 if low else ys[1] + s / 110.6
                   for low, s in case['sites']])
    # these two put the middle of the map on the meridian
    lat = np.concatenate([la, [3.5, -3.5]])
    mk = lambda off: np.concatenate([np.full(la.size, lo0 + off / 111.3),
                                     [lo0 - 3.5, lo0 + 3.5]])
    for what, r in (('quad', quad(polys)), ('edge', edge(polys))):
        d = r.computeGC2(mk(0.0), lat, np.zeros_like(lat))
        shape_ok(t, d, lat)
        d1 = r.computeGC2(mk(0.06), lat, np.zeros_like(lat))
        d2 = r.computeGC2(mk(-0.06), lat, np.zeros_like(lat))
        for i in range(la.size):
            tr, s = planes(polys, lo0 + 0.06 / 111.3, la[i])
            span = max(float(np.hypot(*(p - q))) for x in tr for y in tr
                       for p in x for q in y)
            if min(G_dist(s, x) for x in tr) < 0.3:
                # next to another segment, T and U change at once
                t.label('-near')
                continue
            if len(tr) == 1:
                T, U = G.gc2(tr, s)
            else:
                T, U, umax, total, margin = multi_ref(tr, s)
                if margin < 0.5 + 0.005 * span:
                    t.label('-tie')
                    continue
            t.label('traces%d' % len(tr))
            tol = 0.3 + 0.012 * (2 * math.hypot(*s) + span)
            t.close(d['T'][i], T, abs_=tol, msg=what + ' T')
            t.close(d['U'][i], U, abs_=tol, msg=what + ' U')
            for k in sorted(KEYS):
                lo_, hi = sorted([d1[k][i], d2[k][i]])
                t.require(lo_ - 0.2 <= d[k][i] <= hi + 0.2,
                          '%s %s jumps in line with a segment: %r, %r and %r '
                          '60 m to both sides', what, k, d[k][i], d1[k][i],
                          d2[k][i])


def G_dist(s, x):
    return min(R.seg_dist(s, a, b) for a, b in zip(x[:-1], x[1:]))


@sub('C12', 'array_forms', st.tuples(F.PLACES, st.tuples(
    st.integers(-1, 1), st.integers(-1, 1)), st.booleans(), F.INTS,
    st.booleans()),
     quick=40, thorough=800,
     rule='sites at whole degrees (on, along and off the traces) as arrays of integers, single precision, read-only, strided, Fortran order, one column: the same coordinates as double precision; all non-trivial')
def array_forms(case, t):
    polys = whole_degrees(case[:3])
    r = quad(polys) if case[4] else edge(polys)
    lon, lat = case[0]
    t.label('two groups' if case[2] else 'one group')
    F.same(t, r.computeGC2, ['rx', 'ry', 'ry0', 'U', 'T'],
           [[wrap(lon + s[0]) for s in case[3]], [lat + s[1] for s in case[3]],
            [s[2] for s in case[3]]], 0.02)


@st.composite
def fine(draw):
    c = draw(case(groups=3))
    c['parts'] = draw(st.one_of(st.integers(2, 12), st.integers(2, 12),
                                st.integers(30, 130)))
    c['which'] = draw(st.integers(0, 7))
    return c


def refine(poly, k):
    """every quadrilateral cut into k, along great circles"""
    n = (len(poly) - 1) // 2

    def cut(pts):
        out = [pts[0]]
        for p, q in zip(pts[:-1], pts[1:]):
            v = [np.array([math.cos(math.radians(b)) * math.cos(math.radians(a)),
                           math.cos(math.radians(b)) * math.sin(math.radians(a)),
                           math.sin(math.radians(b))])
                 for a, b, _ in (p, q)]
            for i in range(1, k):
                w = v[0] * (k - i) + v[1] * i
                w /= np.linalg.norm(w)
                out.append([math.degrees(math.atan2(w[1], w[0])),
                            math.degrees(math.asin(w[2])),
                            p[2] + (q[2] - p[2]) * i / k])
            out.append(q)
        return out
    top, bot = cut(poly[:n]), cut(poly[n:-1])
    return top + bot + [top[0]]


@sub('C12', 'refining_the_traces', fine(), quick=120, thorough=2500,
     rule='cutting every quadrilateral of 1-3 traces into up to 130 keeps all coordinates (up to 1000 quadrilaterals); non-trivial = no near-ties')
def refining(case, t):
    polys = R.polygons(case['spec'])
    k = case['parts']
    lon, lat = sites_of(case, polys)
    if len(polys) > 1:
        tr, s = planes(polys, lon.ravel()[0], lat.ravel()[0])
        if multi_ref(tr, s + 0.37)[4] < 0.05:
            t.label('-near-tie')
            return
    new = [refine(p, k) if case['which'] >> i & 1 or not case['which'] else p
           for i, p in enumerate(polys)]
    z = np.zeros_like(lon)
    mk = quad
    r0, r1 = mk(against(polys, case['rev'])), mk(against(new, case['rev']))
    n = len(r1.getQuadrilaterals())
    t.label('up-to-128' if n <= 128 else 'more-than-128')
    d0, d1 = r0.computeGC2(lon, lat, z), r1.computeGC2(lon, lat, z)
    for key in KEYS:
        for a, b in zip(d0[key].ravel(), d1[key].ravel()):
            t.close(b, a, abs_=0.15, rel=0.004,
                    msg='%s with every quadrilateral cut in %d' % (key, k))
