"""C09: rupture constructors build the surface they were asked for."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import rupgen as R
from vp.core import sub
from vp.gen import fl


def angdiff(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


@st.composite
def trace(draw):
    n = draw(st.integers(1, 4))
    lat = draw(st.one_of(fl(-60, 60), st.sampled_from([0.0, 34.0])))
    lon = draw(st.one_of(fl(-180, 180),
                         st.sampled_from([-118.0, 179.97, -179.97])))
    az0 = draw(st.one_of(fl(0, 360), st.sampled_from([0.0, 90.0, 270.0])))
    quads = []
    for i in range(n):
        ln = draw(fl(2, 40))
        az = (az0 + draw(fl(-30, 30))) % 360
        lo, la = R.step(lon, lat, az, ln)
        quads.append(dict(p0=(lon, lat), p1=(float(lo), float(la)),
                          len=ln, z=draw(fl(0, 15)), width=draw(fl(2, 30)),
                          dip=draw(st.one_of(fl(10, 90), st.just(90.0)))))
        if draw(st.booleans()):
            lon, lat = quads[-1]['p1']
        else:
            lon, lat = map(float, R.step(lon, lat, draw(fl(0, 360)),
                                         draw(fl(1, 40))))
    mode = draw(st.sampled_from(['none', 'one', 'each']))
    return dict(quads=quads, mode=mode, ref=draw(st.text('abc ', max_size=5)),
                dstrike=draw(fl(-20, 20)))


def hdist(a, b):
    return R.GEOD.inv(a[0], a[1], b[0], b[1])[2] / 1000


def haz(a, b):
    return R.GEOD.inv(a[0], a[1], b[0], b[1])[0]


@sub('C09', 'fromTrace', trace(), quick=300, thorough=6000,
     rule='1-4 segments 2-40 km, any azimuth, dip 10-90, strike none / one / per segment; non-trivial = dipping segment')
def from_trace(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    qs = case['quads']
    strike = None
    az = [haz(q['p0'], q['p1']) for q in qs]
    if case['mode'] == 'one':
        strike = [az[0] + case['dstrike']]
    elif case['mode'] == 'each':
        strike = [a + case['dstrike'] for a in az]
    args = [[q['p0'][0] for q in qs], [q['p0'][1] for q in qs],
            [q['p1'][0] for q in qs], [q['p1'][1] for q in qs],
            [q['z'] for q in qs], [q['width'] for q in qs],
            [q['dip'] for q in qs]]
    r = QuadRupture.fromTrace(*(args + [R.make_origin()]), strike=strike,
                              reference=case['ref'])
    t.require(r.getReference() == case['ref'], 'reference')
    got = r.getQuadrilaterals()
    t.require(len(got) == len(qs) == r.getNumQuads() == r.getNumGroups(),
              'number of quads')
    for i, (g, q) in enumerate(zip(got, qs)):
        if q['dip'] < 85:
            t.label('dipping')
        use = az[i]
        if strike is not None:
            use = strike[0] if len(strike) == 1 else strike[i]
            if angdiff(use, az[i]) > 75:
                t.label('-oblique')
                continue
        ll = [(p.longitude, p.latitude) for p in g]
        z = [p.depth for p in g]
        dip = math.radians(q['dip'])
        # the top edge is the given one, in the given direction (a
        # near-vertical quad may be stored with either strike)
        a, b = 0, 1
        if hdist(ll[0], q['p0']) > 0.001 and q['dip'] > 88:
            a, b = 1, 0
        t.require(hdist(ll[a], q['p0']) < 0.001
                  and hdist(ll[b], q['p1']) < 0.001,
                  'quad %d: top edge moved: %r', i, ll)
        t.close(z[a], q['z'], abs_=1e-3, msg='top depth')
        t.close(z[b], q['z'], abs_=1e-3, msg='top depth')
        # bottom edge: down dip by width, to the right of the strike
        down = q['width'] * math.sin(dip)
        out = q['width'] * math.cos(dip)
        pairs = ((0, 3), (1, 2))
        for u, v in pairs:
            t.close(z[v], q['z'] + down, abs_=0.05 + 0.004 * q['width'],
                    msg='bottom depth')
            t.close(hdist(ll[u], ll[v]), out,
                    abs_=0.03 + 0.012 * q['width'] + 0.004 * q['len'],
                    msg='horizontal offset')
            if out > 2:
                t.require(angdiff(haz(ll[u], ll[v]), use + 90) < 4
                          + math.degrees(0.008 * q['len'] / out),
                          'quad %d dips to azimuth %.2f, strike %.2f', i,
                          haz(ll[u], ll[v]), use)
        if case['mode'] == 'none':
            w = r.getIndividualWidths()[i]
            t.close(w, q['width'], abs_=0.05, rel=0.015, msg='width')
            t.close(r.getIndividualTopLengths()[i], hdist(q['p0'], q['p1']),
                    abs_=0.02, rel=0.005, msg='length')
    if len(qs) == 1 and case['mode'] == 'none' and qs[0]['dip'] < 85:
        t.close(r.getDip(), qs[0]['dip'], abs_=1.0, msg='dip')
        t.require(angdiff(r.getStrike(), az[0]) < 1.0, 'strike %r vs %r',
                  r.getStrike(), az[0])


@st.composite
def orient(draw):
    n = draw(st.integers(1, 3))
    out = []
    lat = draw(fl(-60, 60))
    lon = draw(st.one_of(fl(-180, 180),
                         st.sampled_from([-118.0, 179.97, -179.97])))
    for i in range(n):
        dip = draw(st.one_of(fl(10, 90), st.just(90.0)))
        width = draw(fl(2, 30))
        length = draw(fl(2, 60))
        fx, fy = draw(fl(0, 1)), draw(fl(0, 1))
        dy = fy * width
        out.append(dict(px=lon, py=lat, length=length, width=width,
                        dx=fx * length, dy=dy, dip=dip,
                        pz=dy * math.sin(math.radians(dip)) + draw(st.one_of(
                            fl(0, 10), fl(-3, 0))),
                        strike=draw(st.one_of(fl(0, 360), st.sampled_from(
                            [0.0, 90.0, 180.0])))))
        lon, lat = map(float, R.step(lon, lat, draw(fl(0, 360)),
                                     draw(fl(5, 60))))
    return out


@sub('C09', 'fromOrientation', orient(), quick=300, thorough=6000,
     rule='1-3 planes given by a known point, offsets, size, strike, dip; non-trivial = known point off the corner')
def from_orientation(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    k = ('px', 'py', 'pz', 'dx', 'dy', 'length', 'width', 'strike', 'dip')
    r = QuadRupture.fromOrientation(*([[c[x] for c in case] for x in k]
                                      + [R.make_origin()]))
    got = r.getQuadrilaterals()
    t.require(len(got) == len(case), 'number of quads')
    for i, (g, c) in enumerate(zip(got, case)):
        if c['dx'] > 1 and c['dy'] > 1:
            t.label('offset')
        if c['pz'] < c['dy'] * math.sin(math.radians(c['dip'])):
            t.label('above sea level')
        dip = math.radians(c['dip'])
        ztop = c['pz'] - c['dy'] * math.sin(dip)
        z = [p.depth for p in g]
        for j in (0, 1):
            t.close(z[j], ztop, abs_=2e-3, msg='top depth')
        for j in (2, 3):
            t.close(z[j], ztop + c['width'] * math.sin(dip),
                    abs_=0.05 + 0.005 * c['length'], msg='bottom depth')
        # all in a flat local frame at the known point
        o = (c['px'], c['py'])
        s = math.radians(c['strike'])
        loc = []
        for p in g:
            q = (p.longitude, p.latitude)
            d, a = hdist(o, q), math.radians(haz(o, q))
            loc.append((d * math.cos(a - s), d * math.sin(a - s)))
        tol = 0.05 + 0.012 * (c['length'] + c['width'])
        w = math.cos(dip) * c['width']
        v = math.cos(dip) * c['dy']
        want = [(-c['dx'], -v), (c['length'] - c['dx'], -v),
                (c['length'] - c['dx'], w - v), (-c['dx'], w - v)]
        if c['dip'] > 88 and abs(loc[0][0] - want[0][0]) > tol:
            want = [want[1], want[0], want[3], want[2]]
        for j in range(4):
            t.close(loc[j][0], want[j][0], abs_=tol, msg='corner %d along strike' % j)
            t.close(loc[j][1], want[j][1], abs_=tol, msg='corner %d across strike' % j)
        # the known point lies on the plane
        q4 = R.ecef([p.longitude for p in g], [p.latitude for p in g], z)
        d = R.quad_dist(R.ecef(c['px'], c['py'], c['pz']), q4)
        t.require(d < tol, 'known point is %.3f km off the plane', d)
        t.close(r.getIndividualTopLengths()[i], c['length'], rel=0.012,
                abs_=0.05, msg='length')
        t.close(r.getIndividualWidths()[i], c['width'], rel=0.02, abs_=0.05,
                msg='width')


@st.composite
def vert(draw):
    # (trapezoids only as single quads: chained ones can turn over)
    n, ra = draw(st.sampled_from([(3, False), (1, True)]))
    sp = draw(R.spec(max_groups=3, max_seg=n, small=True, bend=25, skew=10,
                     ratios=ra, dips=fl(20, 80)))
    return dict(spec=sp, group=draw(st.booleans()),
                ref=draw(st.text('abc ', max_size=5)))


@sub('C09', 'fromVertices_fromArrays', vert(), quick=200, thorough=4000,
     rule='quads given by all four corners, with and without group index, and edge arrays; non-trivial = more than one quad')
def vertices(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    from impactutils.rupture.edge_rupture import EdgeRupture
    polys = R.polygons(case['spec'])
    geo = R.poly_quads_geo(polys)
    gi, gv = [], []
    for k, p in enumerate(polys):
        n = (len(p) - 1) // 2
        gi += [k] * (n - 1)
        gv += [k] * n
    if len(geo) > 1:
        t.label('multi')
    args = []
    for c in range(4):
        for a in range(3):
            args.append([q[c][a] for q in geo])
    o = R.make_origin()
    r = QuadRupture.fromVertices(
        *(args + [o]), group_index=(gi if case['group'] else None),
        reference=case['ref'])
    got = r.getQuadrilaterals()
    t.require(len(got) == len(geo), '%d quads for %d', len(got), len(geo))
    t.require(r.getNumGroups() == (len(polys) if case['group']
                                   else len(geo)), 'groups')
    t.require(r.getReference() == case['ref'], 'reference')
    t.require([int(x) for x in r._getGroupIndex()] ==
              (gi if case['group'] else list(range(len(geo)))),
              'group index')
    for g, q in zip(got, geo):
        for p, w in zip(g, q):
            t.require(hdist((p.longitude, p.latitude), w) < 0.005,
                      'vertex moved: %r for %r', p, w)
            t.close(p.depth, w[2], abs_=0.005, msg='vertex depth')
    # the same surface as an edge rupture
    top = [x for p in polys for x in p[:(len(p) - 1) // 2]]
    bot = [x for p in polys for x in p[(len(p) - 1) // 2:-1][::-1]]
    e = EdgeRupture.fromArrays(
        [x[0] for x in top], [x[1] for x in top], [x[2] for x in top],
        [x[0] for x in bot], [x[1] for x in bot], [x[2] for x in bot],
        o, group_index=gv, mesh_dx=1.5, reference=case['ref'])
    t.require(e.getReference() == case['ref'], 'reference')
    out = []
    for p in polys:
        out += p + [[np.nan] * 3]
    out = np.array(out)
    for k, a in enumerate(('lons', 'lats', 'depths')):
        t.require(np.array_equal(getattr(e, a), out[:, k], equal_nan=True),
                  'edge outline %s differs', a)
    eq = e.getQuadrilaterals()
    t.require(len(eq) == len(geo), 'edge quads')
    for g, q in zip(eq, geo):
        for p, w in zip(g, q):
            t.require(abs(p.longitude - w[0]) < 1e-4
                      and abs(p.latitude - w[1]) < 1e-4
                      and abs(p.depth - w[2]) < 1e-3,
                      'edge quad vertex %r for %r', p, w)


NAMES = ('xp0', 'yp0', 'xp1', 'yp1', 'zp', 'widths', 'dips')


@sub('C09', 'inconsistent_lengths',
     st.tuples(st.sampled_from(['trace', 'orient', 'vert']),
               st.integers(2, 4), st.integers(0, 11), st.booleans(),
               st.sampled_from(['none', 'short', 'long'])),
     quick=150, thorough=1500,
     rule='one argument shorter or longer than the others must be refused; non-trivial = all')
def lengths(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    from impactutils.exceptions import ConsistentLengthError
    kind, n, which, longer, strike = case
    t.label(kind)
    o = R.make_origin()
    base = {'trace': [0.0, 0.0, 0.1, 0.1, 1.0, 10.0, 45.0],
            'orient': [0.0, 0.0, 5.0, 1.0, 1.0, 10.0, 10.0, 0.0, 45.0],
            'vert': [0, 0, 1, 0.1, 0.1, 1, 0.1, 0.15, 9, 0, 0.05, 9]}[kind]
    args = [[float(b) + 0.01 * i for i in range(n)] for b in base]
    k = which % len(args)
    fn = {'trace': QuadRupture.fromTrace, 'orient': QuadRupture.fromOrientation,
          'vert': QuadRupture.fromVertices}[kind]
    bad = [list(a) for a in args]
    bad[k] = bad[k] + [bad[k][-1]] if longer else bad[k][:-1]
    t.raises(ConsistentLengthError, fn, *(bad + [o]))
    if kind == 'trace' and strike != 'none':
        m = n + 1 if strike == 'long' else n - 1
        if m > 1:
            t.raises(TypeError, fn, *(args + [o]), strike=[10.0] * m)
    if kind == 'vert' and strike != 'none':
        m = n + 1 if strike == 'long' else n - 1
        t.raises(ConsistentLengthError, fn, *(args + [o]),
                 group_index=[0] * m)


@st.composite
def grouped(draw):
    lat, lon = draw(fl(-60, 60)), draw(fl(-180, 180))
    az = draw(fl(0, 360))
    n = draw(st.integers(2, 5))
    lens = [draw(fl(2, 15)) for _ in range(n)]
    cut = sorted(draw(st.lists(st.integers(1, n - 1), max_size=2,
                               unique=True)))
    ids = draw(st.permutations(range(len(cut) + 1)))
    gi = [ids[sum(1 for c in cut if c <= i)] for i in range(n)]
    return dict(lat=lat, lon=lon, az=az, lens=lens, gi=gi,
                z=draw(fl(0, 10)), width=draw(fl(3, 25)),
                dip=draw(fl(20, 80)))


@sub('C09', 'fromTrace_grouped', grouped(), quick=150, thorough=3000,
     rule='straight contiguous traces of 2-5 segments split into 1-3 groups in any label order; non-trivial = all')
def grouped_trace(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    c = case
    pts = [(c['lon'], c['lat'])]
    for ln in c['lens']:
        pts.append(tuple(map(float, R.step(pts[-1][0], pts[-1][1], c['az'],
                                           ln))))
    n = len(c['lens'])
    o = R.make_origin()
    r = QuadRupture.fromTrace(
        [p[0] for p in pts[:-1]], [p[1] for p in pts[:-1]],
        [p[0] for p in pts[1:]], [p[1] for p in pts[1:]],
        [c['z']] * n, [c['width']] * n, [c['dip']] * n, o,
        group_index=c['gi'])
    t.label('groups%d' % len(set(c['gi'])))
    got = r.getQuadrilaterals()
    t.require(len(got) == n, '%d quads for %d segments', len(got), n)
    t.require(r.getNumGroups() == len(set(c['gi'])), 'number of groups')
    # groups come out in label order, segments in trace order within a group
    want = [i for g in sorted(set(c['gi']))
            for i in range(n) if c['gi'][i] == g]
    idx = r._getGroupIndex()
    labels = sorted(set(c['gi']))
    for g, i, k in zip(got, want, idx):
        t.require(labels[int(k)] == c['gi'][i], 'group of segment %d', i)
        t.require(hdist((g[0].longitude, g[0].latitude), pts[i]) < 0.001 and
                  hdist((g[1].longitude, g[1].latitude), pts[i + 1]) < 0.001,
                  'top edge of segment %d moved', i)
        down = c['width'] * math.sin(math.radians(c['dip']))
        out = c['width'] * math.cos(math.radians(c['dip']))
        for u, v in ((0, 3), (1, 2)):
            t.close(g[v].depth, c['z'] + down, abs_=0.1, msg='bottom depth')
            t.close(hdist((g[u].longitude, g[u].latitude),
                          (g[v].longitude, g[v].latitude)), out,
                    abs_=0.35 + 0.015 * out, msg='offset')


@st.composite
def labelled(draw):
    sp = draw(R.spec(max_groups=3, max_seg=3, small=True, bend=25, skew=10,
                     ratios=False, dips=fl(20, 80)))
    return dict(spec=sp, ids=draw(st.lists(st.integers(-3, 12), min_size=3,
                                           max_size=3, unique=True)),
                mix=draw(st.lists(fl(0, 1), min_size=12, max_size=12)),
                aslist=draw(st.booleans()), mixed=draw(st.booleans()))


def groups_of(quads, idx):
    out = {}
    for q, k in zip(quads, idx):
        out.setdefault(int(k), []).append(
            [(p.longitude, p.latitude, p.depth) for p in q])
    return list(out.values())


def interleave(items, mix, mixed):
    """Stable merge of groups; items is a list of (group, item)."""
    if not mixed:
        return items
    pos = {}
    keyed = []
    for g, x in items:
        pos[g] = pos.get(g, 0) + mix[len(keyed) % len(mix)] + 0.01
        keyed.append((pos[g], g, x))
    return [(g, x) for k, g, x in sorted(keyed, key=lambda y: y[0])]


@sub('C09', 'group_labels', labelled(), quick=150, thorough=3000,
     rule='fromVertices and EdgeRupture.fromArrays with any group labels, also when the members of the groups alternate: every group has its quadrilaterals, in their order; non-trivial = 2 or more groups')
def group_labels(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    from impactutils.rupture.edge_rupture import EdgeRupture
    polys = R.polygons(case['spec'])
    ids = case['ids']
    o = R.make_origin()
    seq = list if case['aslist'] else np.array
    want, items, tops = [], [], []
    for g, p in enumerate(polys):
        qs = R.poly_quads_geo([p])
        want.append(qs)
        items += [(g, q) for q in qs]
        m = (len(p) - 1) // 2
        tops += [(g, x) for x in zip(p[:m], p[m:-1][::-1])]

    def match(got, tol, kind):
        t.require(sorted(map(len, got)) == sorted(map(len, want)),
                  '%s: groups of %r quads, not %r', kind,
                  [len(x) for x in got], [len(x) for x in want])
        left = list(want)
        for qs in got:
            hit = [w for w in left if len(w) == len(qs) and all(
                hdist(a, b) < tol and abs(a[2] - b[2]) < tol
                for q, v in zip(qs, w) for a, b in zip(q, v))]
            t.require(hit, '%s: no such group: %r', kind, qs[0])
            left.remove(hit[0])
    its = interleave(items, case['mix'], case['mixed'])
    args = [[q[c][a] for g, q in its] for c in range(4) for a in range(3)]
    r = QuadRupture.fromVertices(*(args + [o]), group_index=seq(
        [ids[g] for g, q in its]))
    t.require(r.getNumGroups() == len(polys), 'number of groups')
    match(groups_of(r.getQuadrilaterals(), r._getGroupIndex()), 0.005,
          'fromVertices')
    its = interleave(tops, case['mix'], case['mixed'])
    e = EdgeRupture.fromArrays(
        *[[x[i][a] for g, x in its] for i in range(2) for a in range(3)],
        o, group_index=seq([ids[g] for g, x in its]), mesh_dx=1.5)
    match(groups_of(e.getQuadrilaterals(), e._getQuadGroupIndex()), 0.05,
          'fromArrays')
    t.label('groups' if len(polys) > 1 else '-one')
