"""Generated ruptures as plain data, and independent geometry oracles.

A rupture spec is a list of groups; a group is a dict
  lat, lon, z     first top point (deg, deg, km)
  az, len         azimuth (deg) and length (km) of each top segment
  dip, width      dip (deg) and down-dip width (km) at the first top point
  skew            angle added to the dip direction az[0] + 90
  ratio           per segment bottom-length / top-length
Bottom points are chained in ECEF with vectors parallel to the top edge, so
every quadrilateral is an exactly planar trapezoid.
"""
import math

import numpy as np
from hypothesis import strategies as st
from pyproj import Geod, Transformer

from vp.gen import fl

GEOD = Geod(ellps='WGS84')
_T = Transformer.from_crs('EPSG:4979', 'EPSG:4978', always_xy=True)


def ecef(lon, lat, dep):
    """lon, lat (deg), depth (km) -> ECEF in km; arrays -> (n, 3)."""
    x, y, z = _T.transform(np.asarray(lon, float), np.asarray(lat, float),
                           -1000.0 * np.asarray(dep, float))
    return np.stack([x, y, z], axis=-1) / 1000.0


def geodetic(p):
    p = np.asarray(p, float) * 1000.0
    lon, lat, h = _T.transform(p[..., 0], p[..., 1], p[..., 2],
                               direction='INVERSE')
    return lon, lat, -h / 1000.0


def enu(lon, lat):
    la, lo = math.radians(lat), math.radians(lon)
    e = np.array([-math.sin(lo), math.cos(lo), 0.0])
    n = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo),
                  math.cos(la)])
    u = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
                  math.sin(la)])
    return e, n, u


def step(lon, lat, az, km):
    lo, la, _ = GEOD.fwd(lon, lat, az, km * 1000.0)
    return lo, la


def shift_lon(lon, d):
    x = (lon + d) % 360.0
    return x - 360.0 if x > 180.0 else x


def group_points(g):
    """-> (top, bottom) lists of [lon, lat, depth]."""
    top = [[g['lon'], g['lat'], g['z']]]
    for a, ln in zip(g['az'], g['len']):
        lo, la = step(top[-1][0], top[-1][1], a, ln)
        top.append([float(lo), float(la), g['z']])
    te = ecef([p[0] for p in top], [p[1] for p in top], [p[2] for p in top])
    e, n, u = enu(g['lon'], g['lat'])
    # dip direction: perpendicular to the actual first chord
    v = te[1] - te[0]
    h = np.cross(v, u)
    h /= np.linalg.norm(h)
    s = v / np.linalg.norm(v)
    k = math.radians(g.get('skew', 0.0))
    h = h * math.cos(k) + s * math.sin(k)
    d = math.radians(g['dip'])
    b = [te[0] + g['width'] * (math.cos(d) * h - math.sin(d) * u)]
    for i, r in enumerate(g.get('ratio') or [1.0] * len(g['len'])):
        b.append(b[-1] + r * (te[i + 1] - te[i]))
    lo, la, de = geodetic(np.array(b))
    bot = [[float(x), float(y), float(z)] for x, y, z in zip(lo, la, de)]
    return top, bot


def polygons(spec):
    out = []
    for g in spec:
        top, bot = group_points(g)
        out.append(top + bot[::-1] + [top[0]])
    return out


def geojson(polys, reference='ref', meta=None):
    m = {'reference': reference}
    m.update(meta or {})
    return {'type': 'FeatureCollection', 'metadata': m,
            'features': [{'type': 'Feature',
                          'properties': {'rupture type': 'rupture extent'},
                          'geometry': {'type': 'MultiPolygon',
                                       'coordinates': [
                                           [[list(p) for p in q]
                                            for q in polys]]}}]}


def poly_quads(polys):
    """Quads (P0, P1, P2, P3) as ECEF arrays from polygons."""
    out = []
    for p in polys:
        q = p[:-1]
        n = len(q) // 2
        top, bot = q[:n], q[n:][::-1]
        for i in range(n - 1):
            c = np.array([top[i], top[i + 1], bot[i + 1], bot[i]])
            out.append(ecef(c[:, 0], c[:, 1], c[:, 2]))
    return out


def poly_quads_geo(polys):
    out = []
    for p in polys:
        q = p[:-1]
        n = len(q) // 2
        top, bot = q[:n], q[n:][::-1]
        for i in range(n - 1):
            out.append([top[i], top[i + 1], bot[i + 1], bot[i]])
    return out


# ---------------------------------------------------------------- oracles

def seg_dist(p, a, b):
    ab = b - a
    d = float(ab @ ab)
    s = 0.0 if d == 0 else min(1.0, max(0.0, float((p - a) @ ab) / d))
    return float(np.linalg.norm(p - (a + s * ab)))


def tri_dist(p, a, b, c):
    """Distance of p to triangle abc (barycentric, falling back to edges)."""
    n = np.cross(b - a, c - a)
    nn = float(n @ n)
    best = min(seg_dist(p, a, b), seg_dist(p, b, c), seg_dist(p, c, a))
    scale = max(float((b - a) @ (b - a)), float((c - a) @ (c - a)))
    if nn <= 1e-18 * scale * scale:
        return best
    w = p - a
    u = float(np.cross(w, c - a) @ n) / nn
    v = float(np.cross(b - a, w) @ n) / nn
    if u >= 0 and v >= 0 and u + v <= 1:
        best = min(best, abs(float(w @ n)) / math.sqrt(nn))
    return best


def quad_dist(p, q):
    return min(tri_dist(p, q[0], q[1], q[2]), tri_dist(p, q[0], q[2], q[3]))


def surf_poly_dist(lon, lat, quad):
    """Distance (km) on the ground from a site to the surface projection of a
    quad [[lon,lat,dep]*4], in a plane around the site built from geodesic
    azimuth and distance; 0 inside."""
    xy = []
    for c in quad:
        az, _, d = GEOD.inv(lon, lat, c[0], c[1])
        xy.append([d / 1000 * math.sin(math.radians(az)),
                   d / 1000 * math.cos(math.radians(az))])
    xy = np.array(xy)
    o = np.zeros(2)
    best = min(seg_dist(o, xy[i], xy[(i + 1) % 4]) for i in range(4))
    # winding by angle sum / ray crossing
    inside = False
    for i in range(4):
        x1, y1 = xy[i]
        x2, y2 = xy[(i + 1) % 4]
        if (y1 > 0) != (y2 > 0):
            if x1 + (0 - y1) * (x2 - x1) / (y2 - y1) > 0:
                inside = not inside
    return 0.0 if inside else best, best


# ------------------------------------------------------------- strategies

def one_group(max_seg=4, dips=None, ratios=True, small=False, lonlat=None,
              bend=40.0, skew=25.0, az0=None):
    @st.composite
    def s(draw):
        n = draw(st.integers(1, max_seg))
        if lonlat is None:
            lat = draw(st.one_of(fl(-65, 65), st.sampled_from(
                [0.0, 34.2, -41.5, 60.0])))
            lon = draw(st.one_of(fl(-180, 180), st.sampled_from(
                [-118.5, 179.95, -179.9, 0.0])))
        else:
            lat, lon = lonlat
        a0 = az0 if az0 is not None else draw(st.one_of(
            fl(0, 360), st.sampled_from([0.0, 90.0, 180.0, 270.0, 45.0])))
        az, ln, ra = [a0], [], []
        for i in range(n):
            if i:
                # keep every quad of the group dipping to the same side
                az.append((a0 + draw(fl(-bend, bend))) % 360)
            ln.append(draw(fl(2, 25 if small else 60)))
            ra.append(draw(fl(0.6, 1.4)) if ratios and draw(st.booleans())
                      else 1.0)
        dip = draw(dips if dips is not None else st.one_of(
            fl(10, 90), st.sampled_from([90.0, 89.0, 45.0, 30.0, 60.0])))
        return dict(lat=lat, lon=lon,
                    z=draw(st.one_of(st.just(0.0), fl(0, 20))),
                    az=az, len=ln, ratio=ra, dip=dip,
                    width=draw(fl(3, 30)),
                    skew=draw(st.one_of(st.just(0.0), fl(-skew, skew))))
    return s()


def spec(max_groups=3, max_seg=3, near=True, **kw):
    """1..max_groups groups within ~150 km of the first one."""
    @st.composite
    def s(draw):
        n = draw(st.integers(1, max_groups))
        gs = [draw(one_group(max_seg, **kw))]
        for i in range(1, n):
            lo, la = step(gs[0]['lon'], gs[0]['lat'],
                          draw(fl(0, 360)), draw(fl(1, 120)))
            gs.append(draw(one_group(max_seg, **dict(
                kw, lonlat=(float(la), float(lo))))))
        return gs
    return s()


def sites(n=5, far=250.0):
    """Sites as (azimuth, km) offsets plus a mode: relative to a vertex or a
    point of the surface projection."""
    return st.lists(st.tuples(st.integers(0, 5), fl(0, 1), fl(0, 1),
                              fl(0, 360),
                              st.one_of(st.just(0.0), fl(0, 5), fl(0, far))),
                    min_size=1, max_size=n)


def place_depth(site, polys):
    """Depth of the surface where the site was placed."""
    k, u, v, az, km = site
    qs = poly_quads(polys)
    q = qs[k % len(qs)]
    p = (1 - v) * ((1 - u) * q[0] + u * q[1]) + v * ((1 - u) * q[3] + u * q[2])
    return float(geodetic(p)[2])


def place(site, polys):
    """-> lon, lat of a generated site: a bilinear position on the surface
    projection of some quad, moved by (azimuth, km)."""
    k, u, v, az, km = site
    qs = poly_quads(polys)
    q = qs[k % len(qs)]
    p = (1 - v) * ((1 - u) * q[0] + u * q[1]) + v * ((1 - u) * q[3] + u * q[2])
    lo, la, _ = geodetic(p)
    lo, la = step(float(lo), float(la), az, km)
    return float(lo), float(la)


def origin_dict(lat=0.0, lon=0.0, depth=10.0, mag=6.5, **kw):
    d = dict(id='ev1', netid='us', network='Test Net', lat=lat, lon=lon,
             depth=depth, locstring='somewhere', mag=mag,
             time=(2016, 2, 3, 4, 5, 6, 789000), mech='ALL')
    d.update(kw)
    return d


def make_origin(d=None, **kw):
    from impactutils.rupture.origin import Origin
    from impactutils.time.ancient_time import HistoricTime
    d = dict(d) if d is not None else origin_dict(**kw)
    if isinstance(d['time'], tuple):
        d['time'] = HistoricTime(*d['time'])
    return Origin(d)
