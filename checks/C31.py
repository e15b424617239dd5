"""C31: rupture drawings show the rupture."""
import numpy as np
from hypothesis import strategies as st

from checks.C11 import edge_group, edge_polys
from vp import rupgen as R
from vp.core import sub
from vp.gen import fl

SPEC = R.spec(max_groups=3, max_seg=3, small=True, ratios=False)
CASE = st.one_of(SPEC.map(lambda s: ['quad', s]),
                 edge_polys().map(lambda s: ['edge', s]))


@st.composite
def long_(draw):
    """Edge rupture whose groups are up to 20 degrees apart."""
    lat, lon = draw(fl(-50, 50)), draw(fl(-160, 160))
    out = [draw(edge_group((lat, lon)))]
    for i in range(draw(st.integers(1, 2))):
        out.append(draw(edge_group((lat + draw(fl(-20, 20)),
                                    lon + draw(fl(-20, 20))))))
    return ['edge', out]


@st.composite
def many(draw):
    """A rupture along a line of some hundred quadrilaterals."""
    n = draw(st.integers(20, 300))
    lat, lon, w = draw(fl(-50, 50)), draw(fl(-160, 160)), draw(fl(0.05, 0.2))
    top, bot = [], []
    for i in range(n + 1):
        y = lat + i * 0.01
        top.append([lon, y, 1.0])
        bot.append([lon + w, y, 9.0])
    return ['edge', [top + bot[::-1] + [top[0]]]]


def build(case):
    from impactutils.rupture.edge_rupture import EdgeRupture
    from impactutils.rupture.quad_rupture import QuadRupture
    kind, spec = case
    polys = R.polygons(spec) if kind == 'quad' else spec
    cls = QuadRupture if kind == 'quad' else EdgeRupture
    return cls(R.geojson(polys), R.make_origin()), polys


def sides(lines):
    """All sides drawn, however they are divided into lines."""
    out = []
    for x in lines:
        p = [tuple(round(float(v), 6) + 0.0 for v in row) for row in x]
        out += [tuple(sorted(s)) for s in zip(p, p[1:])
                if s[0] != s[1] and not np.isnan(s).any()]
    return sorted(out)


@sub('C31', 'wire3d', st.tuples(
    st.one_of(CASE, CASE, CASE, CASE, CASE, many()),
    st.booleans(), st.booleans()),
     quick=120, thorough=2000,
     rule='wire frames of quad and edge ruptures of 1-3 groups, in a new or given 3D axis, also after another rupture: the drawn lines are exactly the closed outlines of the quadrilaterals with depth downwards; non-trivial = 2 or more quadrilaterals')
def wire3d(case, t):
    import matplotlib.pyplot as plt
    from impactutils.rupture.plotrupture import plot_rupture_wire3d
    spec, own, twice = case
    r, polys = build(spec)
    quads = r.getQuadrilaterals()
    try:
        ax = plt.figure().add_subplot(111, projection='3d') if own else None
        for k in range(1 + (own and twice)):
            got = plot_rupture_wire3d(r, ax=ax) if own else \
                plot_rupture_wire3d(r)
        t.require(ax is None or got is ax, 'returns another axis')
        lines = [np.array(x.get_data_3d(), float).T for x in got.lines]
        want = [[(p.longitude, p.latitude, -p.depth)
                 for p in list(q) + [q[0]]] for q in quads] * (
                     1 + (own and twice))
        t.require(sides(lines) == sides(want), 'lines %r, expected %r',
                  sides(lines)[:2], sides(want)[:2])
        lim = (got.get_xlim(), got.get_ylim(), got.get_zlim())
        for w in want:
            for p in w:
                for v, (a, b) in zip(p, lim):
                    t.require(min(a, b) - 1e-9 <= v <= max(a, b) + 1e-9,
                              '%r is outside of the axes', p)
        t.raises(TypeError, plot_rupture_wire3d, r,
                 ax=plt.figure().add_subplot(111))
    finally:
        plt.close('all')
    t.label('quads' if len(quads) > 1 else '-one')


@sub('C31', 'map', st.one_of(CASE, long_()), quick=30, thorough=300,
     rule='maps of quad and edge ruptures, also of groups up to 20 degrees apart: the drawn line goes through all points of the outline, and all are inside of the map; non-trivial = all')
def map_(case, t):
    import cartopy.crs as ccrs
    import matplotlib.pyplot as plt
    from impactutils.rupture.plotrupture import map_rupture
    r, polys = build(case)
    lon, lat = np.asarray(r.lons), np.asarray(r.lats)
    ok = ~np.isnan(lon)
    lon, lat = lon[ok], lat[ok]
    t.label(case[0])
    if lon.max() - lon.min() > 180:
        t.label('-antimeridian')
        return
    if max(abs(lon)) > 170 or max(abs(lat)) > 80:
        t.label('-edge of the world')
        return
    try:
        ax = map_rupture(r)
        drawn = []
        for x in ax.lines:
            drawn += [tuple(v) for v in
                      np.column_stack(x.get_data()).astype(float)]
        drawn = np.array(drawn)
        for p in zip(lon, lat):
            t.require(len(drawn) and np.min(np.hypot(*(drawn - p).T)) < 1e-6,
                      'the line misses %r', p)
        for p in drawn:
            t.require(np.isnan(p).any() or
                      np.min(np.hypot(lon - p[0], lat - p[1])) < 1e-6,
                      'the line goes to %r', p)
        ext = ax.get_extent()
        xy = ax.projection.transform_points(ccrs.PlateCarree(), lon, lat)
        t.require((xy[:, 0] > ext[0]).all() and (xy[:, 0] < ext[1]).all() and
                  (xy[:, 1] > ext[2]).all() and (xy[:, 1] < ext[3]).all(),
                  'the rupture is not on the map')
    finally:
        plt.close('all')
