"""C21: scale bars measure true distances, map labels do not collide."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp.core import sub
from vp.gen import fl, dec

# metres per unit, from their definitions
US_FT = 1200 / 3937.0
UNIT = {'km': 1000.0, 'm': 1.0, 'dm': 0.1, 'cm': 0.01, 'mm': 0.001,
        'kmi': 1852.0, 'in': 0.0254, 'ft': 0.3048, 'yd': 0.9144,
        'mi': 5280 * 0.3048, 'fath': 6 * 0.3048, 'ch': 66 * 0.3048,
        'link': 0.66 * 0.3048, 'us-in': US_FT / 12, 'us-ft': US_FT,
        'us-yd': 3 * US_FT, 'us-ch': 66 * US_FT, 'us-mi': 5280 * US_FT,
        'ind-yd': 0.91439523, 'ind-ft': 0.91439523 / 3,
        'ind-ch': 22 * 0.91439523}
LENGTHS = {4: 4, 10: 2, 12: 4, 15: 3, 20: 4, 30: 3, 40: 4, 75: 3, 100: 4,
           120: 4, 150: 3, 200: 4, 240: 6, 300: 6, 400: 4, 600: 6, 750: 3,
           1000: 4, 2000: 4, 4000: 4, 6000: 6, 10000: 4, 20000: 4, 40000: 4,
           60000: 6, 75000: 3, 100000: 4, 200000: 4}
PROJ = ['platecarree', 'platecarree', 'mercator', 'lambert', 'utm', 'ortho']


def near(t, a, b, tol, msg, *args):
    t.close(a, b, abs_=tol, msg=msg % args if args else msg)


def make_axes(case):
    import cartopy.crs as ccrs
    import matplotlib.pyplot as plt
    plt.close('all')
    lat, lon, dlat, dlon = case['lat'], case['lon'], case['dlat'], case['dlon']
    p = case['proj']
    if p == 'mercator':
        proj = ccrs.Mercator(central_longitude=lon)
    elif p == 'lambert':
        s = 1 if lat >= 0 else -1
        proj = ccrs.LambertConformal(
            central_longitude=lon, central_latitude=lat,
            standard_parallels=(s * 33, s * 45), cutoff=-30 * s)
    elif p == 'utm':
        proj = ccrs.UTM(int((lon + 180) // 6) % 60 + 1,
                        southern_hemisphere=lat < 0)
    elif p == 'ortho':
        proj = ccrs.Orthographic(lon, lat)
    else:
        proj = ccrs.PlateCarree()
    fig = plt.figure(figsize=case['size'])
    ax = fig.add_axes(case['dims'], projection=proj)
    c = proj.transform_point(lon, lat, ccrs.PlateCarree())
    k = 1.0 if p == 'platecarree' else 111e3
    x0, x1 = c[0] - dlon * k / 2, c[0] + dlon * k / 2
    y0, y1 = c[1] - dlat * k / 2, c[1] + dlat * k / 2
    ax.set_extent([x0, x1, y0, y1], crs=proj)
    fig.canvas.draw()
    return fig, ax


AXES = st.fixed_dictionaries({
    'proj': st.sampled_from(PROJ), 'lat': fl(-55, 55), 'lon': fl(-160, 160),
    'dlat': fl(0.2, 8), 'dlon': fl(0.2, 12),
    'size': st.tuples(fl(5, 12), fl(5, 12)),
    'dims': st.sampled_from([(0, 0, 1, 1), (0.1, 0.1, 0.8, 0.8),
                             (0.2, 0.3, 0.6, 0.5)])})
BAR = st.fixed_dictionaries({
    'pos': st.sampled_from(['ll', 'lr', 'ul', 'ur']),
    'padx': fl(0.02, 0.4), 'pady': fl(0.1, 0.4),
    'font': st.one_of(st.none(), st.integers(5, 16)),
    'units': st.one_of(st.sampled_from(['km', 'mi', 'm', 'ft', 'kmi']),
                       st.sampled_from(sorted(UNIT))),
    'own': st.one_of(st.none(), st.none(), st.tuples(
        st.one_of(st.integers(1, 500), dec(0.1, 50, 1)),
        st.integers(2, 6))),
    'zorder': st.integers(1, 50)})


def new_artists(ax):
    return ([p.get_xy() for p in ax.patches],
            [p.get_facecolor() for p in ax.patches],
            [(x.get_text(), x.get_position(), x) for x in ax.texts],
            [np.array(ln.get_xydata()) for ln in ax.lines])


@sub('C21', 'scale_bars', st.tuples(AXES, BAR), quick=200, thorough=2500,
     rule='scale bar on a generated map: its drawn length, divisions, tick labels and place agree with the map scale; non-trivial = 2 or more labelled ticks between the ends or own length')
def scale_bars(case, t):
    import matplotlib
    import matplotlib.pyplot as plt
    from impactutils.mapping.scalebar import draw_scale
    a, b = case
    fig, ax = make_axes(a)
    try:
        xl, yl = ax.get_xlim(), ax.get_ylim()
        width = xl[1] - xl[0]
        if a['proj'] == 'platecarree':
            clat = (yl[0] + yl[1]) / 2
            m_per = 111191.0 * math.cos(math.radians(clat))
        else:
            m_per = 1.0
        kw = {}
        if b['own']:
            kw = {'bar_length': b['own'][0], 'divisions': b['own'][1]}
        if b['font'] is not None:
            kw['font_size'] = b['font']
        draw_scale(ax, pos=b['pos'], padx=b['padx'], pady=b['pady'],
                   units=b['units'], zorder=b['zorder'], **kw)
        t.require(ax.get_xlim() == xl and ax.get_ylim() == yl,
                  'drawing the scale bar changed the map extent')
        boxes, colors, texts, lines = new_artists(ax)
        unit = UNIT[b['units']]
        quarter = 0.25 * width * m_per / unit
        if b['own']:
            length, ndiv = b['own']
        else:
            byd = sorted(LENGTHS, key=lambda v: abs(v - quarter))
            cand = [v for v in byd if abs(abs(v - quarter) -
                                           abs(byd[0] - quarter))
                    <= 1e-3 * quarter]
            # on a tie the drawn one decides
            drawn = [x[0] for x in texts]
            length = next((v for v in cand if '%d' % v in drawn), cand[0])
            ndiv = LENGTHS[length]
        t.label('own' if b['own'] else 'ticks' if ndiv % 2 == 0 and ndiv > 2
                else '-ends only', '-' + a['proj'])
        # divisions: contiguous, of equal width, alternating white and black
        t.require(len(boxes) == ndiv, '%d divisions drawn, expected %d (%r)',
                  len(boxes), ndiv, [x[0] for x in texts])
        edges = sorted((float(p[:, 0].min()), float(p[:, 0].max()), c)
                       for p, c in zip(boxes, colors))
        left, right = edges[0][0], edges[-1][1]
        want = length * unit / m_per
        t.require(abs((right - left) / want - 1) < 1e-5,
                  'the bar of %r %s is %r map units long, expected %r', length,
                  b['units'], right - left, want)
        for i, (lo, hi, c) in enumerate(edges):
            near(t, lo, left + want * i / ndiv, 1e-6 * want,
                    'left edge of division %d', i)
            near(t, hi, left + want * (i + 1) / ndiv, 1e-6 * want,
                    'right edge of division %d', i)
            v = 1.0 if i % 2 == 0 else 0.0
            t.require(tuple(c[:3]) == (v, v, v), 'division %d has colour %r',
                      i, c)
        bottom = min(float(p[:, 1].min()) for p in boxes)
        top = max(float(p[:, 1].max()) for p in boxes)
        # text: unit above the middle, numbers at their distances
        nums = []
        for s, (x, y), art in texts:
            t.require(art.get_zorder() == b['zorder'], 'zorder of %r', s)
            fs = b['font'] or matplotlib.rcParams['font.size']
            t.require(art.get_fontsize() == fs, 'font size of %r', s)
            if s == b['units']:
                near(t, x, (left + right) / 2, 1e-6 * want, 'unit label')
                t.require(y > top, 'unit label is not above the bar')
                continue
            nums.append(float(s))
            near(t, left + float(s) * unit / m_per, x, 1e-5 * want,
                    'place of the label %r', s)
            t.require(y < bottom, 'label %r is not below the bar', s)
        exp = [0, length] if ndiv % 2 else [
            length * i / ndiv for i in range(0, ndiv + 1, 2)]
        t.require(len(nums) == len(exp) and np.allclose(
            sorted(nums), exp, rtol=1e-6), 'labels %r, expected %r',
            sorted(nums), exp)
        t.require([x[0] for x in texts].count(b['units']) == 1, 'unit labels '
                  '%r', [x[0] for x in texts])
        # a tick under each number
        ticks = sorted(float(ln[0, 0]) for ln in lines if len(ln) == 2)
        t.require(len(ticks) == len(exp) and np.allclose(
            ticks, [left + e * unit / m_per for e in exp],
            atol=1e-5 * want, rtol=0), 'ticks at %r', ticks)
        # place on the map
        axl = (left - xl[0]) / width
        axr = (right - xl[0]) / width
        axb = (bottom - yl[0]) / (yl[1] - yl[0])
        axt = (top - yl[0]) / (yl[1] - yl[0])
        gx = axl if b['pos'][1] == 'l' else 1 - axr
        gy = axb if b['pos'][0] == 'l' else 1 - axt
        near(t, gx, b['padx'], 1e-4, 'horizontal padding')
        near(t, gy, b['pady'], 1e-4, 'vertical padding')
        fs = b['font'] or matplotlib.rcParams['font.size']
        hin = 0.75 * fs / 72
        disp = ax.transData.transform([(left, bottom), (left, top)])
        near(t, (disp[1, 1] - disp[0, 1]) / fig.dpi, hin, 1e-6,
                'bar height in inches')
    finally:
        plt.close('all')


@sub('C21', 'scale_bar_refusals', st.tuples(
    AXES, BAR, st.sampled_from(['length', 'divisions', 'badn', 'units', 'pos',
                                'axes']),
    st.sampled_from([0, 1, 7, 10, -2, 2.5])), quick=60, thorough=400,
    rule='bad arguments are refused before anything is drawn; all non-trivial')
def scale_bar_refusals(case, t):
    import matplotlib.pyplot as plt
    from impactutils.exceptions import RequiredArgumentError
    from impactutils.mapping.scalebar import draw_scale
    a, b, what, n = case
    t.label(what)
    fig, ax = make_axes(a)
    try:
        kw = dict(pos=b['pos'], units=b['units'])
        err = ValueError
        if what == 'length':
            kw['bar_length'] = 10
            err = RequiredArgumentError
        elif what == 'divisions':
            kw['divisions'] = 4
            err = RequiredArgumentError
        elif what == 'badn':
            kw.update(bar_length=10, divisions=n)
        elif what == 'units':
            kw['units'] = ['KM', 'miles', '', 'furlong'][int(n) % 4]
        elif what == 'pos':
            kw['pos'] = ['LL', 'upper left', 'l', ''][int(n) % 4]
        else:
            plain = plt.figure().add_axes([0, 0, 1, 1])
            t.raises(err, draw_scale, plain, **kw)
            return
        t.raises(err, draw_scale, ax, **kw)
        t.require(not ax.texts and not ax.lines and not ax.patches,
                  'a refused scale bar drew something')
    finally:
        plt.close('all')


WORD = st.text('abcdefghilmnorstuvW ', min_size=1, max_size=14).map(
    lambda s: s.strip() or 'Ur')


@st.composite
def maps(draw):
    lat = draw(fl(-55, 55))
    # (cartopy 0.2x finds no limits for some maps 1e-9 degrees off a whole one)
    lon = round(draw(st.one_of(fl(-180, 180), st.sampled_from(
        [180.0, -180.0, 179.0, -178.5]))), 5)
    w, h = draw(fl(0.5, 15)), draw(fl(0.5, 10))
    n = draw(st.integers(0, 40))
    cl = draw(st.booleans())
    pts = draw(st.lists(st.tuples(fl(-0.65, 0.65), fl(-0.65, 0.65), WORD),
                        min_size=n, max_size=n))
    if cl:           # clustered
        pts = [(x * 0.3 + 0.1, y * 0.3 - 0.05, s) for x, y, s in pts]
    if draw(st.booleans()):
        # some close to an edge of the map, where the label may not fit
        for i in range(n):
            e = draw(st.integers(0, 11))
            if e < 4:
                near = draw(st.sampled_from([-1, 1])) * (
                    0.5 - draw(fl(0.0005, 0.02)))
                x, y, s = pts[i]
                pts[i] = (near, y, s) if e < 2 else (x, near, s)
    pops = draw(st.permutations(range(n)))
    return {'lat': lat, 'lon': lon, 'w': w, 'h': h, 'pts': pts,
            'pops': [int(p) * 100 + 7 for p in pops],
            'size': (draw(fl(4, 11)), draw(fl(4, 11))),
            'dims': draw(st.sampled_from([(0, 0, 1, 1),
                                          (0.1, 0.1, 0.8, 0.8)])),
            'pad': draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])),
            'font': draw(st.sampled_from([6.0, 10.0, 14.0])),
            'shadow': draw(st.booleans()), 'dots': draw(st.booleans())}


def wrap(x):
    return (x + 180.0) % 360.0 - 180.0


@sub('C21', 'map_labels', maps(), quick=100, thorough=1500,
     rule='cities drawn on a generated map (also across 180): padded labels inside the map and disjoint, a city is left out only for the cell limit, the map edge or a collision with a larger one; non-trivial = some city left out on collision and 2 or more drawn')
def map_labels(case, t):
    import cartopy.crs as ccrs
    import matplotlib.pyplot as plt
    from impactutils.mapping.city import Cities
    from impactutils.mapping.mercatormap import MercatorMap
    plt.close('all')
    try:
        x0, x1 = case['lon'] - case['w'] / 2, case['lon'] + case['w'] / 2
        y0, y1 = case['lat'] - case['h'] / 2, case['lat'] + case['h'] / 2
        n = len(case['pts'])
        df = pd.DataFrame({
            'name': ['%s %d' % (p[2], i) for i, p in enumerate(case['pts'])],
            'lat': [case['lat'] + case['h'] * p[1] for p in case['pts']],
            'lon': [wrap(case['lon'] + case['w'] * p[0])
                    for p in case['pts']],
            'pop': np.array(case['pops'], dtype=int), 'id': np.arange(n)})
        for c in ('lat', 'lon'):
            df[c] = df[c].astype(float)
        bnd = (wrap(x0), wrap(x1), y0, y1)
        if bnd[0] > bnd[1]:
            t.label('-crossing')
        before = df.copy()
        cities = Cities(df)
        mm = MercatorMap(bnd, case['size'], cities, padding=case['pad'],
                         dimensions=list(case['dims']))
        ax, fig = mm.axes, mm.figure
        t.require(fig is ax.figure and mm.getAxesClone() is not ax and
                  mm.getFigureClone() is not fig, 'axes are mixed up')
        # the map shows the requested box
        ext = ax.get_extent()
        geo = ccrs.PlateCarree()
        for lon, lat, i, j in ((x0, y0, 0, 2), (x1, y1, 1, 3)):
            px, py = mm.proj.transform_point(case['lon'], lat, geo)
            eps = 1e-3 * (ext[3] - ext[2])
            t.require(abs(py - ext[j]) < eps, 'map edge %r, expected %r',
                      ext[j], py)
        kx = 6378137.0 * math.radians(1)
        near(t, ext[1] - ext[0], case['w'] * kx, 2e-3 * case['w'] * kx,
                'width of the map')
        got = mm.drawCities(fontsize=case['font'], shadow=case['shadow'],
                            draw_dots=case['dots'], zorder=11)
        t.require(cities.getDataFrame().equals(before),
                  'drawing changed the given cities')
        ids = list(got.getDataFrame()['id'])
        t.require(len(set(ids)) == len(ids), 'cities drawn twice: %r', ids)
        inbox = [i for i in range(n)
                 if abs(case['pts'][i][0]) <= 0.5 + 1e-9 and
                 abs(case['pts'][i][1]) <= 0.5 + 1e-9]
        t.require(set(ids) <= set(inbox), 'cities off the map: %r',
                  sorted(set(ids) - set(inbox)))
        # what is on the map is what is returned
        texts = list(ax.texts)
        t.require(sorted(x.get_text() for x in texts) ==
                  sorted(df.name.iloc[i] for i in ids),
                  'labels %r for cities %r', [x.get_text() for x in texts],
                  ids)
        fig.canvas.draw()
        rend = fig.canvas.get_renderer()
        inv = ax.transData.inverted()

        def box(art):
            l, b, r, u = art.get_window_extent(rend).transformed(inv).extents
            px, py = (r - l) * case['pad'], (u - b) * case['pad']
            return (l - px, r + px, b - py, u + py)
        pxw = float(inv.transform((1, 0))[0] - inv.transform((0, 0))[0])
        tol = 1.0 * pxw

        def place(i):
            x, y = mm.proj.transform_point(df.lon.iloc[i], df.lat.iloc[i],
                                           geo)
            return x, y
        boxes = {}
        for x in texts:
            i = int(x.get_text().rsplit(' ', 1)[1])
            cx, cy = place(i)
            tx, ty = x.get_position()
            t.require(abs(ty - cy) < 2 * pxw and 0 < tx - cx < 10 * pxw,
                      'label of %r is at %r, the city at %r',
                      df.name.iloc[i], (tx, ty), (cx, cy))
            t.require(x.get_fontsize() == case['font'] and
                      x.get_zorder() == 11, 'font size or zorder of a label')
            boxes[i] = box(x)
        if case['dots']:
            dots = sorted((float(ln.get_xdata()[0]), float(ln.get_ydata()[0]))
                          for ln in ax.lines)
            want = sorted((float(df.lon.iloc[i]), float(df.lat.iloc[i]))
                          for i in ids)
            t.require(dots == want, 'dots at %r, cities at %r', dots, want)
        else:
            t.require(not ax.lines, 'dots drawn')

        def hit(p, q, e):
            return (p[0] < q[1] - e and q[0] < p[1] - e and
                    p[2] < q[3] - e and q[2] < p[3] - e)

        def off(p, e):
            return (p[0] < ext[0] - e or p[1] > ext[1] + e or
                    p[2] < ext[2] - e or p[3] > ext[3] + e)
        for i in ids:
            t.require(not off(boxes[i], tol), 'label %r leaves the map',
                      df.name.iloc[i])
            for j in ids:
                t.require(i >= j or not hit(boxes[i], boxes[j], tol),
                          'labels %r and %r overlap', df.name.iloc[i],
                          df.name.iloc[j])
        # everything left out has a reason
        def measure(i):
            if i not in boxes:
                art = ax.text(*texts_pos(i), df.name.iloc[i], ha='left',
                              va='center', fontsize=case['font'],
                              fontname='DejaVu Sans')
                boxes[i] = box(art)
                art.remove()
            return boxes[i]

        def texts_pos(i):
            cx, cy = place(i)
            return cx + 4 * pxw, cy
        pop = df['pop']
        lons = [case['lon'] + case['w'] * p[0] for p in case['pts']]
        coll = 0
        for i in inbox:
            if i in ids:
                continue
            if abs(abs(case['pts'][i][0]) - 0.5) < 1e-9 or \
                    abs(abs(case['pts'][i][1]) - 0.5) < 1e-9:
                continue
            # at most 15 cities per quarter are considered
            larger = [j for j in inbox if pop.iloc[j] > pop.iloc[i]]
            if len(larger) >= 15:
                continue
            p = measure(i)
            if off(p, -tol):
                continue
            reason = [j for j in larger if hit(p, measure(j), -tol) and
                      not off(measure(j), tol)]
            t.require(reason, 'city %r was left out without a reason',
                      df.name.iloc[i])
            coll += 1
        t.label('collisions' if coll and len(ids) > 1 else '-plain')
    finally:
        plt.close('all')
