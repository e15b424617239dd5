"""C20: city searches select exactly the matching cities."""
import io
import math
import os
import re
import zipfile
from unittest import mock

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp.core import sub
from vp.gen import fl, dec
from vp.util import scratch

NAMES = ['Los Angeles', 'East Los Angeles', 'San Jose', 'San Juan', 'Nan',
         'NA', 'York', 'New York', "L'Aquila", 'Foo, Bar', 'A "B" C', 'null',
         'Rome', 'Ur', '007', 'n/a', 'None']
CC = ['US', 'NA', 'IT', 'FR', 'nan'.upper(), 'NL']


@st.composite
def tables(draw, minn=0, maxn=14, pop=None):
    n = draw(st.integers(minn, maxn))
    grid = draw(st.booleans())      # grid values put cities on edges
    if grid:
        la = st.integers(-3, 3).map(float)
        lo = st.integers(-4, 4).map(float)
        oy, ox = draw(st.sampled_from([(0, 0), (40, 170), (-60, -176),
                                       (-87, 100), (87, 0)]))
    else:
        la, lo = dec(-3, 3, 3), dec(-4, 4, 3)
        oy, ox = draw(st.tuples(dec(-87, 87, 1), dec(-176, 176, 1)))
    rows = []
    for _ in range(n):
        lat = round(oy + draw(la), 4)
        lon = round(ox + draw(lo), 4)
        rows.append([draw(st.sampled_from(NAMES)), lat, lon,
                     draw(st.one_of(st.integers(0, 5), st.integers(0, 10 ** 7)))
                     ])
    haspop = draw(st.booleans()) if pop is None else pop
    extra = draw(st.sampled_from([[], [], ['dist'], ['ccode', 'iscap'],
                                  ['placement'], ['x', 'y'], ['some'],
                                  ['some']]))
    return {'rows': rows, 'pop': haspop, 'extra': extra,
            'index': draw(st.sampled_from(['range', 'offset', 'dup']))}


def frame(tb):
    n = len(tb['rows'])
    d = {'name': np.array([r[0] for r in tb['rows']], dtype=object),
         'lat': np.array([r[1] for r in tb['rows']], dtype=float),
         'lon': np.array([r[2] for r in tb['rows']], dtype=float)}
    if tb['pop']:
        d['pop'] = np.array([r[3] for r in tb['rows']], dtype=int)
    for e in tb['extra']:
        if e == 'ccode':
            d[e] = [CC[i % len(CC)] for i in range(n)]
        elif e == 'iscap':
            d[e] = np.array([i % 3 == 0 for i in range(n)], dtype=bool)
        elif e == 'placement':
            d[e] = ['NE' if i % 2 else 'W' for i in range(n)]
        elif e == 'some':
            # optional columns that only some cities have a value in
            d['placement'] = np.array(['NE' if i % 3 == 2 else None
                                       for i in range(n)], dtype=object)
            d['xoff'] = np.where(np.arange(n) % 2, np.nan, 0.25)
        else:
            d[e] = np.arange(n) * 1.5
    d['id'] = np.arange(n)
    df = pd.DataFrame(d)
    if tb['index'] == 'offset':
        df.index = np.arange(n) + 100
    elif tb['index'] == 'dup':
        df.index = np.zeros(n, dtype=int)
    return df


def same_rows(t, sel, df, ids, what, ordered=False):
    """sel holds exactly the rows of df with the given ids."""
    got = sel.getDataFrame()
    gids = list(got['id'])
    if not ordered:
        t.require(sorted(gids) == sorted(ids), '%s selects %r, expected %r',
                  what, sorted(gids), sorted(ids))
    t.require(list(got.columns) == list(df.columns),
              '%s: columns %r, expected %r', what, list(got.columns),
              list(df.columns))
    t.require(len(sel) == len(ids) and sel.len() == len(ids),
              '%s: length %d, expected %d', what, len(sel), len(ids))
    for i, row in zip(gids, got.itertuples(index=False)):
        t.require(cells(row) == cells(df.iloc[i]), '%s: row %r is %r', what,
                  tuple(df.iloc[i]), tuple(row))


def cells(row):
    return tuple(None if pd.isnull(v) else v for v in row)


def untouched(t, c, df, before):
    t.require(c.getDataFrame().equals(before) and df.equals(before),
              'the search changed the cities it was applied to')


@sub('C20', 'bounds', st.tuples(tables(), st.tuples(
    *[st.integers(-5, 5)] * 4), st.booleans()), quick=400, thorough=5000,
    rule='box around the cities (corners on the cities, also across 180): exactly the cities inside or on its edge; non-trivial = a proper, non-empty selection')
def bounds(case, t):
    from impactutils.mapping.city import Cities
    tb, off, usepts = case
    df = frame(tb)
    before = df.copy()
    c = Cities(df)
    n = len(df)
    if n and usepts:
        # a box through two of the cities
        i, j, k, m = [o % n for o in off]
        xs = sorted((df.lon.iloc[i], df.lon.iloc[j]))
        ys = sorted((df.lat.iloc[k], df.lat.iloc[m]))
    else:
        cx = df.lon.mean() if n else 0
        cy = df.lat.mean() if n else 0
        xs = sorted((cx + off[0] * 0.7, cx + off[1] * 0.7))
        ys = sorted((cy + off[2] * 0.7, cy + off[3] * 0.7))
    box = (float(xs[0]), float(xs[1]), float(ys[0]), float(ys[1]))
    want = [i for i in range(n) if box[0] <= df.lon.iloc[i] <= box[1] and
            box[2] <= df.lat.iloc[i] <= box[3]]
    t.label('-none' if not want else '-all' if len(want) == n else 'some')
    same_rows(t, c.limitByBounds(box), df, want, 'box %r' % (box,))
    # box from its east side around the world to its west side
    if box[0] < box[1]:
        other = (box[1], box[0], box[2], box[3])
        want = [i for i in range(n) if not box[0] < df.lon.iloc[i] < box[1]
                and box[2] <= df.lat.iloc[i] <= box[3]]
        same_rows(t, c.limitByBounds(other), df, want, 'box %r' % (other,))
    if n:
        b = c.getBounds()
        t.require(b == (df.lon.min(), df.lon.max(), df.lat.min(),
                        df.lat.max()), 'bounds are %r', b)
        same_rows(t, c.limitByBounds(b), df, range(n), 'the own bounds')
    untouched(t, c, df, before)


def gcd(lat1, lon1, lat2, lon2):
    a = [math.radians(v) for v in (lat1, lon1, lat2, lon2)]

    def vec(la, lo):
        return np.array([math.cos(la) * math.cos(lo),
                         math.cos(la) * math.sin(lo), math.sin(la)])
    u, v = vec(a[0], a[1]), vec(a[2], a[3])
    return 6371.0 * math.atan2(np.linalg.norm(np.cross(u, v)), u @ v)


@sub('C20', 'radius', st.tuples(tables(minn=1), st.integers(0, 20),
                                st.one_of(fl(0, 600), st.just(0.0))),
     quick=300, thorough=4000,
     rule='cities within a great-circle radius of a point near one of them (also across 180 and near poles); cities within 1e-6 of the limit may go either way; non-trivial = proper, non-empty selection')
def radius(case, t):
    from impactutils.mapping.city import Cities
    tb, k, r = case
    df = frame(tb)
    before = df.copy()
    n = len(df)
    lat, lon = df.lat.iloc[k % n], df.lon.iloc[k % n]
    if r > 0:
        lat = min(90.0, lat + 0.31)
        lon = lon + 0.27
        if k % 3 == 0:
            lon = lon - 360 if lon > 0 else lon + 360
    c = Cities(df)
    got = set(c.limitByRadius(lat, lon, r).getDataFrame()['id'])
    inside, edge = set(), set()
    for i in range(n):
        d = gcd(lat, lon, df.lat.iloc[i], df.lon.iloc[i])
        if d <= r * (1 - 1e-6) - 1e-6:
            inside.add(i)
        elif d <= r * (1 + 1e-6) + 1e-6:
            edge.add(i)
    t.label('-none' if not inside else '-all' if len(inside) == n else 'some')
    t.require(inside <= got <= inside | edge,
              '%r km around %r: cities %r, expected %r (on the limit: %r)', r,
              (lat, lon), sorted(got), sorted(inside), sorted(edge))
    same_rows(t, c.limitByRadius(lat, lon, r), df, sorted(got), 'radius')
    untouched(t, c, df, before)


@sub('C20', 'population', st.tuples(tables(), st.integers(1, 20), st.one_of(
    st.integers(1, 6), st.integers(1, 10 ** 7))), quick=300, thorough=3000,
    rule='cities of at least the given population; without population data KeyError; non-trivial = proper, non-empty selection')
def population(case, t):
    from impactutils.mapping.city import Cities
    tb, k, pop = case
    df = frame(tb)
    before = df.copy()
    c = Cities(df)
    n = len(df)
    if not tb['pop']:
        t.label('-no pop')
        t.raises(KeyError, c.limitByPopulation, pop)
        t.raises(KeyError, c.limitByGrid)
        return
    if n and k < 12 and df['pop'].iloc[k % n] > 0:
        pop = int(df['pop'].iloc[k % n])         # exactly one city's number
    want = [i for i in range(n) if df['pop'].iloc[i] >= pop]
    t.label('-none' if not want else '-all' if len(want) == n else 'some')
    same_rows(t, c.limitByPopulation(pop), df, want, 'population %d' % pop)
    same_rows(t, c.limitByPopulation(pop, minpop=pop - 1), df, want,
              'population %d' % pop)
    t.raises(ValueError, c.limitByPopulation, pop, minpop=pop)
    t.raises(ValueError, c.limitByPopulation, pop, minpop=pop + 3)
    untouched(t, c, df, before)


@sub('C20', 'grid', st.tuples(tables(minn=1, pop=True, maxn=20),
                              st.integers(1, 4), st.integers(1, 4),
                              st.integers(1, 4)), quick=400, thorough=5000,
     rule='nx by ny grid: each cell keeps its most populous cities, no city lost or doubled at cell edges; non-trivial = some cell has to drop cities')
def grid(case, t):
    from impactutils.mapping.city import Cities
    tb, nx, ny, k = case
    df = frame(tb)
    before = df.copy()
    n = len(df)
    c = Cities(df)
    sel = c.limitByGrid(nx=nx, ny=ny, cities_per_grid=k)
    got = list(sel.getDataFrame()['id'])
    t.require(len(got) == len(set(got)), 'a city is listed twice: %r', got)
    same_rows(t, sel, df, got, 'grid', ordered=True)
    x0, x1, y0, y1 = c.getBounds()

    def cells(v, lo, hi, m):
        """possible cells of v (two on an edge)."""
        if hi == lo:
            return set(range(m))
        f = (v - lo) / (hi - lo) * m
        return {min(m - 1, max(0, int(math.floor(f + e))))
                for e in (-1e-9, 1e-9)}
    pos = [(cells(df.lon.iloc[i], x0, x1, nx),
            cells(df.lat.iloc[i], y0, y1, ny)) for i in range(n)]
    pop = [int(v) for v in df['pop']]
    sure = [(len(p[0]) == 1 and len(p[1]) == 1) for p in pos]
    dropped = n - len(got)
    t.label('dropped' if dropped else '-all kept')
    flat_x, flat_y = x1 == x0, y1 == y0
    for a in range(nx):
        for b in range(ny):
            here = [i for i in range(n) if a in pos[i][0] and b in pos[i][1]]
            inn = [i for i in here if sure[i] and i in got]
            if not (flat_x or flat_y):
                t.require(len(inn) <= k, 'cell %r has %d cities, limit %d',
                          (a, b), len(inn), k)
            for i in here:
                if i in got or not sure[i]:
                    continue
                # dropped although certainly in this cell: k others, at least
                # as large, must be kept here
                better = [j for j in here if j in got and pop[j] >= pop[i]]
                t.require(len(better) >= k,
                          'city %r of cell %r was dropped for %d larger ones',
                          df.iloc[i].to_dict(), (a, b), len(better))
    # a city dropped on an edge must be full in some cell
    for i in range(n):
        if i not in got and not sure[i]:
            ok = any(sum(1 for j in got if a in pos[j][0] and b in pos[j][1]
                         and pop[j] >= pop[i]) >= k
                     for a in pos[i][0] for b in pos[i][1])
            t.require(ok, 'city %r on a cell edge was lost',
                      df.iloc[i].to_dict())
    if k >= n:
        t.require(sorted(got) == list(range(n)), 'cities lost: %r', got)
    t.require(len(got) <= nx * ny * k, '%d cities in %d cells of %d',
              len(got), nx * ny, k)
    untouched(t, c, df, before)


@sub('C20', 'names_and_sorting', st.tuples(
    tables(), st.sampled_from(['San', 'Los Angeles', '^New', 'e$', 'L.s',
                               'X', '[0-9]+', 'a', 'y|Y', 'N', 'York']),
    st.booleans(), st.integers(0, 30)), quick=300, thorough=3000,
    rule='name or pattern searches equal re.search; sorting orders by the columns and keeps all rows; unknown columns KeyError; non-trivial = proper, non-empty name selection')
def names_and_sorting(case, t):
    from impactutils.mapping.city import Cities
    tb, pat, asc, k = case
    df = frame(tb)
    before = df.copy()
    n = len(df)
    c = Cities(df)
    want = [i for i in range(n) if re.search(pat, df.name.iloc[i])]
    t.label('-none' if not want else '-all' if len(want) == n else 'some')
    same_rows(t, c.limitByName(pat), df, want, 'name %r' % pat)
    untouched(t, c, df, before)
    t.require(c.getColumns() == list(df.columns), 'columns %r',
              c.getColumns())
    lat, lon, names = c.getCities()
    t.require(list(lat) == list(df.lat) and list(lon) == list(df.lon) and
              list(names) == list(df.name), 'getCities differs')
    # frames handed out are copies
    c.getDataFrame()['lat'] = 0.0
    t.require(c.getDataFrame().equals(before), 'getDataFrame is no copy')
    cols = ['name', 'lat', 'lon', 'id'] + (['pop'] if tb['pop'] else [])
    one = cols[k % len(cols)]
    two = cols[(k // 5) % len(cols)]
    for by in [one, [one], ([one, two] if one != two else [two]), (one,)]:
        by = list(by) if isinstance(by, tuple) else by
        c = Cities(df)
        c.sortByColumns(by, ascending=asc)
        got = list(c.getDataFrame()['id'])
        same_rows(t, c, df, range(n), 'sorting by %r' % (by,))
        keys = [by] if isinstance(by, str) else by
        vals = [tuple(df[q].iloc[i] for q in keys) for i in got]
        t.require(vals == sorted(vals, reverse=not asc),
                  'sorted by %r (ascending=%r): %r', by, asc, vals)
        t.raises(KeyError, c.sortByColumns, 'nothing')
        t.raises(KeyError, c.sortByColumns, [one, 'nothing'])
        t.require(list(c.getDataFrame()['id']) == got,
                  'a refused sort changed the order')
    for miss in ('name', 'lat', 'lon'):
        t.raises(KeyError, Cities, df.drop(columns=miss))


@sub('C20', 'chains', st.tuples(tables(pop=True, minn=2, maxn=20), st.lists(
    st.tuples(st.sampled_from(['bounds', 'radius', 'pop', 'name', 'sort']),
              st.integers(-4, 8), st.integers(0, 8)), min_size=2,
    max_size=5)), quick=200, thorough=3000,
    rule='sequences of searches applied to each other\'s results select the intersection; non-trivial = non-empty result after two searches that drop something')
def chains(case, t):
    from impactutils.mapping.city import Cities
    tb, ops = case
    df = frame(tb)
    c = Cities(df)
    left = set(range(len(df)))
    cx, cy = df.lon.iloc[0], df.lat.iloc[0]
    drops = 0
    for op, a, b in ops:
        old = set(left)
        if op == 'bounds':
            box = (cx + a - 5.03, cx + a + b + 0.07, cy - b, cy + 2.51)
            c = c.limitByBounds(box)
            left = {i for i in left if box[0] <= df.lon.iloc[i] <= box[1] and
                    box[2] <= df.lat.iloc[i] <= box[3]}
        elif op == 'radius':
            r = 50.003 * b + 60
            c2 = c.limitByRadius(cy, cx, r)
            ds = {i: gcd(cy, cx, df.lat.iloc[i], df.lon.iloc[i])
                  for i in left}
            if any(abs(d - r) < 1e-3 for d in ds.values()):
                continue
            c = c2
            left = {i for i in left if ds[i] <= r}
        elif op == 'pop':
            p = [1, 3, 5, 10, 10 ** 5][b % 5]
            c = c.limitByPopulation(p)
            left = {i for i in left if df['pop'].iloc[i] >= p}
        elif op == 'name':
            pat = ['a', 'n', 'San', 'o'][b % 4]
            c = c.limitByName(pat)
            left = {i for i in left if pat in df.name.iloc[i]}
        else:
            c.sortByColumns('lat', ascending=bool(b % 2))
        drops += old != left
        same_rows(t, c, df, sorted(left), 'after %r' % ((op, a, b),))
    t.label('drops %d' % drops if left and drops > 1 else '-trivial')


@sub('C20', 'csv', st.tuples(tables(), st.integers(0, 10), st.lists(st.tuples(
    fl(-90, 90), fl(-180, 180)), max_size=3)), quick=150,
     thorough=1500,
     rule='saved cities read back with the same columns and rows (any names, country code NA); non-trivial = 2 or more cities')
def csv(case, t):
    from impactutils.mapping.city import Cities
    tb, k, places = case
    # places in full precision among them
    for row, (la, lo) in zip(tb['rows'], places):
        row[1:3] = la, lo
        t.label('precise')
    df = frame(tb)
    df['name'] = [v for v in df['name']]
    c = Cities(df)
    t.label('rows' if len(df) > 1 else '-few')
    with scratch() as d:
        fn = os.path.join(d, 'c.csv')
        c.save(fn)
        back = Cities.fromCSV(fn)
        got = back.getDataFrame()
        t.require(list(got.columns) == list(df.columns),
                  'columns %r, expected %r', list(got.columns),
                  list(df.columns))
        t.require(len(back) == len(df), '%d cities of %d', len(back), len(df))
        for i in range(len(df)):
            for col in df.columns:
                a, b = cells((df[col].iloc[i], got[col].iloc[i]))
                if col in ('lat', 'lon'):
                    # (the last bit may differ)
                    t.close(b, a, rel=1e-14, abs_=1e-300, msg=col)
                    continue
                t.require(a == b or str(a) == str(b), '%s of city %d: %r '
                          'became %r', col, i, a, b)
        bad = df.drop(columns=['name', 'lat', 'lon'][k % 3])
        bad.to_csv(fn, index=False)
        t.raises(KeyError, Cities.fromCSV, fn)


@sub('C20', 'digits', st.tuples(st.lists(st.sampled_from(
    ['007', '12', '1e3', '1.50', '0x10', 'True', 'inf', '1_000', '-5', '']),
    max_size=5), st.sampled_from(['0', '1', 'e', '', '5', 'T'])),
    quick=150, thorough=1500,
    rule='cities of any (also no) name, all of which look like numbers, saved and read: the names are the same texts and searches by name select those matching; non-trivial = 2 or more cities')
def digits(case, t):
    from impactutils.mapping.city import Cities
    names, pat = case
    n = len(names)
    df = pd.DataFrame({'name': np.array([v or None for v in names],
                                        dtype=object),
                       'lat': np.arange(n) * 1.5, 'lon': np.arange(n) * -2.5,
                       'id': np.arange(n)})
    t.label('none missing' if n > 1 and all(names) else 'some missing'
            if n > 1 and any(names) else '-few')
    want = [i for i in range(n) if names[i] and re.search(pat, names[i])]
    with scratch() as d:
        fn = os.path.join(d, 'c.csv')
        Cities(df).save(fn)
        back = Cities.fromCSV(fn)
    for c in ([Cities(df), back] if n else [back]):
        got = [None if pd.isnull(v) else v for v in c.getDataFrame()['name']]
        t.require(got == [v or None for v in names], 'names %r became %r',
                  names, got)
        sel = c.limitByName(pat).getDataFrame()
        t.require(list(sel['id']) == want and list(sel['name']) ==
                  [names[i] for i in want], 'name %r selects %r, expected %r',
                  pat, list(sel['id']), want)
        box = c.limitByBounds((-100, 0, 1, 100)).getDataFrame()
        t.require(list(box['id']) == list(range(1, n)), 'the box selects %r',
                  list(box['id']))


GNAME = st.one_of(st.sampled_from(NAMES), st.sampled_from(
    ['', 'Zürich', 'Łódź', '東京', ' Padded ', 'Tab']))
GEO = st.lists(st.tuples(GNAME, GNAME, dec(-90, 90, 5), dec(-180, 180, 5),
                         st.sampled_from(['PPLC', 'PPLA', 'PPLA2', 'PPL',
                                          'PPLX', '']),
                         st.sampled_from(['US', 'NA', '', 'IT']),
                         st.integers(0, 3 * 10 ** 7),
                         st.sampled_from(['', '17', '-3'])),
               max_size=12)


@sub('C20', 'geonames', GEO, quick=200, thorough=2000,
     rule='generated GeoNames table: one city per line with a non-empty ASCII name, with its values; non-trivial = some lines skipped and some kept')
def geonames(rows, t):
    from impactutils.mapping.city import Cities
    from impactutils.mapping.mapcity import MapCities
    lines, want = [], []
    for i, (nm, asc, lat, lon, code, cc, pop, elev) in enumerate(rows):
        lines.append('\t'.join([str(1000 + i), nm, asc, 'Alt,Näme', repr(lat),
                                repr(lon), 'P', code, cc, '', '01', '', '',
                                '', str(pop), elev, '12', 'Europe/Rome',
                                '2015-01-01']))
        a = asc.strip()
        if a and a.isascii():
            want.append((a, cc, lat, lon, code in ('PPLC', 'PPLA'), pop))
    t.label('mixed' if 0 < len(want) < len(rows) else '-plain')
    with scratch() as d:
        fn = os.path.join(d, 'cities1000.txt')
        with open(fn, 'w', encoding='utf-8') as f:
            f.write('\n'.join(lines) + ('\n' if lines else ''))
        c = Cities.fromGeoNames(fn)
        m = MapCities.fromGeoNames(fn)
        t.require(os.path.exists(fn), 'the input file was removed')
        # the same table downloaded
        tmp = os.path.join(d, 'tmp')
        os.mkdir(tmp)
        urls = []

        def urlopen(url, *a, **k):
            urls.append(url)
            b = io.BytesIO()
            with zipfile.ZipFile(b, 'w') as z:
                z.write(fn, 'cities1000.txt')
            b.seek(0)
            return b
        with mock.patch('urllib.request.urlopen', urlopen), \
                mock.patch('tempfile.tempdir', tmp):
            c2 = Cities.fromGeoNames()
        t.require(len(urls) == 1, 'downloads %r', urls)
        t.require(c2.getDataFrame().equals(c.getDataFrame()),
                  'the downloaded table differs')
        t.require(os.listdir(tmp) == [], 'temporary files stay: %r',
                  os.listdir(tmp))
    df = c.getDataFrame()
    got = [(r['name'], r['ccode'], r['lat'], r['lon'], bool(r['iscap']),
            r['pop']) for _, r in df.iterrows()]
    t.require(got == want, 'cities %r, expected %r', got, want)
    t.require(m.getDataFrame().equals(df) and isinstance(m, MapCities),
              'MapCities differs')
    # own data, and refusals
    frame = m.getDataFrame().copy()
    m2 = MapCities(frame)
    if len(frame):
        frame.loc[0, 'name'] = 'changed'
        frame.loc[0, 'lat'] = 1.5
    t.require(m2.getDataFrame().equals(df), 'MapCities changes with the frame '
              'it was made from')
    for col in ('name', 'lat', 'lon'):
        t.raises(KeyError, MapCities, df.drop(columns=col))
    fonts = m.getFontList()
    t.require('DejaVu Sans' in fonts and fonts == sorted(fonts),
              'font list %r', fonts)
    if want:
        s = m.limitByBounds((-180, 180, -90, 90))
        t.require(isinstance(s, MapCities) and len(s) == len(want),
                  'a search of MapCities gives %r', type(s))
    if c.len() > 0:
        c.project(lambda lon, lat: (lon * 2, lat * 3))
        d2 = c.getDataFrame()
        t.require(list(d2.x) == [w[3] * 2 for w in want] and
                  list(d2.y) == [w[2] * 3 for w in want], 'projected %r', d2)
