"""C19: colour palettes give every data value the interpolated colour."""
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp.core import sub
from vp.gen import fl, dec
from vp.util import scratch

RGB = st.tuples(*[st.integers(0, 255)] * 3)
STEP = st.one_of(dec(0.1, 50, 1), st.sampled_from([1.0, 0.5, 100.0, 1.0, 5.0]))


@st.composite
def palettes(draw):
    n = draw(st.integers(1, 7))
    start = draw(st.one_of(dec(-50, 50, 1), st.sampled_from([0.0, -100.0])))
    z = [start]
    for _ in range(n):
        z.append(round(z[-1] + draw(STEP), 1))
    rgb0 = draw(st.lists(RGB, min_size=n, max_size=n))
    if draw(st.booleans()):
        rgb1 = rgb0[1:] + [draw(RGB)]              # continuous
    else:
        rgb1 = draw(st.lists(RGB, min_size=n, max_size=n))
    span = z[-1] - z[0]
    res = draw(st.one_of(st.none(), st.sampled_from(
        [1.0, 0.1, 0.5]).map(lambda r: max(r, span / 20000)),
        st.integers(1, 3000).map(lambda k: span / k)))
    nan = draw(st.one_of(st.none(), st.integers(0, 255),
                         st.tuples(*[st.integers(0, 255)] * 4)))
    if draw(st.booleans()) and all(float(v).is_integer() for v in z):
        z = [int(v) for v in z]
    kind = draw(st.sampled_from(['list', 'list', 'tuple', 'array', 'series']))
    return {'z': z, 'rgb0': rgb0, 'rgb1': rgb1, 'res': res, 'nan': nan,
            'kind': kind}


class Ref:
    """Colour envelope of a window of data values."""

    def __init__(self, z, rgb0, rgb1, res=None):
        self.z, self.rgb0, self.rgb1 = z, rgb0, rgb1
        span = z[-1] - z[0]
        n = 256
        if res is not None:
            n = max(256, math.ceil(span / res - 1e-6))
        self.h = span / (n - 1)

    def ends(self, v):
        """All colours reached at v (two at a boundary)."""
        z = self.z
        v = min(max(v, z[0]), z[-1])
        out = []
        for i in range(len(z) - 1):
            if z[i] - 1e-9 <= v <= z[i + 1] + 1e-9:
                f = (v - z[i]) / (z[i + 1] - z[i])
                out.append([a + (b - a) * f for a, b in
                            zip(self.rgb0[i], self.rgb1[i])])
        return out

    def window(self, v):
        lo, hi = v - self.h, v + self.h
        pts = [lo, hi, v] + [b for b in self.z if lo <= b <= hi]
        cols = [c for p in pts for c in self.ends(p)]
        return ([min(c[k] for c in cols) for k in range(3)],
                [max(c[k] for c in cols) for k in range(3)])


def judge(t, ref, v, got, what, slack=0.02):
    lo, hi = ref.window(v)
    for k in range(3):
        t.require(lo[k] - slack <= got[k] <= hi[k] + slack,
                  '%s of %r: channel %d is %r, expected %r to %r', what, v,
                  k, got[k], lo[k], hi[k])


def values(z):
    lo, hi = float(z[0]), float(z[-1])
    w = hi - lo
    # fractions of the range, a little beyond it, and the boundaries
    return [lo + w * f for f in (-0.3, 0.0, 0.001, 0.13, 0.37, 0.5, 0.77,
                                 0.999, 1.0, 1.2)] + \
        [float(x) for x in z] + \
        [(a + b) / 2 for a, b in zip(z[:-1], z[1:])]


def nan_rgba(nan):
    if nan is None:
        return (0, 0, 0, 0)
    return (nan,) * 4 if isinstance(nan, int) else nan


def look(t, pal, ref, vals, nan, transform=None):
    f = transform or (lambda v: v)
    for v in vals:
        x = f(v)
        c = pal.getDataColor(x)
        t.require(len(c) == 4 and all(0 <= k <= 1 for k in c) and c[3] == 1,
                  'colour %r of %r is not opaque RGBA in 0..1', c, x)
        judge(t, ref, v, [k * 255 for k in c], 'colour')
        c255 = pal.getDataColor(x, color_format='255')
        t.require(len(c255) == 4 and all(isinstance(k, int) for k in c255) and
                  all(abs(a - b * 255) < 1 for a, b in zip(c255, c)),
                  "'255' colour %r of %r differs from %r", c255, x, c)
        hx = pal.getDataColor(x, color_format='hex')
        t.require(len(hx) == 7 and hx[0] == '#' and hx == hx.upper() and
                  all(abs(int(hx[1 + 2 * k:3 + 2 * k], 16) - c[k] * 255) < 1
                      for k in range(3)), 'hex colour %r of %r is not %r', hx,
                  x, c)
    arr = np.array([f(v) for v in vals])
    nx = 2 if len(arr) % 2 == 0 else 1
    arr2 = arr.reshape(nx, -1)
    rgba = pal.getDataColor(arr2, color_format='array')
    t.require(rgba.shape == arr2.shape + (4,) and rgba.dtype == np.uint8,
              'array colours have shape %r, type %r', rgba.shape, rgba.dtype)
    one = np.array([pal.getDataColor(x) for x in arr]) * 255
    t.require(np.all(np.abs(rgba.reshape(-1, 4).astype(float) - one) < 1),
              'array colours differ from single colours')
    bad = pal.getDataColor(float('nan'))
    want = nan_rgba(nan)
    t.require(all(abs(b * 255 - w) < 0.01 for b, w in zip(bad, want)),
              'the colour of NaN is %r, expected %r', bad, want)
    both = pal.getDataColor(np.array([arr[0], np.nan]), color_format='array')
    t.require(all(abs(int(b) - w) <= 1 for b, w in zip(both[1], want)) and
              np.array_equal(both[0], rgba.reshape(-1, 4)[0]),
              'NaN in an array: %r, expected %r', both.tolist(), want)
    # missing data may also be masked
    ma = np.ma.array(arr, mask=[k % 3 == 1 for k in range(len(arr))])
    got = pal.getDataColor(ma, color_format='array')
    for k in range(len(arr)):
        if k % 3 == 1:
            t.require(all(abs(int(b) - w) <= 1 for b, w in zip(got[k], want)),
                      'masked value: %r, expected %r', got[k].tolist(), want)
        else:
            t.require(np.array_equal(got[k], rgba.reshape(-1, 4)[k]),
                      'a value beside a masked one: %r, alone %r',
                      got[k].tolist(), rgba.reshape(-1, 4)[k].tolist())
    t.require(np.array_equal(ma.data, arr) and ma.mask.sum() ==
              (len(arr) + 1) // 3, 'the masked array was modified')
    # far beyond the limits the end colours remain
    for x, k in ((float('inf'), -1), (1e30, -1)) + (
            () if transform else ((float('-inf'), 0), (-1e30, 0))):
        want = (ref.rgb1[-1] if k else ref.rgb0[0])
        lo = ref.window(ref.z[k])
        c = pal.getDataColor(x)
        t.require(c[3] == 1 and all(
            lo[0][j] - 0.02 <= c[j] * 255 <= lo[1][j] + 0.02
            for j in range(3)), 'colour of %r is %r, expected about %r', x, c,
            want)
        both = pal.getDataColor(np.array([x, arr[0], x]),
                                color_format='array')
        t.require(all(abs(int(a) - b * 255) < 1 for r in (both[0], both[2])
                      for a, b in zip(r, c)), 'colour of %r in an array: %r',
                  x, both.tolist())
    t.raises(AttributeError, pal.getDataColor, arr[0], color_format='rgb')


@sub('C19', 'interpolation', palettes(), quick=250, thorough=3000,
     rule='colour of ~20 values of a generated palette (from lists, tuples, arrays or series) lies in the envelope of the linear interpolation within one colour step; non-trivial = 2 or more ranges')
def interpolation(case, t):
    from impactutils.colors.cpalette import ColorPalette
    z = case['z']
    t.label('ranges %d' % (len(z) - 1) if len(z) > 2 else '-one range')
    z0, z1 = list(z[:-1]), list(z[1:])
    rgb0, rgb1 = list(case['rgb0']), list(case['rgb1'])
    form = {'list': list, 'tuple': tuple, 'array': np.array,
            'series': pd.Series}[case.get('kind', 'list')]
    z0, z1 = form(z0), form(z1)
    if case.get('kind') == 'array':
        rgb0, rgb1 = np.array(rgb0), np.array(rgb1)
    plain = [list(z[:-1]), list(z[1:]), [list(x) for x in case['rgb0']],
             [list(x) for x in case['rgb1']]]
    kw = {} if case['nan'] is None else {'nan_color': case['nan']}
    pal = ColorPalette('x', z0, z1, rgb0, rgb1, resolution=case['res'], **kw)
    t.require([list(z0), list(z1), [list(x) for x in rgb0],
               [list(x) for x in rgb1]] == plain,
              'construction changed its inputs')
    rgb0, rgb1 = list(case['rgb0']), list(case['rgb1'])
    t.require(pal.vmin == z[0] and pal.vmax == z[-1],
              'vmin, vmax are %r, %r, expected %r, %r', pal.vmin, pal.vmax,
              z[0], z[-1])
    ref = Ref(z, rgb0, rgb1, case['res'])
    look(t, pal, ref, values(z), case['nan'])
    # changing the limits stretches the same colours over the new range
    a, b = z[0] - 7.0, z[-1] + 13.0
    pal.vmin, pal.vmax = a, b
    # to a range apart from the old one, whichever limit is set first
    c, d = [(a, b), (b + 5.0, b + 6.5), (a - 90.0, a - 2.0)][len(z) % 3]
    if case['res'] is None or len(z) % 2:
        pal.vmax = d
        pal.vmin = c
    else:
        pal.vmin = c
        pal.vmax = d
    a, b = c, d
    t.require((pal.vmin, pal.vmax) == (a, b), 'limits set to %r, %r are %r, '
              '%r', a, b, pal.vmin, pal.vmax)
    for f in (0.0, 0.21, 0.5, 0.93, 1.0):
        c = pal.getDataColor(a + (b - a) * f)
        judge(t, ref, z[0] + (z[-1] - z[0]) * f, [k * 255 for k in c],
              'colour with new limits')


@sub('C19', 'fine_resolution', st.tuples(palettes(), fl(7e4, 2.5e5),
                                         st.lists(fl(0, 1), min_size=3,
                                                  max_size=8)),
     quick=25, thorough=300,
     rule='a resolution of 1/70000 to 1/250000 of the range of values: each value has the interpolated colour to within one such step; non-trivial = two or more ranges')
def fine_resolution(case, t):
    from impactutils.colors.cpalette import ColorPalette
    p, k, fr = case
    z = list(p['z'])
    t.label('ranges' if len(z) > 2 else '-one range')
    span = z[-1] - z[0]
    res = span / k
    rgb0, rgb1 = list(p['rgb0']), list(p['rgb1'])
    pal = ColorPalette('x', z[:-1], z[1:], rgb0, rgb1, resolution=res)
    ref = Ref(z, rgb0, rgb1, res)
    vals = [z[0] + f * span for f in fr]
    for b in z:
        vals += [b - 2.5 * res, b + 2.5 * res, b - 4 * res, b + 4 * res]
    vals = [v for v in vals if z[0] <= v <= z[-1]]
    for v in vals:
        judge(t, ref, v, [x * 255 for x in pal.getDataColor(v)], 'colour')


@sub('C19', 'log_scale', st.tuples(palettes(), st.lists(fl(0.01, 0.99),
     min_size=1, max_size=6)), quick=150, thorough=1500,
     rule='is_log palettes colour x like the linear palette colours ln(x); non-trivial = 2 or more ranges')
def log_scale(case, t):
    from impactutils.colors.cpalette import ColorPalette
    p, fr = case
    scale = 10.0 / max(abs(p['z'][0]), abs(p['z'][-1]))
    z = [v * scale for v in p['z']]
    t.label('ranges' if len(z) > 2 else '-one range')
    kw = {} if p['nan'] is None else {'nan_color': p['nan']}
    pal = ColorPalette('x', z[:-1], z[1:], list(p['rgb0']), list(p['rgb1']),
                       is_log=True, **kw)
    ref = Ref(z, p['rgb0'], p['rgb1'])
    look(t, pal, ref, [z[0] + (z[-1] - z[0]) * f for f in fr] + list(z),
         p['nan'], transform=math.exp)


@sub('C19', 'lengths', st.tuples(palettes(), st.integers(0, 3),
                                 st.booleans()), quick=150, thorough=1000,
     rule='one of the four sequences is one shorter or longer: ConsistentLengthError; all non-trivial')
def lengths(case, t):
    from impactutils.colors.cpalette import ColorPalette
    from impactutils.exceptions import ConsistentLengthError
    p, k, longer = case
    seqs = [list(p['z'][:-1]), list(p['z'][1:]), list(p['rgb0']),
            list(p['rgb1'])]
    if not longer and len(seqs[k]) == 1:
        longer = True
    t.label('seq %d %s' % (k, 'longer' if longer else 'shorter'))
    if longer:
        seqs[k].append(seqs[k][-1])
    else:
        seqs[k].pop()
    t.raises(ConsistentLengthError, ColorPalette, 'x', *seqs)


@sub('C19', 'files', st.tuples(palettes(), st.booleans(), st.booleans(),
                               st.text('abcXYZ_ 09', min_size=1,
                                       max_size=8)),
     quick=150, thorough=1000,
     rule='palette written in the documented file format and read back; non-trivial = 2 or more ranges')
def files(case, t):
    from impactutils.colors.cpalette import ColorPalette
    p, comments, blank, name = case
    name = name.strip() or 'n'
    z = p['z']
    t.label('ranges' if len(z) > 2 else '-one range')
    nan = p['nan'] if isinstance(p['nan'], tuple) else None
    out = []
    if comments:
        out.append('#A palette for tests.')
    if nan is not None:
        out.append('#$nan_color: %d,%d,%d,%d' % nan)
    out.append('#$name: %s' % name)
    if p['res'] is not None:
        out.append('#$resolution: %r' % p['res'])
    if comments:
        out.append('#Lines beginning with pound signs are comments.')
    out.append('Z0 R0  G0  B0  Z1  R1  G1  B1')
    for i in range(len(z) - 1):
        if blank and i == 1:
            out.append('')
        row = '%r %d %d %d  %r %d %d %d' % (
            (z[i],) + p['rgb0'][i] + (z[i + 1],) + p['rgb1'][i])
        # columns may be tabbed, indented or followed by a comment
        k = (i + len(name)) % 5 if comments else 0
        out.append([row, row.replace(' ', '\t'), '  ' + row, row + '  ',
                    row + ' # note'][k])
    with scratch() as d:
        fn = os.path.join(d, 'p.cpt')
        with open(fn, 'w') as f:
            f.write('\n'.join(out) + '\n')
        pal = ColorPalette.fromFile(fn)
    t.require(pal.vmin == z[0] and pal.vmax == z[-1], 'limits %r %r of %r',
              pal.vmin, pal.vmax, z)
    t.require(pal.cmap.name == name, 'name %r of %r', pal.cmap.name, name)
    look(t, pal, Ref(z, p['rgb0'], p['rgb1'], p['res']), values(z), nan)


CMAPS = ['viridis', 'jet', 'coolwarm', 'gray', 'hot', 'terrain', 'RdBu']


@sub('C19', 'from_colormap', st.tuples(palettes(), st.sampled_from(CMAPS),
                                       st.booleans()),
     quick=120, thorough=1000,
     rule='palette sampled from a Matplotlib colormap has its colours at the range limits, interpolated between; non-trivial = 2 or more ranges')
def from_colormap(case, t):
    import matplotlib
    from impactutils.colors.cpalette import ColorPalette
    from impactutils.exceptions import ConsistentLengthError
    p, name, log = case
    z = [float(v) for v in p['z']]
    if log:
        s = 10.0 / max(abs(z[0]), abs(z[-1]))
        z = [v * s for v in z]
    t.label(name if len(z) > 2 else '-one range')
    cmap = matplotlib.colormaps[name]
    kw = {} if p['nan'] is None else {'nan_color': p['nan']}
    res = None if log else p['res']
    pal = ColorPalette.fromColorMap('n', z[:-1], z[1:], cmap, resolution=res,
                                    is_log=log, **kw)
    at = [[255 * c for c in cmap((v - z[0]) / (z[-1] - z[0]))[:3]] for v in z]
    ref = Ref(z, at[:-1], at[1:], res)
    vals = values(z)
    for v in vals:
        x = math.exp(v) if log else v
        judge(t, ref, v, [k * 255 for k in pal.getDataColor(x)],
              'colour from ' + name, slack=0.53)
    bad = pal.getDataColor(float('nan'))
    t.require(all(abs(b * 255 - w) < 0.01 for b, w in
                  zip(bad, nan_rgba(p['nan']))),
              'the colour of NaN is %r, expected %r', bad, p['nan'])
    t.raises(ConsistentLengthError, ColorPalette.fromColorMap, 'n', z[:-1],
             z[1:] + [z[-1] + 1], cmap)


# published presets: limits and colours at the limits
PRESETS = {
    'mmi': ([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10],
            [(255, 255, 255), (255, 255, 255), (191, 204, 255),
             (160, 230, 255), (128, 255, 255), (122, 255, 147), (255, 255, 0),
             (255, 200, 0), (255, 145, 0), (255, 0, 0), (200, 0, 0)], 0.1),
    'shaketopo': ([-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100,
                   9200],
                  [(195, 255, 193), (110, 135, 80), (120, 160, 90),
                   (230, 220, 110), (210, 170, 80), (195, 140, 100),
                   (100, 80, 70), (60, 60, 60), (255, 255, 255),
                   (255, 255, 255), (255, 128, 0), (255, 0, 0)], 1.0),
}
POP = ([0, 4, 49, 99, 499, 999, 4999, 9999, 50000],
       [255, 191, 159, 127, 95, 63, 31, 0])


@sub('C19', 'presets', st.tuples(st.sampled_from(['mmi', 'shaketopo', 'pop']),
                                 st.lists(fl(-0.1, 1.1), min_size=1,
                                          max_size=10)),
     quick=150, thorough=2000,
     rule='preset palettes give the published colours, also after many constructions; all non-trivial')
def presets(case, t):
    from impactutils.colors.cpalette import ColorPalette
    from impactutils.exceptions import UnsupportedArgumentError
    name, fr = case
    t.label(name)
    t.require(sorted(ColorPalette.getPresets()) == ['mmi', 'pop',
                                                    'shaketopo'],
              'presets are %r', ColorPalette.getPresets())
    t.raises(UnsupportedArgumentError, ColorPalette.fromPreset, 'nope')
    pal = ColorPalette.fromPreset(name)
    if name == 'pop':
        z = POP[0]
        rgb0 = rgb1 = [(c, c, c) for c in POP[1]]
        ref = Ref(z, rgb0, rgb1, 1.0)
    else:
        z, cols, res = PRESETS[name]
        ref = Ref(z, cols[:-1], cols[1:], res)
    look(t, pal, ref, [z[0] + (z[-1] - z[0]) * f for f in fr] + list(z),
         (128, 128, 128, 0) if name == 'shaketopo' else None)
