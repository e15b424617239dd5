"""C08: rupture text files."""
import io
import os

import numpy as np
from hypothesis import strategies as st

from vp import rupgen as R
from vp.core import sub, Violation
from vp.gen import fl, dec
from vp.util import scratch

REF = st.text(alphabet='abcdefgh XYZ.,()0123456789-#éüß中', max_size=25).map(
    lambda s: s.strip().lstrip('#').strip())
# ways to write a number of at most 4 decimals
NUM = [lambda v: '%.4f' % v, lambda v: '%.4f' % v, lambda v: '%.7f' % v,
       lambda v: '%.12e' % v, lambda v: repr(v), lambda v: '%+.4f' % v,
       lambda v: '%d' % v if v == int(v) else '%.4f' % v,
       lambda v: ('%.4f' % v).replace('0.', '.', 1)
       if abs(v) < 1 else '%.5E' % v if float('%.5E' % v) == v else repr(v)]
CODES = ['utf-8', 'utf-8', 'utf-8-sig', 'latin-1']


@st.composite
def polys(draw, horizontal):
    """1-3 closed polygons of 2-4 top/bottom pairs; 4-decimal numbers."""
    out = []
    lon0 = draw(dec(91, 179, 4)) * draw(st.sampled_from([1, -1]))
    lat0 = draw(dec(-60, 60, 4))
    for g in range(draw(st.integers(1, 3))):
        n = draw(st.integers(2, 4))
        zt = draw(dec(0, 10, 3))
        zb = draw(dec(10.5, 30, 3))
        top, bot = [], []
        lo, la = lon0 + g * 0.01, lat0 + 0.3 * g
        dlon, dlat = draw(dec(-0.4, 0.4, 3)), draw(dec(-0.4, 0.4, 3))
        for i in range(n):
            z1 = zt if horizontal else zt + draw(dec(0, 0.4, 3))
            z2 = zb if horizontal else zb + draw(dec(0, 5, 3))
            top.append([round(lo, 4), round(la, 4), round(z1, 4)])
            bot.append([round(lo + dlon, 4), round(la + dlat, 4),
                        round(z2, 4)])
            lo += draw(dec(0.05, 0.3, 3))
            la += draw(dec(-0.2, 0.2, 3))
        out.append(top + bot[::-1] + [top[0]])
    return out


def clean(ps):
    for p in ps:
        if len({(a, b) for a, b, _ in p[:len(p) // 2]}) != len(p) // 2:
            return False
        for a, b, c in p:
            if not (90 < abs(a) <= 180 and abs(b) <= 90):
                return False
    return True


@st.composite
def file_case(draw):
    hor = draw(st.booleans())
    ps = draw(polys(hor).filter(clean))
    rot = [draw(st.integers(0, len(p) - 2)) if hor else 0 for p in ps]
    return dict(polys=ps, rot=rot, new=draw(st.booleans()),
                sep=draw(st.sampled_from([' ', '\t', ',', ', ', '  ', ' ,'])),
                lead=draw(st.sampled_from(['', '  '])),
                ref=draw(st.lists(REF, max_size=2)),
                blank=draw(st.booleans()),
                noise=draw(st.lists(st.tuples(st.integers(0, 25), st.one_of(
                    st.just(''), st.just('   '),
                    REF.map(lambda r: '#' + r))), max_size=3)),
                final=draw(st.booleans()), first=draw(st.booleans()),
                mark=draw(st.sampled_from(['>', '>', '> ', ' >', '>>',
                                           '> segment 2', '> -Z0.5'])),
                eol=draw(st.booleans()), path=draw(st.booleans()),
                nums=draw(st.lists(st.integers(0, len(NUM) - 1), min_size=1,
                                   max_size=4)),
                code=draw(st.sampled_from(CODES)),
                end=draw(st.sampled_from(['\n', '\n', '\r\n', '\r'])))


def render(case):
    lines = ['#' + r for r in case['ref']]
    if case['first']:
        lines.append(case.get('mark', '>'))
    for i, p in enumerate(case['polys']):
        q = p[:-1]
        k = case['rot'][i]
        q = q[k:] + q[:k]
        q = q + [q[0]]
        for a, b, c in q:
            xy = (a, b) if case['new'] else (b, a)
            lines.append(case['lead'] + case['sep'].join(
                NUM[case['nums'][k % len(case['nums'])]](v)
                for k, v in enumerate(xy + (c,))))
        if i < len(case['polys']) - 1 or case['final']:
            lines.append(case.get('mark', '>'))
        if case['blank']:
            lines.append('')
    for i, x in case['noise']:
        lines.insert(min(i, len(lines)), x)
    return '\n'.join(lines) + ('\n' if case['eol'] else '')


def reference(txt):
    """comment lines, joined in order"""
    return ''.join(x.lstrip('#') for x in txt.split('\n') if x[:1] == '#')


def put(f, txt, case):
    code, data = case['code'], None
    try:
        data = txt.encode(code)
    except UnicodeEncodeError:
        data = txt.encode('utf-8')
    if code == 'latin-1':
        try:
            # taken for the other coding, with reason
            if data.decode('utf-8') != txt:
                data = txt.encode('utf-8')
        except UnicodeDecodeError:
            pass
    with open(f, 'wb') as fh:
        fh.write(data.replace(b'\n', case['end'].encode()))


@sub('C08', 'parse', file_case(), quick=400, thorough=10000,
     rule='1-3 polygons of 2-4 vertex pairs, both column orders, 6 separators, numbers in several notations, texts in UTF-8 (with and without mark) and Latin-1, three line ends, comments, blank lines, plain and labelled separators, start vertex rotated (horizontal edges); non-trivial = more than one polygon or rotated or comma separated')
def parse(case, t):
    from impactutils.rupture.factory import get_rupture, text_to_json
    txt = render(case)
    if len(case['polys']) > 1 or any(case['rot']) or ',' in case['sep']:
        t.label('nontrivial')
    t.label('-new' if case['new'] else '-old')
    o = R.make_origin()
    with scratch() as tmp:
        f = os.path.join(tmp, 'rupt.txt')
        put(f, txt, case)
        src = (lambda: f) if case['path'] else (lambda: io.StringIO(txt))
        d = text_to_json(src(), new_format=case['new'])
        rupt = get_rupture(o, src(), new_format=case['new'], mesh_dx=2.0)
        # a caller's file-like object is read, not closed
        if not case['path']:
            s = io.StringIO(txt)
            text_to_json(s, new_format=case['new'])
            t.require(not s.closed, 'caller file was closed')
    got = d['features'][0]['geometry']['coordinates'][0]
    t.require([[list(map(float, x)) for x in p] for p in got] ==
              [[list(map(float, x)) for x in p] for p in case['polys']],
              'polygons read as %r', got)
    t.require(d['metadata']['reference'] == reference(txt),
              'reference %r', d['metadata']['reference'])
    t.require(rupt.getReference() == reference(txt), 'reference')
    nq = sum((len(p) - 1) // 2 - 1 for p in case['polys'])
    t.require(len(rupt.getQuadrilaterals()) == nq, 'number of quads')
    allz = [x[2] for p in case['polys'] for x in p]
    t.close(rupt.getDepthToTop(), min(allz), abs_=1e-4, msg='depth to top')


@st.composite
def bad_case(draw):
    c = draw(file_case())
    c['kind'] = draw(st.sampled_from(
        ['unclosed', 'even', 'flat', 'columns2', 'columns4', 'word',
         'semicolon', 'swapped', 'topbottom', 'joined']))
    c['which'] = draw(st.integers(0, 2))
    c['at'] = draw(st.integers(0, 3))
    return c


@sub('C08', 'refuse', bad_case(), quick=400, thorough=10000,
     rule='the same files with one defect: unclosed polygon, even point count, flat polygon, wrong column count, non-number, wrong delimiter, swapped lat/lon, a blank line or comment where a separator should be; non-trivial = all')
def refuse(case, t):
    from impactutils.rupture.factory import get_rupture
    c = dict(case, rot=[0] * len(case['polys']))
    k = c['kind']
    i = c['which'] % len(c['polys'])
    lines = render(c).split('\n')
    # line numbers of the vertices of polygon i
    vert, cur, seen = [], 0, 0
    for n, ln in enumerate(lines):
        s = ln.strip()
        if s.startswith('>') and seen:
            cur += 1
            seen = 0
        elif s and s[0] not in '#>':
            seen += 1
            if cur == i:
                vert.append(n)
    new = c['new']
    j = vert[c['at'] % len(vert)]
    if k == 'unclosed':
        a, b, z = c['polys'][i][-1]
        a = a - 0.0125 if a > 0 else a + 0.0125
        xy = (a, b) if new else (b, a)
        lines[vert[-1]] = ' '.join('%.4f' % v for v in xy + (z,))
    elif k == 'even':
        lines[vert[0]] = lines[vert[0]] + '\n' + lines[vert[0]]
    elif k in ('flat', 'topbottom'):
        for q, n in enumerate(vert):
            a, b, z = c['polys'][i][q]
            if k == 'flat':
                z = 7.0
            else:
                # one top/bottom pair upside down
                m = (len(vert) - 1) // 2
                z = {0: 20.0, 2 * m - 1: 1.0}.get(q % (2 * m),
                                                  1.0 if q < m else 20.0)
                if m == 2:
                    # diagonal: no start vertex makes the tops come first
                    z = [1.0, 20.0, 1.0, 20.0, 1.0][q]
            xy = (a, b) if new else (b, a)
            lines[n] = ' '.join('%.4f' % v for v in xy + (z,))
        if k == 'topbottom':
            # for more than two pairs rotations may still be valid
            m = (len(vert) - 1) // 2
            zs = [float(lines[n].split()[2]) for n in vert][:-1]
            for r in range(len(zs)):
                w = zs[r:] + zs[:r]
                if all(w[x] < w[-1 - x] for x in range(m)):
                    t.label('-rotatable')
                    return
    elif k == 'columns2':
        lines[j] = ' '.join(lines[j].replace(',', ' ').split()[:2])
    elif k == 'columns4':
        lines[j] = ' '.join(lines[j].replace(',', ' ').split() + ['1.0'])
    elif k == 'word':
        lines[j] = ' '.join(lines[j].replace(',', ' ').split()[:2] + ['x'])
    elif k == 'semicolon':
        lines[j] = ';'.join(lines[j].replace(',', ' ').split())
    elif k == 'swapped':
        new = not new
    elif k == 'joined':
        seps = [n for n, ln in enumerate(lines) if ln.strip().startswith('>')
                and any(x.strip() and x.strip()[0] not in '#>'
                        for x in lines[:n])
                and any(x.strip() and x.strip()[0] not in '#>'
                        for x in lines[n:])]
        if not seps:
            t.label('-one-polygon')
            return
        for n in seps:
            lines[n] = ['', '# part', '  ', '#'][c['at'] % 4]
    t.label(k)
    txt = '\n'.join(lines)
    with scratch() as tmp:
        f = os.path.join(tmp, 'rupt.txt')
        put(f, txt, case)
        try:
            r = get_rupture(R.make_origin(),
                            f if c['path'] else io.StringIO(txt),
                            new_format=new, mesh_dx=2.0)
        except (ValueError, IOError):
            return
    raise Violation('%s: defective file accepted as %r' % (k, type(r)))


@st.composite
def write_case(draw):
    return dict(spec=draw(R.spec(max_groups=3, max_seg=3, small=True, bend=25,
                                 skew=10, dips=fl(20, 85))),
                ref='\n'.join(draw(st.lists(REF, min_size=1, max_size=3))),
                like=draw(st.booleans()))


@sub('C08', 'write_read', write_case(), quick=150, thorough=3000,
     rule='QuadRuptures of 1-3 groups written as text and read back (old format); non-trivial = all')
def write_read(case, t):
    from impactutils.rupture.quad_rupture import QuadRupture
    from impactutils.rupture.factory import text_to_json
    polys = R.polygons(case['spec'])
    r = QuadRupture(R.geojson(polys, case['ref']), R.make_origin())
    t.label('w')
    if case['like']:
        f = io.StringIO()
        r.writeTextFile(f)
        f.seek(0)
        d = text_to_json(f, new_format=False)
    else:
        with scratch() as tmp:
            f = os.path.join(tmp, 'x.txt')
            r.writeTextFile(f)
            d = text_to_json(f, new_format=False)
    got = d['features'][0]['geometry']['coordinates'][0]
    qs = r.getQuadrilaterals()
    t.require(len(got) == len(qs), '%d polygons for %d quads', len(got),
              len(qs))
    # (lines of a reference are joined)
    t.require(d['metadata']['reference'] == case['ref'].replace('\n', ''),
              'reference %r', d['metadata']['reference'])
    for p, q in zip(got, qs):
        t.require(len(p) == 5, 'polygon of %d points', len(p))
        for a, b in zip(p, q):
            t.close(a[0], b.longitude, abs_=6e-5, msg='lon')
            t.close(a[1], b.latitude, abs_=6e-5, msg='lat')
            t.close(a[2], b.depth, abs_=6e-5, msg='depth')
