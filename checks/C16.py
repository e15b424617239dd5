"""C16: formatting and parsing of historic times."""
from datetime import date, datetime, timedelta, timezone

from hypothesis import strategies as st

from vp.core import sub

DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December']
CODES = 'YmdHMSfjyaAbBpIUWwuGVzZ%XFCDTRrhegkl'


@st.composite
def times(draw):
    y = draw(st.one_of(st.integers(1, 1899), st.integers(1000, 9999),
                       st.sampled_from([1, 4, 99, 100, 999, 1000, 1499, 1500,
                                        1600, 1700, 1896, 1899, 1900, 1901])))
    m = draw(st.integers(1, 12))
    last = (date(y + (m == 12), m % 12 + 1, 1) - timedelta(1)).day \
        if (y, m) != (9999, 12) else 31
    d = draw(st.one_of(st.integers(1, last), st.just(last)))
    return (y, m, d, draw(st.integers(0, 23)), draw(st.integers(0, 59)),
            draw(st.integers(0, 59)),
            draw(st.one_of(st.just(0), st.integers(0, 999999))))


LIT = st.text(alphabet='abcXYZcxG 0123456789-:/T.,_é', max_size=4)
# runs of percent signs before a letter are where the replacing can go wrong
PCT = st.tuples(st.just('%'), st.sampled_from(
    ['', '', 'Y', 'Y', 'y', 'd', 'G', 'c', 'YY', 'Y-', 'F', 'C']))
FMT = st.lists(st.one_of(st.tuples(st.sampled_from(CODES), LIT), PCT,
                         st.tuples(st.sampled_from('YGyfm'), st.just(''))),
               max_size=7)
TZ = st.one_of(st.none(), st.integers(-14 * 60, 14 * 60))


def fields(v, tz):
    y, m, d, H, M, S, us = v
    dt = date(y, m, d)
    wd = dt.weekday()                   # Monday 0
    j = dt.toordinal() - date(y, 1, 1).toordinal() + 1
    sun = (wd + 1) % 7
    iy, iw, iwd = dt.isocalendar()
    z = ''
    if tz is not None:
        z = '%s%02d%02d' % ('-' if tz < 0 else '+', abs(tz) // 60,
                            abs(tz) % 60)
    return {'Y': '%04d' % y, 'm': '%02d' % m, 'd': '%02d' % d,
            'H': '%02d' % H, 'M': '%02d' % M, 'S': '%02d' % S,
            'f': '%06d' % us, 'j': '%03d' % j, 'y': '%02d' % (y % 100),
            'a': DAYS[wd][:3], 'A': DAYS[wd], 'b': MONTHS[m - 1][:3],
            'B': MONTHS[m - 1], 'p': 'AM' if H < 12 else 'PM',
            'I': '%02d' % ((H + 11) % 12 + 1),
            'U': '%02d' % ((j - 1 + 7 - sun) // 7),
            'W': '%02d' % ((j - 1 + 7 - wd) // 7),
            'w': '%d' % sun, 'u': '%d' % (wd + 1), 'G': '%04d' % iy,
            'V': '%02d' % iw, 'z': z, '%': '%',
            'X': '%02d:%02d:%02d' % (H, M, S),
            'F': '%04d-%02d-%02d' % (y, m, d), 'C': '%02d' % (y // 100),
            'D': '%02d/%02d/%02d' % (m, d, y % 100), 'h': MONTHS[m - 1][:3],
            'T': '%02d:%02d:%02d' % (H, M, S), 'R': '%02d:%02d' % (H, M),
            'r': '%02d:%02d:%02d %s' % ((H + 11) % 12 + 1, M, S,
                                        'AM' if H < 12 else 'PM'),
            'e': '%2d' % d, 'g': '%02d' % (iy % 100), 'k': '%2d' % H,
            'l': '%2d' % ((H + 11) % 12 + 1),
            'Z': '' if tz is None else str(timezone(timedelta(minutes=tz)))}


@sub('C16', 'strftime', st.tuples(times(), FMT, TZ), quick=3000,
     thorough=60000,
     rule='years 1-9999, formats of up to 7 of 35 directives of Python and of the C library with literal text and escaped percent signs, with and without UTC offset; non-trivial = year before 1900')
def fmt(case, t):
    from impactutils.time.ancient_time import HistoricTime
    v, parts, tz = case
    t.label('historic' if v[0] < 1900 else '-modern')
    tzi = None if tz is None else timezone(timedelta(minutes=tz))
    h = HistoricTime(*v, tzinfo=tzi)
    f = fields(v, tz)
    spec = ''.join('%' + c + lit for c, lit in parts)
    want = ''.join(f[c] + lit for c, lit in parts)
    got = h.strftime(spec)
    t.require(got == want, 'strftime(%r) of %r is %r, expected %r', spec, v,
              got, want)
    t.require(tuple(h.timetuple()[:6]) == v[:6] and h.microsecond == v[6],
              'the time was modified')


@sub('C16', 'refuses_locale_formats',
     st.tuples(times(), FMT, st.sampled_from(['%c', '%x', '%%%c', '%%%x']),
               FMT, LIT, st.sampled_from(['', '%%c', '%%x', '%%%%c'])),
     quick=600, thorough=6000,
     rule='formats with %c or %x anywhere (also after an escaped one) raise ValueError before 1900, never for escaped ones alone; non-trivial = year before 1900')
def locale(case, t):
    from impactutils.time.ancient_time import HistoricTime
    v, a, bad, b, lit, esc = case
    h = HistoricTime(*v)
    a = ''.join('%' + c + x for c, x in a)
    b = ''.join('%' + c + x for c, x in b)
    if v[0] < 1900:
        t.label('historic')
        t.raises(ValueError, h.strftime, a + lit + esc + lit + bad + b)
    else:
        t.label('-modern')
        h.strftime(a + lit + esc + lit + bad + b)
    h.strftime(a + esc + b)


VARIANT = st.tuples(st.sampled_from(['-', '_', '0', '^', '#', '', '']),
                    st.sampled_from(['', '', '1', '4', '5', '12']),
                    st.sampled_from(['', 'E', 'O']),
                    st.sampled_from('YCGFcxsYCGmdHMjyUWVugeI'))


@sub('C16', 'variants', st.tuples(times(), FMT, VARIANT, FMT,
                                  st.integers(0, 2)), quick=1500,
     thorough=20000,
     rule='directives with flags, field widths and modifiers of the C library, and the seconds since 1970: before 1900 each shows the right number or raises ValueError, never that of another century, and escaped ones are left alone; non-trivial = year before 1900 and a directive that depends on the century')
def variants(case, t):
    import re
    from impactutils.time.ancient_time import HistoricTime
    v, a, (flag, width, mod, c), b, esc = case
    h = HistoricTime(*v)
    f = fields(v, None)
    a, b = [(''.join('%' + x + y for x, y in k),
             ''.join(f[x] + y for x, y in k)) for k in (a, b)]
    spec = flag + width + mod + c
    h.strftime(a[0] + '%%' * (1 + esc) + spec + b[0])
    hit = c in 'YCGFcxs' and (spec not in list('YCGF'))
    t.label('historic' if v[0] < 1900 and hit else '-')
    try:
        got = h.strftime(a[0] + '[%%' + '%%' * esc + '%' + spec + ']' + b[0])
    except ValueError:
        t.require(v[0] < 1900 and hit, '%r is refused for the year %r', spec,
                  v[0])
        return
    pre = a[1] + '[%' + '%' * esc
    t.require(got.startswith(pre) and got.endswith(']' + b[1]),
              '%r around %r is %r', (a[0], b[0]), spec, got)
    got = got[len(pre):len(got) - len(b[1]) - 1]
    if v[0] >= 1900:
        return
    if c in 'Fcxs':
        y = re.search('[0-9]{4,}', got)
        t.require(spec == 'F' and y and int(y.group(0)) == v[0],
                  '%r of the year %r is %r', spec, v[0], got)
    elif mod == '' or '%' not in got:
        t.require(got.strip().isdigit() and int(got) == int(f[c]),
                  '%r of %r is %r, not %r', spec, v, got, f[c])


RT = st.sampled_from([
    '%Y-%m-%dT%H:%M:%S.%fZ', '%Y-%m-%dT%H:%M:%SZ', '%Y-%m-%d %H:%M:%S',
    '%Y%m%d', '%d %B %Y %I:%M:%S %p', '%Y-%j %H', '%a %b %d %Y', '%d/%m/%Y',
    '%%%Y %m %d', '%f %Y'])


@sub('C16', 'parse_back', st.tuples(times(), RT), quick=1500, thorough=30000,
     rule='strptime(strftime(t)) keeps every field the format holds and is again a historic time; non-trivial = year before 1900')
def parse(case, t):
    from impactutils.time.ancient_time import HistoricTime
    v, spec = case
    t.label('historic' if v[0] < 1900 else '-modern')
    h = HistoricTime(*v)
    s = h.strftime(spec)
    p = HistoricTime.strptime(s, spec)
    t.require(isinstance(p, HistoricTime), 'strptime gave %s', type(p))
    want = [v[0], v[1] if any(x in spec for x in ('%m', '%B', '%b', '%j'))
            else 1, v[2] if ('%d' in spec or '%j' in spec) else 1,
            v[3] if ('%H' in spec or '%I' in spec) else 0,
            v[4] if '%M' in spec else 0, v[5] if '%S' in spec else 0,
            v[6] if '%f' in spec else 0]
    t.require(p == datetime(*want), '%r parsed back as %r', s, p)
    t.require(p.strftime(spec) == s, 'formatting the parsed time gives %r',
              p.strftime(spec))
