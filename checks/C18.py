"""C18: numbers for people: rounding, abbreviation, separators, roman."""
import math
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

from vp.core import sub
from vp.gen import fl, dec

ROMAN = [('M', 1000), ('D', 500), ('C', 100), ('L', 50), ('X', 10), ('V', 5),
         ('I', 1)]


def cents(x):
    return round(x, 4)


BIG = st.one_of(st.integers(0, 999), st.integers(0, 10 ** 6),
                st.integers(0, 10 ** 13), fl(0, 1e13).map(cents),
                fl(0, 2e3).map(cents),
                st.sampled_from([0, 999, 999.5, 999.99, 1000, 1e3, 999999,
                                 10 ** 6, 1e6, 999999999, 10 ** 9, 1e9, 1500,
                                 2500, 10 ** 12]))


def group(digits, sep):
    out = []
    while len(digits) > 3:
        out.insert(0, digits[-3:])
        digits = digits[:-3]
    return sep.join([digits] + out)


@sub('C18', 'roman', st.integers(-10, 4100), quick=1500, thorough=5000,
     rule='every integer -10..4100: canonical numeral of that value, else ValueError; non-trivial = convertible')
def roman(n, t):
    from impactutils.textformat.text import dec_to_roman
    if not 0 < n < 4000:
        t.label('-refused')
        t.raises(ValueError, dec_to_roman, n)
        return
    t.label('ok')
    # independent construction, digit by digit
    pat = ['', 'a', 'aa', 'aaa', 'ab', 'b', 'ba', 'baa', 'baaa', 'ac']
    want = ''
    for i, d in zip(range(len(str(n)) - 1, -1, -1), str(n)):
        a, b, c = [('I', 'V', 'X'), ('X', 'L', 'C'), ('C', 'D', 'M'),
                   ('M', '?', '?')][i]
        want += pat[int(d)].replace('a', a).replace('b', b).replace('c', c)
    t.require(dec_to_roman(n) == want, '%d is %r, expected %r', n,
              dec_to_roman(n), want)


@sub('C18', 'commify', st.tuples(
    st.one_of(st.integers(-10 ** 15, 10 ** 15), st.integers(-10 ** 4, 10 ** 4),
              st.sampled_from([0, 999, 1000, -999, -1000, 999999, 10 ** 6])),
    st.one_of(st.none(), st.text('0123456789', min_size=1, max_size=7)),
    st.sampled_from([',', ' ', "'", '.', '_', ', ']), st.booleans()),
    quick=2000, thorough=20000,
    rule='integers and decimals (numbers or strings) with 6 separators; non-trivial = at least four digits')
def commas(case, t):
    from impactutils.textformat.text import commify
    n, frac, sep, as_str = case
    s = str(n)
    sign, dig = ('-', s[1:]) if n < 0 else ('', s)
    x = s + ('.' + frac if frac else '')
    if len(dig) > 3:
        t.label('grouped')
    want = sign + group(dig, sep) + ('.' + frac if frac else '')
    if not frac and not as_str:
        x = n
    t.require(commify(x, separator=sep) == want, '%r gives %r, expected %r',
              x, commify(x, separator=sep), want)
    if sep == ',':
        t.require(commify(x) == want, 'default separator')


STEP = st.sampled_from(['0.1', '0.01', '0.001', '0.05', '0.25', '0.5', '0.2',
                        '0.29', '0.57', '0.07', '1e-05', '0.0001', '1e-06',
                        '1.5e-05'])


@sub('C18', 'to_nearest_step', st.tuples(
    st.one_of(st.tuples(st.integers(-10 ** 7, 10 ** 7), st.integers(0, 4)),
              st.tuples(st.integers(-2000, 2000), st.just('k'))),
    st.one_of(STEP, st.sampled_from(['1', '2', '5', '10', '25', '100', '1000',
                                     '5000', '3']))),
    quick=3000, thorough=50000,
    rule='decimal values (also exact multiples) and steps 1e-6..5000: result is a multiple, on the right side, less than a step away; non-trivial = all')
def nearest(case, t):
    from impactutils.textformat import text as T
    v, step = case
    S = Fraction(step)
    if v[1] == 'k':
        V = v[0] * S
        t.label('multiple')
    else:
        V = Fraction(v[0], 10 ** v[1])
        t.label('decimal')
    x = float(V)
    if x == int(x) and v[0] % 2:
        x = int(x)
    s = int(step) if '.' not in step and 'e' not in step else float(step)
    d = S / 10 ** 9
    for name in ('round', 'floor', 'ceil'):
        f = getattr(T, name + '_to_nearest')
        r = f(x, **{name + '_value': s})
        R = Fraction(str(r))
        q = R / S
        t.require(abs(q - round(q)) < Fraction(1, 10 ** 4),
                  '%s(%r, %r) = %r is no multiple', name, x, s, r)
        diff = R - V
        if name == 'round':
            ok = abs(diff) <= S / 2 + d
        elif name == 'floor':
            ok = -S + d < diff <= d
        else:
            ok = -d <= diff < S - d
        t.require(ok, '%s(%r, %r) = %r', name, x, s, r)
        if '.' not in step and 'e' not in step:
            t.require(isinstance(r, int), 'not an integer: %r', r)
        else:
            t.require(r == float(round(q) * S), '%s(%r, %r) = %r', name, x,
                      s, r)
    if V >= 0:
        t.require(T.round_to_nearest(x) == T.round_to_nearest(x, 1000) and
                  T.floor_to_nearest(x) == T.floor_to_nearest(x, 1000) and
                  T.ceil_to_nearest(x) == T.ceil_to_nearest(x, 1000),
                  'default step')


def num(s):
    return Fraction(Decimal(s.replace(',', '')))


@sub('C18', 'population', st.tuples(BIG, st.booleans()), quick=2000,
     thorough=30000,
     rule='population values 0..1e13: rounded to the nearest 1000, abbreviated with k or m; non-trivial = at least 1000')
def population(case, t):
    from impactutils.textformat.text import pop_round, pop_round_short
    v, m = case
    V = Fraction(v)
    t.label('abbreviated' if v >= 1000 else '-small')
    r = pop_round(v)
    n = num(r)
    t.require(n % 1000 == 0 and abs(n - V) <= 500, 'pop_round(%r) = %r', v, r)
    t.require(r == group(str(int(n)), ','), 'grouping of %r', r)
    s = pop_round_short(v, usemillion=m)
    if v < 1000:
        t.require(s == str(int(v)), 'pop_round_short(%r) = %r', v, s)
        return
    if m and v >= 10 ** 6:
        t.require(s[-1] == 'm', 'suffix of %r', s)
        t.require(abs(num(s[:-1]) * 10 ** 6 - V) <= 500000,
                  'pop_round_short(%r) = %r', v, s)
    else:
        t.require(s[-1] == 'k', 'suffix of %r', s)
        t.require(abs(num(s[:-1]) * 1000 - V) <= 500,
                  'pop_round_short(%r) = %r', v, s)
    t.require(s[:-1] == group(str(int(num(s[:-1]))), ','), 'grouping %r', s)
    if not m:
        t.require(s == pop_round_short(v), 'default differs')


@sub('C18', 'dollars_and_precision',
     st.tuples(BIG, st.integers(1, 6), st.sampled_from(['short', 'long'])),
     quick=3000, thorough=40000,
     rule='dollar values 0..1e13, 1-6 significant digits, short and long names; significant-digit rounding; non-trivial = at least 1000')
def dollars(case, t):
    from impactutils.textformat.text import dollar_round, set_num_precision
    v, digits, mode = case
    V = Fraction(v)
    t.label('abbreviated' if v >= 1000 else '-small')

    def signif(F):
        """the allowed results of rounding F to `digits` digits"""
        if F == 0:
            return {Fraction(0)}
        e = math.floor(math.log10(F))
        while Fraction(10) ** e > F:
            e -= 1
        while Fraction(10) ** (e + 1) <= F:
            e += 1
        u = Fraction(10) ** (e - digits + 1)
        k = F / u
        lo, hi = math.floor(k), math.ceil(k)
        if abs(k - lo - Fraction(1, 2)) < Fraction(1, 10 ** 6):
            return {lo * u, hi * u}
        return {round(k) * u}

    p = set_num_precision(v, digits, mode='float')
    t.require(any(abs(Fraction(p) - w) <= abs(w) * Fraction(1, 10 ** 12)
                  for w in signif(V)), 'set_num_precision(%r, %d) = %r', v,
              digits, p)
    t.require(set_num_precision(v, digits) == int(p) and
              isinstance(set_num_precision(v, digits), int), 'integer mode')
    s = dollar_round(v, digits=digits, mode=mode)
    t.require(s[0] == '$', 'no dollar sign: %r', s)
    if v < 1000:
        t.require(s[1:] == group(str(int(p)), ','), '%r is %r', v, s)
        return
    if mode == 'short':
        body, unit = s[1:-1], s[-1]
        names = 'KMB'
    else:
        body, _, unit = s[1:].partition(' ')
        names = ['thousand', 'million', 'billion']
    i = 0 if v < 10 ** 6 else (1 if v < 10 ** 9 else 2)
    t.require(unit == names[i], '%r is %r', v, s)
    n = num(body)
    size = 1000 ** (i + 1)
    t.require(any(abs(n - w) <= abs(w) * Fraction(1, 10 ** 12)
                  for w in signif(V / size)), '%r is %r', v, s)
    if digits == 2:
        t.require(dollar_round(v, mode=mode) == s, 'default digits')
    if mode == 'short':
        t.require(dollar_round(v, digits=digits) == s, 'default mode')
