"""C05: Vector algebra."""
import math

from hypothesis import strategies as st

from vp.core import sub
from vp.gen import fl

comp = st.one_of(fl(-1e7, 1e7), st.integers(-5, 5).map(float),
                 fl(-1e-3, 1e-3))
vec = st.tuples(comp, comp, comp)


def V(c):
    from impactutils.vectorutils.vector import Vector
    return Vector(*c)


def tup(v):
    return (v.x, v.y, v.z)


def near(t, got, exp, scale, msg):
    for g, e in zip(got, exp):
        t.close(g, e, abs_=1e-9 * scale + 1e-300, msg=msg)


@sub('C05', 'algebra', st.tuples(vec, vec, st.one_of(fl(-1e6, 1e6), st.integers(-9, 9))),
     quick=2000, thorough=40000,
     rule='two vectors (components to 1e7, small integers, tiny) and a scalar; non-trivial = both non-zero and not parallel')
def algebra(case, t):
    from impactutils.vectorutils.vector import Vector
    a, b, k = case
    va, vb = V(a), V(b)
    s = max(1e-12, max(map(abs, a + b)))
    near(t, tup(va + vb), [p + q for p, q in zip(a, b)], s, 'add')
    near(t, tup(va - vb), [p - q for p, q in zip(a, b)], s, 'sub')
    near(t, tup(va * k), [p * k for p in a], s * (abs(k) + 1), 'mul')
    near(t, tup(k * va), [p * k for p in a], s * (abs(k) + 1), 'rmul')
    dot = math.fsum(p * q for p, q in zip(a, b))
    t.close(va.dot(vb), dot, abs_=1e-9 * s * s, msg='dot')
    cr = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0])
    near(t, tup(va.cross(vb)), cr, s * s, 'cross')
    mag = math.hypot(*a)
    t.close(va.mag(), mag, rel=1e-9, abs_=1e-160, msg='mag')
    d = math.hypot(*[p - q for p, q in zip(a, b)])
    t.close(va.distance(vb), d, rel=1e-9, abs_=1e-160, msg='distance')
    t.close(vb.distance(va), d, rel=1e-9, abs_=1e-160, msg='distance sym')
    if mag > 1e-100:
        n = va.norm()
        near(t, tup(n), [p / mag for p in a], 1, 'norm')
        t.close(n.mag(), 1.0, abs_=1e-9, msg='|norm|')
    for r in (va + vb, va - vb, va * k, k * va, va.cross(vb)):
        t.require(isinstance(r, Vector), 'result is not a Vector')
    t.require(tuple(va.getTuple()) == a and tuple(va.getArray()) == a,
              'getTuple/getArray')
    t.require(tup(va) == a and tup(vb) == b, 'operand modified')
    # the array is the caller's own
    va.getArray()[:] = 7.0
    t.require(tup(va) == a and tuple(va.getArray()) == a,
              'the vector changes with the array it returned')
    t.close(va.dot(vb), dot, abs_=1e-9 * s * s, msg='dot after the array was '
            'changed')
    near(t, tup(va.cross(vb)), cr, s * s, 'cross after the array was changed')
    # a vector with other components is another vector
    va.x, va.z = b[2], b[0]
    a2 = (b[2], a[1], b[0])
    t.require(tuple(va.getTuple()) == a2 and tuple(va.getArray()) == a2,
              'components were set to %r, not %r', va.getTuple(), a2)
    t.close(va.mag(), math.hypot(*a2), rel=1e-9, abs_=1e-160,
            msg='mag after a component was set')
    t.close(va.dot(vb), math.fsum(p * q for p, q in zip(a2, b)),
            abs_=1e-9 * s * s, msg='dot after a component was set')
    t.require((va == V(a2)) is True, 'equality after a component was set')
    if math.hypot(*cr) > 1e-6 * s * s:
        t.label('independent')
    if k == 0:
        t.label('-zero-scalar')


@sub('C05', 'equality', st.tuples(vec, st.integers(0, 3), st.one_of(
    comp, st.sampled_from(['next', 1e-12, 1e-9, 1e-7, 1e-5, -1.0]))),
     quick=1200, thorough=10000,
     rule='a vector against a copy with at most one component replaced, negated or changed by 1 ulp .. 1e-5; non-trivial = a component differs')
def equality(case, t):
    a, i, c = case
    b = list(a)
    if i < 3:
        # either another value or the same one changed a little (or negated)
        b[i] = math.nextafter(a[i], 1e9) if c == 'next' else (
            a[i] * (1 + c) if c in (1e-12, 1e-9, 1e-7, 1e-5) else
            (-a[i] if c == -1.0 else c))
    same = tuple(b) == a
    if not same:
        t.label('differs')
    else:
        t.label('-same')
    r = V(a) == V(b)
    t.require(bool(r) == same, 'equality of %r and %r is %r' % (a, b, r))
    t.require(bool(V(b) == V(a)) == same, 'equality not symmetric')


bad = st.one_of(st.integers(), fl(-5, 5), st.text(max_size=3), st.none(),
                st.tuples(fl(-1, 1), fl(-1, 1), fl(-1, 1)))


@sub('C05', 'type_errors', st.tuples(vec, bad, st.sampled_from(
    ['add', 'sub', 'eq', 'distance', 'cross', 'dot', 'mul'])), quick=600, thorough=4000,
     rule='every operation with a non-Vector (or non-numeric scalar) operand; non-trivial = all')
def type_errors(case, t):
    a, x, op = case
    v = V(a)
    t.label(op)
    if op == 'mul':
        if isinstance(x, (int, float)):
            return
        if isinstance(x, str):
            try:
                float(x)
                return
            except ValueError:
                pass
        t.raises(TypeError, lambda: v * x)
        t.raises(TypeError, lambda: x * v)
        return
    f = {'add': lambda: v + x, 'sub': lambda: v - x, 'eq': lambda: v == x,
         'distance': lambda: v.distance(x), 'cross': lambda: v.cross(x),
         'dot': lambda: v.dot(x)}[op]
    t.raises(TypeError, f)
    t.require(tup(v) == a, 'operand modified')
