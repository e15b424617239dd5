"""Shared Hypothesis strategies (plain data only)."""
from hypothesis import strategies as st


def fl(lo, hi, **kw):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, **kw)


def lats(lo=-90.0, hi=90.0):
    special = [v for v in (-90.0, 90.0, 0.0, 45.0, -33.3, 89.9999, -0.0)
               if lo <= v <= hi]
    out = [fl(lo, hi), st.sampled_from(special),
           st.integers(int(lo * 100), int(hi * 100)).map(
               lambda k: k / 100.0)]
    if lo <= -89 and hi >= 89:
        # close to a pole: 10 cm .. 100 km
        out.append(st.tuples(st.sampled_from([1, -1]), fl(-6, 0)).map(
            lambda v: v[0] * (90.0 - 10.0 ** v[1])))
    return st.one_of(*out)


def lons_any():
    return st.one_of(fl(-180, 180), fl(-540, 540),
                     st.sampled_from([180.0, -180.0, 0.0, 360.0, 179.9999,
                                      -179.9999, 90.0, -118.25, 190.0]))


def lons():
    return st.one_of(fl(-180, 180),
                     st.sampled_from([180.0, -180.0, 0.0, 179.9999,
                                      -179.9999, 90.0, -118.25]),
                     st.integers(-18000, 18000).map(lambda k: k / 100.0))


def depths():
    return st.one_of(fl(-9, 40), fl(-9, 1000),
                     st.sampled_from([0.0, 10.0, 700.0, -8.8]))


def dec(lo, hi, places):
    """Decimal-looking floats k/10**places in [lo, hi]."""
    m = 10 ** places
    return st.integers(int(round(lo * m)), int(round(hi * m))).map(
        lambda k: k / m)
