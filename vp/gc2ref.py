"""Independent GC2 (Spudich & Chiou, OFR 2015-1028) for oracle use.

Works on top-edge traces: list of lists of (lon, lat).  Plane coordinates come
from geodesic azimuth/distance around a reference point, not from the
projection used by the code under test."""
import math

import numpy as np

from vp.rupgen import GEOD


def plane(lon0, lat0, lons, lats):
    out = []
    for lo, la in zip(lons, lats):
        az, _, d = GEOD.inv(lon0, lat0, lo, la)
        out.append((d / 1000 * math.sin(math.radians(az)),
                    d / 1000 * math.cos(math.radians(az))))
    return np.array(out)


def gc2(traces, site):
    """traces: list of (n, 2) arrays in km, oriented alike; site (2,).
    -> (T, U0, weights) with U measured from the start of each trace only
    when there is one trace."""
    W = T = U = 0.0
    for tr in traces:
        s = 0.0
        for a, b in zip(tr[:-1], tr[1:]):
            l = float(np.hypot(*(b - a)))
            uh = (b - a) / l
            th = np.array([uh[1], -uh[0]])
            u = float((site - a) @ uh)
            t = float((site - a) @ th)
            if abs(t) > 1e-9:
                w = (math.atan((l - u) / t) - math.atan(-u / t)) / t
            elif u < 0 or u > l:
                w = 1 / (u - l) - 1 / u
            else:
                return 0.0, s + u
            W += w
            T += w * t
            U += w * (u + s)
            s += l
    return T / W, U / W
