# -*- coding: utf-8 -*-
"""C18: locations from the marginalised coalescence."""

import numpy as np

from qmv.props.c24 import near
from qmv.props.common import time_env, values
from qmv.props.lutrig import A, B, Projection, make

ASSUMPTIONS = ["exact real arithmetic", "the projection is an invertible map (an affine map, different on each axis)"]
STUBS = [
    "Rbf: an interpolation whose maximum lies within one node of the largest value, on the side of the larger neighbour "
    "on each axis, at a given fraction of a node",
    "the Gaussian fit (pseudo-inverse, FFT smoothing, eigenvalues) is replaced by a recorder",
]


class Rbf:
    """A function with a known maximum between the nodes; depends on the data as an interpolation does."""

    frac = 0.3

    def __init__(self, x, y, z, d, function=None, **k):
        x, y, z = [[round(float(v), 9) for v in np.asarray(a).flatten()] for a in (x, y, z)]
        ax = [sorted(set(v)) for v in (x, y, z)]
        d = list(np.asarray(d, dtype=object).flatten())
        data = {(a, b, c): v for a, b, c, v in zip(x, y, z, d)}
        assert len(data) == len(d), "not one value per point"
        top = None
        for p, v in data.items():
            if top is None or bool(v > data[top]):
                top = p
        self.peak = []
        for k in range(3):
            i = ax[k].index(top[k])
            near = [ax[k][j] if 0 <= j < len(ax[k]) else None for j in (i - 1, i + 1)]
            lo, hi = [data.get(tuple(q if j == k else t for j, t in enumerate(top))) if q is not None else None
                      for q in near]
            if lo is None and hi is None:
                self.peak.append(top[k])
                continue
            side = near[1] if lo is None or (hi is not None and bool(hi > lo)) else near[0]
            self.peak.append(top[k] + (side - top[k]) * Rbf.frac)

    def __call__(self, x, y, z):
        x, y, z = [np.asarray(a, dtype=float) for a in (x, y, z)]
        return -((x - self.peak[0]) ** 2 + (y - self.peak[1]) ** 2 + (z - self.peak[2]) ** 2)


class Stubs:
    def __enter__(self):
        import quakemigrate.signal.scan as S
        import scipy.interpolate as si

        self.saved = (S, getattr(S, "Rbf", None), si, si.Rbf)
        if self.saved[1] is not None:
            S.Rbf = Rbf
        si.Rbf = Rbf

    def __exit__(self, *a):
        S, x, si, y = self.saved
        if x is not None:
            S.Rbf = x
        si.Rbf = y


def locate(ctx, count, peak, free, base=20.0, times=2, spacing=(1.0, 0.5, 2.0), cov=True, pair=None):
    """free: [(node, time, lo, hi)] values that are symbolic.  The peak's values are fixed."""
    from quakemigrate.io.event import Event
    from quakemigrate.signal.scan import QuakeScan

    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    ur = [a + (c - (1.25 if c > 1 else 1)) * s for a, c, s in zip(ll, count, spacing)]
    raw = {}
    for n, idx in enumerate(np.ndindex(*count)):
        for t in range(times):
            far = max(abs(a - b) for a, b in zip(idx, peak))
            raw[idx + (t,)] = 50.0 if idx == tuple(peak) else base * (1 + ((7 * n + 3 * t) % 11) / 20) / (1 + far)
    for i, (node, t, lo, hi) in enumerate(free):
        raw[tuple(node) + (t,)] = ctx.real(f"v{i}", lo, hi)
    if pair:  # two nodes whose values add up to a constant: the sum of the weights is known
        (a, b), c = pair[0], pair[1]
        v = ctx.real("v", c - 49.5, 49.5)
        raw[tuple(a) + (0,)], raw[tuple(b) + (0,)] = v, c - v
        raw[tuple(a) + (1,)] = raw[tuple(b) + (1,)] = 49.0
        free = list(free) + [(a, 0, 0, 0), (b, 0, 0, 0)]
    if ctx.symbolic:
        m4 = values(ctx, [raw[i] for i in np.ndindex(*count, times)]).reshape(tuple(count) + (times,))
    else:
        m4 = np.array([raw[i] for i in np.ndindex(*count, times)], dtype=float).reshape(tuple(count) + (times,))
    total = {idx: sum(raw[idx + (t,)] for t in range(times)) for idx in np.ndindex(*count)}
    top = tuple(peak)
    for idx in [tuple(f[0]) for f in free]:
        if idx != tuple(peak) and bool(total[idx] > total[top]):
            top = idx
    for idx in total:  # no two peaks
        if idx != top and any(tuple(f[0]) in (idx, top) for f in free):
            ctx.assume(total[idx] <= total[top] - 1e-3)
    peak = list(top)
    w = {idx: v for idx, v in total.items() if bool(v > 0.9 * total[top])}
    with Projection(), Stubs():
        scan = QuakeScan.__new__(QuakeScan)
        scan.lut = make(ctx, ll, ur, list(spacing))
        scan._gaufilt3d = lambda m, *a, **k: m
        scan._gaufit3d = lambda m, *a, **k: (np.array([1.0, 2.0, 3.0]), np.array([0.1, 0.2, 0.3]))
        ev = Event(1.0)
        ev.map4d = m4
        out = scan._calculate_location(ev)
        ctx.check(out.shape == tuple(count), "one value per node")
        for idx in total:
            ctx.check(near(ctx, out[idx] * total[top], total[idx], 1e-6), "sum over time divided by its maximum")
        # spline
        sp = [ev.locations["spline"][k] * a + b - o for k, a, b, o in zip("XYZ", A, B, ll)]
        lo = [max(0, p - 2) for p in peak]
        hi = [min(n, p + 3) for n, p in zip(count, peak)]
        size = [b - a for a, b in zip(lo, hi)]
        want = [float(p) for p in peak]
        if size[0] == size[1] == size[2]:
            for k in range(3):
                nb = []
                for s in (-1, 1):
                    q = list(peak)
                    q[k] += s
                    nb.append(total[tuple(q)] if lo[k] <= q[k] < hi[k] else None)
                if nb[0] is None and nb[1] is None:
                    continue
                if nb[0] is None or nb[1] is None:
                    want[k] += 0.3 if nb[0] is None else -0.3
                else:
                    want[k] += 0.3 if bool(nb[1] > nb[0]) else -0.3
        for k in range(3):
            ctx.check(ctx.all([sp[k] <= (peak[k] + 2) * spacing[k] + 1e-6, sp[k] >= (peak[k] - 2) * spacing[k] - 1e-6,
                               sp[k] >= -1e-6, sp[k] <= (count[k] - 1) * spacing[k] + 1e-6]),
                      "within two nodes of the peak and inside the grid")
            ctx.check(near(ctx, sp[k], want[k] * spacing[k], 1e-6),
                      "maximum of the interpolated map, or the peak node where the window is cut off unevenly")
        if not cov:
            return
        # covariance
        cv = [ev.locations["covariance"][k] * a + b - o for k, a, b, o in zip("XYZ", A, B, ll)]
        un = [ev.locations["covariance"][f"Err{k}"] for k in "XYZ"]
        sw = sum(w.values())
        for k in range(3):
            xs = {idx: idx[k] * spacing[k] for idx in w}
            ctx.check(near(ctx, cv[k] * sw, sum(v * xs[i] for i, v in w.items()), 1e-5), "weighted mean of the nodes above 0.9")
            var = sum(v * (xs[i] - cv[k]) ** 2 for i, v in w.items())
            ctx.check(un[k] >= 0, "not negative")
            ctx.check(near(ctx, un[k] * un[k] * sw, var, 1e-5), "weighted standard deviation of the nodes above 0.9")
        total_err = ev.locations["covariance"]["Err_XYZ"]
        ctx.check(near(ctx, total_err * total_err * total_err, un[0] * un[1] * un[2], 1e-5),
                  "overall uncertainty is the geometric mean")
        ga = ev.locations["gaussian"]
        ctx.check([ga[k] for k in "XYZ"] == [1.0, 2.0, 3.0] and [ga[f"Err{k}"] for k in "XYZ"] == [0.1, 0.2, 0.3],
                  "each location under its own name")
        for name in ("spline", "gaussian", "covariance"):
            got = list(ev.get_hypocentre(method=name))
            ctx.check(len(got) == 3 and ctx.all([ctx.eq(g, ev.locations[name][k]) for g, k in zip(got, "XYZ")]),
                      "a hypocentre asked for by name is that location")
            if name != "spline":
                got = list(ev.get_loc_uncertainty(method=name))
                ctx.check(len(got) == 3 and ctx.all([ctx.eq(g, ev.locations[name][f"Err{k}"]) for g, k in zip(got, "XYZ")]),
                          "an uncertainty asked for by name is that location's")
        ctx.check(ctx.all([ctx.eq(g, ev.locations["spline"][k]) for g, k in zip(ev.hypocentre, "XYZ")] +
                          [ctx.eq(g, ev.locations["gaussian"][f"Err{k}"]) for g, k in zip(ev.loc_uncertainty, "XYZ")]),
                  "the hypocentre is the spline one and its uncertainty the Gaussian one")


def cases(tier):
    out = [
        # neighbours around the threshold, on either side of the peak; the peak may be at either
        dict(count=[3, 3, 3], peak=[1, 1, 1], free=[([2, 1, 1], 0, 20, 49), ([1, 0, 1], 1, 5, 48)]),
        dict(count=[3, 3, 3], peak=[1, 1, 1], free=[], pair=[([0, 1, 1], [1, 2, 0]), 90.0]),
        dict(count=[5, 5, 5], peak=[2, 3, 2], free=[], pair=[([2, 2, 2], [2, 4, 2]), 84.0], spacing=[0.5, 0.5, 0.5]),
        dict(count=[5, 5, 5], peak=[2, 2, 2], free=[([2, 2, 3], 0, 60, 90), ([2, 1, 2], 0, 1, 60)]),
        dict(count=[6, 5, 7], peak=[3, 2, 4], free=[([2, 2, 4], 0, 80, 90)], base=5.0),
        dict(count=[6, 6, 6], peak=[3, 2, 3], free=[([2, 2, 4], 0, 10, 90)], base=5.0, cov=False),
        dict(count=[4, 5, 6], peak=[0, 3, 3], free=[([0, 2, 3], 0, 60, 90)]),  # cut off unevenly
        dict(count=[6, 6, 6], peak=[0, 5, 0], free=[([1, 5, 0], 1, 60, 85)]),  # a corner
        dict(count=[2, 3, 1], peak=[1, 1, 0], free=[([0, 1, 0], 0, 40, 49), ([1, 2, 0], 1, 30, 49)]),
        dict(count=[2, 2, 2], peak=[0, 1, 1], free=[([1, 1, 1], 0, 30, 49)], times=3),
        dict(count=[2, 2, 1], peak=[0, 1, 0], free=[([0, 1, 0], 1, 10, 60)], cov=False),
    ]
    if tier == "thorough":
        out += [dict(count=[3, 3, 3], peak=[i, j, k], free=[([1, 1, 1] if (i, j, k) != (1, 1, 1) else [0, 1, 1], 0, 20, 49), ([(i + 1) % 3, j, k], 1, 20, 49)])
                for i in range(3) for j in (0, 2) for k in (1, 2)]
    return out


HARNESSES = [
    dict(name="locate", fn=locate, cases=cases, env=time_env,
         expect=["sum over time divided by its maximum", "within two nodes of the peak and inside the grid",
                 "weighted mean of the nodes above 0.9", "weighted standard deviation of the nodes above 0.9",
                 "maximum of the interpolated map, or the peak node where the window is cut off unevenly",
                 "a hypocentre asked for by name is that location", "an uncertainty asked for by name is that location's"],
         bounds="grids of up to 7 nodes per axis, 2 or 3 times, any values at one or two nodes of a fixed map, any corner"),
]
