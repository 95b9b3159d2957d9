# -*- coding: utf-8 -*-
"""C26: served traveltimes."""

import numpy as np
import pandas as pd

from qmv.props.common import values
from qmv.props.lutrig import Projection, make, stations

ASSUMPTIONS = ["exact real arithmetic", "trilinear interpolation by SciPy's RegularGridInterpolator (modelled)"]
STUBS = ["RegularGridInterpolator: trilinear interpolation in the cell of the point, extrapolating outside"]


class Interp:
    """Multilinear interpolation over symbolic tables or positions; SciPy's own when replaying."""

    def __init__(self, grid, vals, bounds_error=True, fill_value=np.nan, method="linear"):
        assert method == "linear"
        self.bounds_error, self.fill_value = bounds_error, fill_value
        self.grid, self.vals = [np.asarray(g) for g in grid], vals
        assert tuple(len(g) for g in self.grid) == tuple(vals.shape[:3]), "grid and table do not match"

    def __call__(self, xi):
        from qmv.npsym import SymArray

        xi = np.asarray(xi, dtype=object)
        pts = xi.reshape(-1, xi.shape[-1])
        out = []
        for p in pts:
            v = self.vals.view(np.ndarray)
            if self.bounds_error or self.fill_value is not None:
                inside = all(bool(p[k] >= self.grid[k][0]) and bool(p[k] <= self.grid[k][-1]) for k in range(3))
                if not inside and self.bounds_error:
                    raise ValueError("One of the requested xi is out of bounds")
                if not inside:
                    out.append(np.full(v.shape[3:], self.fill_value, dtype=object))
                    continue
            for k in range(3):
                n = len(self.grid[k])
                i = 0
                while i < n - 2 and bool(p[k] >= self.grid[k][i + 1]):
                    i += 1
                if n == 1:
                    v = v[0]
                    continue
                w = (p[k] - int(self.grid[k][i])) * (1.0 / float(self.grid[k][i + 1] - self.grid[k][i]))
                v = v[i] * (1 - w) + v[i + 1] * w
            out.append(v)
        return np.array(out, dtype=object).reshape(xi.shape[:-1] + tuple(self.vals.shape[3:])).view(SymArray)


def env():
    from qmv.props.common import time_env

    return time_env()


class Scipy:
    def __init__(self, ctx):
        self.on = ctx.symbolic

    def __enter__(self):
        import quakemigrate.lut.lut as L
        import scipy.interpolate as si

        self.saved = (L, getattr(L, "RegularGridInterpolator", None), si, si.RegularGridInterpolator)
        if self.on:
            if self.saved[1] is not None:
                L.RegularGridInterpolator = Interp
            si.RegularGridInterpolator = Interp

    def __exit__(self, *a):
        L, x, si, y = self.saved
        if x is not None:
            L.RegularGridInterpolator = x
        si.RegularGridInterpolator = y


def build(ctx, count, names, phases, old=False, sym=()):
    ll = [3.0, -7.0, 1.0]
    ur = [a + (c - 1.25 if c > 1 else 0) for a, c in zip(ll, count)]
    lut = make(ctx, ll, ur, [1.0, 1.0, 1.0])
    lut.phases, lut.station_data = list(phases), stations(names)
    t = {}
    total = int(np.prod(count))
    for i, s in enumerate(sorted(names)):
        lut.traveltimes[s] = {}
        for p in sorted(phases):
            free = f"{s}_{p}" in sym
            v = [ctx.real(f"{s}{p}{j}", 0, 60) if free else round(0.37 * j + 1.013 * i + 17.3 * (p == "S") + 0.05, 6)
                 for j in range(total)]
            a = (values(ctx, v) if free else np.array(v)).reshape(tuple(count))
            lut.traveltimes[s][f"TIME_{p}" if old else p] = a
            t[f"{s}_{p}"] = a
    return lut, t


def serve(ctx, count, rate, names=("STC", "STA", "STB"), phases=("P", "S"), sym=(), old=False, order=None):
    with Projection():
        lut, t = build(ctx, count, names, phases, old, sym)
        keys = list(order) if order else [f"{s}_{p}" for p in phases for s in names]
        av = {k: ctx.choose(f"av_{k}", [0, 1]) for k in keys[:-1]}
        av[keys[-1]] = 1
        def served(got, use, rate, shape=tuple(count)):
            ctx.check(got.shape == tuple(shape) + (len(use),), "one table per available phase")
            for r, k in enumerate(use):
                for idx in np.ndindex(*shape):
                    g = got[idx + (r,)]
                    d = g - t[k][idx] * rate
                    ctx.check(ctx.all([d <= 0.5 + 1e-6, d >= -0.5 - 1e-6]), "nearest sample of this phase's table")
                    ctx.check(g.is_integer() if hasattr(g, "is_integer") and not isinstance(g, np.generic) else float(g) == int(g),
                              "whole samples")
            if not ctx.symbolic:
                ctx.check(got.dtype.kind == "i", "integer table")

        def largest():
            m = lut.max_traveltime
            every = [x for k in t for x in t[k].flatten()]
            ctx.check(ctx.all([m >= x for x in every]), "no traveltime exceeds the maximum")
            ctx.check(ctx.any([ctx.eq(m, x) for x in every]), "the maximum is a traveltime of the table")

        on, every = [k for k in keys if av[k] == 1], [f"{s}_{p}" for p in phases for s in names]
        served(lut.serve_traveltimes(rate, av), on, rate)
        # asked again: another rate, everything, the availability in another order or of one phase only
        served(lut.serve_traveltimes(2 * rate, av), on, 2 * rate)
        served(lut.serve_traveltimes(2 * rate), every, 2 * rate)
        served(lut.serve_traveltimes(rate), every, rate)
        largest()
        served(lut.serve_traveltimes(rate, {k: av[k] for k in reversed(keys)}), on[::-1], rate)
        served(lut.serve_traveltimes(rate, {k: int(k == keys[0]) for k in keys}), keys[:1], rate)
        # after the tables were changed: a table replaced, all of them cut
        s, ph = sorted(names)[0], sorted(phases)[0]
        t[f"{s}_{ph}"] = t[f"{s}_{ph}"] * 0.5 + 61.0
        lut.traveltimes[s][f"TIME_{ph}" if old else ph] = t[f"{s}_{ph}"]
        served(lut.serve_traveltimes(rate, av), on, rate)
        served(lut.serve_traveltimes(rate), every, rate)
        largest()
        cut = [1 if c == 1 else 2 for c in count]
        if not old:
            lut.decimate(cut, inplace=True)
            for k in t:
                s, ph = k.split("_")
                t[k] = lut.traveltimes[s][ph]
            served(lut.serve_traveltimes(rate, av), on, rate, t[k].shape)
            largest()


def to(ctx, count, base, axis, lo, hi, names=("STB", "STA"), sym=(), listed=None, old=False, rows=True):
    """Traveltime to a position that varies along one axis."""
    with Projection(), Scipy(ctx):
        lut, t = build(ctx, count, names, ("P", "S"), old, sym)
        x = ctx.real("x", lo, hi)
        pos = [float(b) for b in base]
        pos[axis] = x
        ijk = values(ctx, [pos]) if rows else values(ctx, pos)
        # the cell of the point
        c0 = 0
        for c in range(1, count[axis] - 1):
            if x >= c:
                c0 = c

        def served(x, c0, ijk, cut=1):
            lo_i, hi_i = list(base), list(base)
            lo_i[axis], hi_i[axis] = c0 * cut, (c0 + 1) * cut
            for ph in ("P", "S"):
                for sta, use in ((None, list(names)), ("STA", ["STA"]), (listed or [names[0]], listed or [names[0]])):
                    got = lut.traveltime_to(ph, ijk, sta) if sta is not None else lut.traveltime_to(ph, ijk)
                    ctx.check(len(got) == len(use), "one traveltime per station")
                    for g, s in zip(got, use):
                        a, b = t[f"{s}_{ph}"][tuple(lo_i)], t[f"{s}_{ph}"][tuple(hi_i)]
                        d = g - (a + (b - a) * (x - c0))
                        ctx.check(ctx.all([d <= 1e-6, d >= -1e-6]), "interpolated between the nodes of the station's own table")

        served(x, c0, ijk)
        # asked again, elsewhere and after the tables were changed: one replaced, all of them cut
        pos[axis] = 0.25
        ijk = values(ctx, [pos]) if rows else values(ctx, pos)
        served(0.25, 0, ijk)
        t["STA_P"] = t["STA_P"] * 0.5 + 61.0
        lut.traveltimes["STA"]["TIME_P" if old else "P"] = t["STA_P"]
        served(0.25, 0, ijk)
        if not old and count[axis] > 2 and count[axis] % 2:  # every other node along the axis, from the first
            lut.decimate([2 if k == axis else 1 for k in range(3)], inplace=True)
            served(0.25, 0, ijk, 2)


def node(ctx, count, sym):
    with Projection(), Scipy(ctx):
        lut, t = build(ctx, count, ("STB", "STA"), ("P", "S"), False, sym)
        at = [ctx.choose(f"i{k}", list(range(c))) for k, c in enumerate(count)]
        for ph in ("P", "S"):
            got = lut.traveltime_to(ph, np.array([at]), ["STA", "STB"])
            for g, s in zip(got, ("STA", "STB")):
                d = g - t[f"{s}_{ph}"][tuple(at)]
                ctx.check(ctx.all([d <= 1e-9, d >= -1e-9]), "exact at the nodes")


def cases_s(tier):
    out = [dict(count=[2, 1, 2], rate=50, sym=["STA_P", "STB_S"]),
           dict(count=[1, 2, 1], rate=7, sym=["STC_P", "STC_S", "STA_S"], phases=("S", "P")),
           dict(count=[2, 2, 1], rate=250, sym=["STA_P"], phases=("P",), order=["STB_P", "STC_P", "STA_P"]),
           dict(count=[1, 1, 2], rate=100, sym=["STC_S"], phases=("S",), old=True)]
    if tier == "thorough":
        out += [dict(count=[2, 2, 3], rate=r, sym=["STA_P", "STC_S"]) for r in (1, 10, 125, 500)]
    return out


def cases_t(tier):
    out = [dict(count=[3, 2, 2], base=[0, 1, 0], axis=0, lo=0, hi=2, sym=["STA_P"]),
           dict(count=[2, 4, 2], base=[1, 0, 1], axis=1, lo=0, hi=3, listed=["STA", "STB"]),
           dict(count=[2, 3, 4], base=[1, 2, 0], axis=2, lo=-0.5, hi=3.5, names=("STA", "STC", "STB"), listed=["STB", "STA"], old=True)]
    return out


def cases_n(tier):
    return [dict(count=[2, 3, 2], sym=["STA_S", "STB_P"])]


HARNESSES = [
    dict(name="serve", fn=serve, cases=cases_s, env=env,
         expect=["nearest sample of this phase's table", "no traveltime exceeds the maximum", "one table per available phase"],
         bounds="up to 3 stations and 2 phases, every availability, any traveltimes in two or three of the tables, grids of "
                "up to 4 nodes, rates 7-250 Hz"),
    dict(name="to", fn=to, cases=cases_t, env=env,
         expect=["interpolated between the nodes of the station's own table"],
         bounds="any position along one grid axis (each axis once, also just outside), 2 or 3 stations"),
    dict(name="node", fn=node, cases=cases_n, env=env, expect=["exact at the nodes"],
         bounds="every node of a 2 x 3 x 2 grid, any traveltimes"),
]
