# -*- coding: utf-8 -*-
"""C19: phase pick windows."""

import shutil

import numpy as np

from qmv.props import pickrig, rig
from qmv.props.common import time_env, values
from qmv.symtime import at

ASSUMPTIONS = ["times are exact reals", "modelled arrivals lie inside the recorded onset, P before S"]
STUBS = ["the onset functions are flat (below the pick threshold), whatever the windows",
         "lookup table serves arbitrary traveltimes"]


def _flat(ctx, n):
    """An onset of n samples whose values do not depend on where it is cut."""
    if not ctx.symbolic:
        return np.full(n, 0.5)
    from qmv.npsym import SymArray

    class Flat(SymArray):
        def __getitem__(self, i):
            if isinstance(i, slice):
                return self
            return super().__getitem__(i)

        def __setitem__(self, i, v):
            if not isinstance(i, slice):
                super().__setitem__(i, v)

        def copy(self, *a, **k):
            return self

        def __gt__(self, o):
            return np.zeros(n, dtype=bool)

    return np.array([0.5] * n, dtype=object).view(Flat)


def _near(ctx, x):
    """integers at most half a sample away"""
    return lambda k: (ctx.all([k - x <= 0.5, x - k <= 0.5]) if ctx.symbolic else abs(k - x) <= 0.5 + 1e-6)


def windows(ctx, rate, n, phases, stations=1, override=False, mw=None, fr=0.1, used=False):
    from quakemigrate.signal.pickers import GaussianPicker

    start = ctx.real("onset_start", 0, 100)
    ot = start + ctx.real("origin_offset", -5, n / rate)
    mw = ctx.real("marginal_window", 0, 3) if mw is None else mw
    tt, on = {}, {}
    for s in range(stations):
        st = f"ST{s}"
        a = []
        for p in phases:
            if s:  # later stations: a fixed delay
                t = tt["ST0"][p] + 0.75 * s
            else:
                t = ctx.real(f"tt_{p}", 0, 2 * n / rate)
            ctx.assume(ctx.all([(ot + t - start) * rate >= 0, (ot + t - start) * rate <= n]))
            if a:
                ctx.assume(t >= a[-1])
            a.append(t)
        tt[st] = dict(zip(phases, a))
        on[st] = {p: _flat(ctx, n) for p in phases}
    onset = pickrig.onset_stub(on, rate, at(ctx, start))
    ev = pickrig.event(ctx, mw, at(ctx, ot))
    lut = pickrig.LUT(tt, 0.9 if override else fr)
    scratch = rig.scratch_dir("c19")
    try:
        pk = GaussianPicker(onset=onset, fraction_tt=fr) if override else GaussianPicker(onset=onset)
        if used:
            pickrig.before(ctx, pk, onset, lut, pickrig.run_at(scratch), list(tt), phases, rate)
        ev, df = pk.pick_phases(ev, lut, pickrig.run_at(scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    got = ev.picks["pick_windows"]
    ctx.check(set(got) == set(tt), "windows for every station")
    for st in tt:
        w = got[st]
        ctx.check(list(w) == list(phases), "one window per phase")
        prev = None
        for p in phases:
            a = (ot + tt[st][p] - start) * rate
            h = (tt[st][p] * fr + mw) * rate
            lo, c, hi = w[p]
            ctx.check(_near(ctx, a)(c), "window is centred on the modelled arrival")
            ctx.check(ctx.all([lo >= 0, hi <= n]), "window stays inside the onset")
            ctx.check(ctx.all([lo <= c, c <= hi]), "window contains the modelled arrival")
            if prev:
                lo1, c1, hi1 = prev
                ctx.check(hi1 <= lo, "windows do not overlap")
                mid2 = c1 + c  # twice the mid point
                ctx.check(ctx.all([2 * hi1 <= mid2, 2 * lo >= mid2 - 1]), "windows are split half-way between the arrivals")
            prev = (lo, c, hi)
        # extent: full half-width unless clipped by the onset or the neighbour
        for i, p in enumerate(phases):
            lo, c, hi = w[p]
            h = (tt[st][p] * fr + mw) * rate
            left = [ctx.eq(lo, 0)] if i == 0 else [2 * lo <= w[phases[i - 1]][1] + c]
            right = [ctx.eq(hi, n)] if i == len(phases) - 1 else [2 * hi >= w[phases[i + 1]][1] + c - 1]
            near = _near(ctx, h)
            ctx.check(ctx.any([near(c - lo)] + [ctx.all(left + [c - lo <= h + 0.5])]),
                      "window starts a half-width before the arrival unless clipped")
            ctx.check(ctx.any([near(hi - c)] + [ctx.all(right + [hi - c <= h + 0.5])]),
                      "window ends a half-width after the arrival unless clipped")


def cases(tier):
    out = [dict(rate=r, n=n, phases=["P", "S"]) for r, n in ((1, 8), (4, 30), (50, 60))]
    out += [dict(rate=10, n=50, phases=["P", "S"], fr=f) for f in (0.0, 0.35, 1.0)]
    out += [dict(rate=20, n=60, phases=["P"]), dict(rate=20, n=60, phases=["S"]),
            dict(rate=20, n=60, phases=["P", "S"], override=True),
            dict(rate=4, n=24, phases=["P", "S"], stations=2, mw=1.5), dict(rate=4, n=30, phases=["P", "S"], used=True)]
    if tier == "thorough":
        out += [dict(rate=r, n=n, phases=["P", "S"], stations=2) for r in (5, 8) for n in (20, 30)] + [
            dict(rate=r, n=n, phases=["P", "S"]) for r, n in ((50, 400), (25, 100), (100, 200))]
    return out


HARNESSES = [
    dict(name="windows", fn=windows, cases=cases, env=time_env, subproc=True,
         expect=["window is centred on the modelled arrival", "windows do not overlap",
                 "window stays inside the onset", "window starts a half-width before the arrival unless clipped"],
         bounds="any origin time and traveltimes, fractions 0-1, any marginal window <=3 s; onsets of 8-60 samples at 1-50 Hz (400 samples, 100 Hz thorough), "
                "P and S or one phase, 1-2 stations"),
]
