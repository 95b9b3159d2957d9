# -*- coding: utf-8 -*-
"""C20: when a pick is made."""

import shutil

import numpy as np

from qmv.props import pickrig, rig
from qmv.props.common import values
from qmv.symtime import at, sec

ASSUMPTIONS = ["onset values are exact reals"]
STUBS = ["curve_fit returns any Gaussian or fails in any documented way",
         "lookup table serves the traveltimes that give the pick windows of the case"]


class Fit:
    """Stand-in for scipy.optimize.curve_fit."""

    def __init__(self, ctx, outcome):
        self.ctx, self.outcome = ctx, outcome
        self.calls = []

    def __call__(self, f, xdata, ydata, p0=None, **k):
        self.calls.append((list(xdata), list(ydata), p0))
        self.function = f
        n = len(self.calls) - 1
        if len(xdata) != len(ydata):
            raise ValueError("operands could not be broadcast together")
        if len(ydata) < 3:
            raise TypeError("Improper input: func input vector length N=3 must not exceed func output vector length")
        if self.outcome == "runtime":
            raise RuntimeError("Optimal parameters not found")
        if self.outcome == "value":
            raise ValueError("array must not contain infs or NaNs")
        if self.outcome == "nan":
            p = [float("nan")] * 3
        elif self.outcome != "any":
            p = self.outcome
        else:
            c = self.ctx
            p = [c.real(f"fit{n}_max", -10, 100), c.real(f"fit{n}_mean", -5, 50), c.real(f"fit{n}_sigma", -10, 10)]
        return values(self.ctx, p), np.zeros((3, 3))


def osort(ctx, v):
    """sorting network"""
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = ctx.min([a, b]), ctx.max([a, b])
    return v


def omedian(ctx, v):
    s = osort(ctx, v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def picks(ctx, n, wins, rate=1, method=("MAD", 2.0), noise=None, fit="any", free=None, start=0.0, used=False):
    """wins: {phase: (first, arrival, last)} pick windows in samples (reached through the traveltimes)."""
    import quakemigrate.signal.pickers.gaussian as gp

    phases = list(wins)
    inwin = set()
    for lo, c, hi in wins.values():
        inwin |= set(range(max(lo, 0), min(hi, n)))
    on = {}
    for p in phases:
        row = []
        for i in range(n):
            if i in inwin:
                lo, c, hi = wins[p]
                fr = lo <= i < hi and (free is None or p in free)
                row.append(ctx.real(f"{p}_o{i}", 0.5, 40) if fr else 2.0 + 0.25 * i)
            elif noise is not None:
                row.append(float(noise[i % len(noise)]) + 0.125 * phases.index(p))
            else:
                row.append(ctx.real(f"{p}_o{i}", 0.5, 40))
        on[p] = row
    arr = {"ST": {p: values(ctx, on[p]) for p in phases}}
    t0 = ctx.real("onset_start", 0, 86400) if start is None else start
    onset = pickrig.onset_stub(arr, rate, at(ctx, t0))
    # windows: marginal window = half-width, arrivals from the traveltimes (fraction 0)
    half = max(c - lo for lo, c, hi in wins.values())
    ev = pickrig.event(ctx, half / rate, at(ctx, t0))
    lut = pickrig.LUT({"ST": {p: wins[p][1] / rate for p in phases}}, 0.0)
    kw = dict(threshold_method=method[0])
    kw["percentile_pick_threshold" if method[0] == "percentile" else "mad_pick_threshold"] = method[1]
    pk = gp.GaussianPicker(onset=onset, **kw)
    scratch = rig.scratch_dir("c20")
    saved = gp.curve_fit
    cf = gp.curve_fit = Fit(ctx, fit)
    try:
        if used:
            cf.outcome = [8.0, 12 / rate, 0.5 / rate]
            old, df0 = pickrig.before(ctx, pk, onset, lut, pickrig.run_at(scratch), ["ST"], phases, rate)
            ctx.check(len(cf.calls) == 1 and ctx.eq(sec(df0.iloc[0]["PickTime"]), 7200 + 12 / rate), "pick time, error, height and residual come from the fit")
            cf.outcome = fit
            cf.calls.clear()
        ev, df = pk.pick_phases(ev, lut, pickrig.run_at(scratch))
        import os
        ctx.check(os.path.exists(os.path.join(scratch, "locate", "picks", ev.uid + ".picks")), "pick file written")
    finally:
        gp.curve_fit = saved
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.check(len(df) == len(phases), "one row per station and phase")
    used = ev.picks["pick_windows"]["ST"]
    if cf.calls and fit == "any":
        # the curve that is fitted: height, mean and width of a Gaussian, at any point
        x, a = ctx.real("curve_x", -5, 50), ctx.real("curve_height", -10, 100)
        for b, c in ((3.0, 0.5), (1.5, 2.0), (-2.0, -4.0)):
            got = np.asarray(cf.function(values(ctx, [x]), a, b, c))
            ctx.check(len(got) == 1 and ctx.eq(got[0], a * ctx.f("exp", -((x - b) * (x - b)) / (2 * c * c))), "a Gaussian of that height, mean and width is fitted")
    calls = list(cf.calls)
    for r, p in enumerate(phases):
        lo, c, hi = used[p]
        ctx.check((lo, c, hi) == tuple(wins[p]), "the windows of the case are the ones used")
        out = [v for i, v in enumerate(on[p]) if i not in inwin]
        out = [v for v in out if bool(v > 1)]
        got = ev.picks["gaussfits"]["ST"][p]["PickThreshold"]
        row = df.iloc[r]
        ctx.check(row["Station"] == "ST" and row["Phase"] == p, "rows are labelled")
        ctx.check(ctx.eq(sec(row["ModelledTime"]), t0 + (c * 1.0) / rate), "modelled time = origin time + traveltime")
        peak = None
        if out:
            if method[0] == "MAD":
                med = omedian(ctx, out)
                thr = med + method[1] * 1.4826 * omedian(ctx, [abs(v - med) for v in out])
            else:
                s = osort(ctx, out)
                pos = method[1] * (len(s) - 1)
                i = min(int(pos + 1e-12), len(s) - 1)
                thr = s[i] if i + 1 == len(s) else s[i] + (s[i + 1] - s[i]) * (pos - i)
            ctx.check(ctx.eq(got, thr, 1e-6), "threshold follows its definition")
            seg = on[p][lo:hi]
            top = 0
            for i, v in enumerate(seg):
                if bool(v > seg[top]):
                    top = i
            if bool(seg[top] > thr):
                a = b = top
                while a > 0 and bool(seg[a - 1] > thr):
                    a -= 1
                while b + 1 < len(seg) and bool(seg[b + 1] > thr):
                    b += 1
                if b > a:
                    peak = (lo + a, lo + b)
        pick = [row["PickTime"], row["PickError"], row["SNR"], row["Residual"]]
        failed = [isinstance(v, (int, float, np.integer)) and v == -1 for v in pick]
        if peak is None:
            ctx.check(all(failed), "no peak of two samples or more: no pick")
            continue
        ctx.check(len(calls) > 0, "a peak of two samples or more is fitted")
        xs, ys, p0 = calls.pop(0)
        i0, i1 = max(peak[0] - 1, 0), min(peak[1] + 2, n)
        ctx.check(len(xs) == i1 - i0 and len(ys) == i1 - i0, "the peak and one sample either side are fitted")
        ctx.check(ctx.all([ctx.eq(y, on[p][i]) for i, y in zip(range(i0, i1), ys)] +
                          [ctx.eq(x, (i * 1.0) / rate) for i, x in zip(range(i0, i1), xs)]),
                  "fitted samples keep their times")
        if fit != "any" or i1 - i0 < 3:
            ctx.check(all(failed), "a failed fit gives no pick")
            continue
        k = len(cf.calls) - len(calls) - 1
        mean = ctx.real(f"fit{k}_mean", -5, 50)
        inside = bool(ctx.all([mean * rate > lo, mean * rate < hi]))
        if not inside:
            ctx.check(all(failed), "a pick outside its window is refused")
            continue
        ctx.check(not failed[0], "a pick inside its window is kept")
        ctx.check(ctx.all([ctx.eq(sec(pick[0]), t0 + mean), ctx.eq(pick[1], abs(ctx.real(f"fit{k}_sigma", -10, 10))),
                           ctx.eq(pick[2], ctx.real(f"fit{k}_max", -10, 100)),
                           ctx.eq(pick[3], mean - (c * 1.0) / rate)]),
                  "pick time, error, height and residual come from the fit")
    ctx.check(not calls, "nothing else is fitted")


def cases(tier):
    P, PS = {"P": [2, 4, 6]}, {"P": [2, 4, 6], "S": [6, 8, 10]}
    none = []
    out = [
        # arbitrary noise
        dict(n=7, wins=P, method=["MAD", 2.0], free=none),
        dict(n=8, wins=P, method=["percentile", 0.75], free=none),
        dict(n=7, wins=P, method=["percentile", 1.0], rate=4, free=none),
        # arbitrary onset in and around the windows
        dict(n=9, wins=P, noise=[2.0, 3.0, 0.7, 3.75], method=["MAD", 2.0]),
        dict(n=9, wins=P, noise=[2.0, 3.0, 0.7, 3.75], method=["percentile", 0.625]),
        dict(n=8, wins={"P": [0, 2, 4]}, noise=[2.0, 3.0, 5.0], rate=2),  # window at the start of the onset
        dict(n=6, wins={"S": [2, 4, 6]}, noise=[2.0, 3.0, 5.0]),  # window at the end
        dict(n=13, wins=PS, noise=[3.0, 3.5, 0.7], free=["P"]),
        dict(n=13, wins=PS, noise=[3.0, 3.5, 0.7, 3.25], free=["S"], rate=10),
        dict(n=9, wins=P, noise=[3.0, 4.0], fit="runtime"),
        dict(n=9, wins=P, noise=[3.0, 4.0], fit="value"),
        dict(n=8, wins=P, noise=[0.9], method=["MAD", 8.0]),  # nothing exceeds 1 outside the windows
        dict(n=8, wins=P, noise=[0.9], method=["percentile", 0.5]),
        dict(n=8, wins={"P": [2, 4, 6]}, noise=[3.0, 3.5], start=None),
        dict(n=8, wins=P, noise=[3.0, 3.5, 0.7], used=True),
        dict(n=8, wins=P, noise=[3.0, 3.5], method=["percentile", 0.5], rate=4, used=True),
    ]
    if tier == "thorough":
        out += [dict(n=8, wins=P, method=["MAD", 8.0], free=none),
                dict(n=9, wins=P, method=["percentile", 0.25], free=none),
                dict(n=7, wins=P, method=["MAD", 2.0]),
                dict(n=12, wins={"P": [3, 6, 9]}, noise=[2.0, 2.5, 4.0, 0.8], rate=50),
                dict(n=13, wins=PS, noise=[3.0, 3.5, 0.7])]
    return out


HARNESSES = [
    dict(name="picks", fn=picks, cases=cases, env=rig.time_env, subproc=True,
         expect=["threshold follows its definition", "no peak of two samples or more: no pick",
                 "the peak and one sample either side are fitted", "a Gaussian of that height, mean and width is fitted", "a pick outside its window is refused",
                 "pick time, error, height and residual come from the fit", "a failed fit gives no pick"],
         bounds="onsets of 6-13 samples, windows of 4-6 samples; arbitrary values in and next to the windows, or up to 4 arbitrary noise samples, "
                "both threshold methods, any result or failure of the fit"),
]
