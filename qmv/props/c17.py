# -*- coding: utf-8 -*-
"""C17: origin time = coalescence peak; trimming to the marginal window."""

import numpy as np

from qmv.props.common import col, time_env
from qmv.symtime import at, digits, sec

ASSUMPTIONS = ["coalescence values and times are exact reals",
               "marginal window and sampling interval are such that the window edges fall on samples"]
STUBS = ["coordinates, normalised coalescence and the 4-D map carry fixed tags per sample (not branched on)"]


def _event(ctx, trig, mw):
    from quakemigrate.io.event import Event

    t = at(ctx, trig)
    return Event(mw, dict(EventID=digits(t), CoaTime=t, TRIG_COA=5.5, COA=6.5, COA_NORM=1.5))


def _sync(ctx, mw, rate, peak=None, others=0.0, nodes=(2, 1, 3)):
    n = int(round(4 * mw * rate)) + 1
    trig = ctx.real("trigger_time", 0, 86400 * 2)
    ev = _event(ctx, trig, mw)
    if peak is None:
        coa = [ctx.real(f"coa{i}", 0, 100) for i in range(n)]
    else:
        top = ctx.real("peak", 1, 100)
        coa = [top if i == peak else ctx.real(f"coa{i}", 0, 100) if abs(i - peak) <= 1 else 0.25 + 0.001 * i
               for i in range(n)]
    norm = [1000.0 + i for i in range(n)]
    coord = np.array([[10.0 + i, -20.0 - i, 0.5 * i] for i in range(n)])
    map4d = np.zeros(tuple(nodes) + (n,))
    for j in np.ndindex(*nodes):
        map4d[j] = [100.0 * j[0] + 10 * j[2] + 0.01 * i for i in range(n)]
    times = ev.mw_times(rate)
    ctx.check(len(times) == n, "one time per sample of the window")
    onset = object()
    ev.add_compute_output(times, col(ctx, coa), np.array(norm), coord, map4d.copy(), onset)
    return ev, trig, coa, norm, coord, map4d, n, onset


def trim(ctx, mw, rate, peak=None):
    ev, trig, coa, norm, coord, map4d, n, onset = _sync(ctx, mw, rate, peak)
    half = int(round(mw * rate))
    t0 = trig - 2 * mw
    k = (sec(ev.otime) - t0) * rate
    hits = [i for i in range(n) if bool(ctx.eq(k, float(i) if not ctx.symbolic else i, 1e-4))]
    ctx.check(len(hits) == 1, "origin time is a sample of the window")
    k = hits[0]
    ctx.check(ctx.all([coa[k] >= c for c in coa] + [coa[k] > c for c in coa[:k]]),
              "origin time is the (first) largest coalescence")
    ctx.check(ev.onset_data is onset, "onset data kept")
    inside = abs(k - 2 * half) < half
    got = ev.in_marginal_window()
    ctx.check(ctx.iff(got, inside), "kept exactly when the trigger time is within one marginal window")
    if not inside:
        return
    ev.trim2window()
    lo, hi = max(0, k - half), min(n - 1, k + half)
    want = list(range(lo, hi + 1))
    d = ev.coa_data
    ctx.check(len(d) == len(want) and list(d.index) == list(range(len(want))), "time series holds the marginal window")
    for r, i in enumerate(want):
        ctx.check(
            ctx.all([ctx.eq(sec(d["DT"].iloc[r]), t0 + (i * 1.0) / rate), ctx.eq(d["COA"].iloc[r], coa[i]),
                     d["COA_NORM"].iloc[r] == norm[i], d["X"].iloc[r] == coord[i][0],
                     d["Y"].iloc[r] == coord[i][1], d["Z"].iloc[r] == coord[i][2]]),
            "rows of the time series are the samples of the window")
    ctx.check(tuple(ev.map4d.shape) == map4d.shape[:3] + (len(want),), "map holds the same samples as the time series")
    ctx.check(bool(np.allclose(np.asarray(ev.map4d, dtype=float), map4d[..., lo:hi + 1])),
              "map samples are those of the window")
    ctx.check(ctx.eq(sec(ev.otime), t0 + (k * 1.0) / rate), "trimming leaves the origin time")
    m = ev.max_coalescence
    ctx.check(ctx.all([ctx.eq(sec(m["DT"]), sec(ev.otime)), ctx.eq(m["COA"], coa[k]), m["COA_NORM"] == norm[k]]),
              "reported coalescence is that of the origin time")


def cases(tier):
    out = [dict(mw=0.5, rate=4), dict(mw=1.0, rate=1), dict(mw=0.5, rate=2), dict(mw=0.25, rate=8)]
    for mw, rate in ((2.0, 10), (0.5, 50), (1.5, 20)):
        n = int(4 * mw * rate)
        h = int(mw * rate)
        for peak in (n // 2, n // 2 - h, n // 2 + h, n // 2 + h - 1, n // 2 - h + 1, 0, n):
            out.append(dict(mw=mw, rate=rate, peak=peak))
    if tier == "thorough":
        out += [dict(mw=1.0, rate=4), dict(mw=2.0, rate=2), dict(mw=1.5, rate=2)]
        out += [dict(mw=2.0, rate=10, peak=p) for p in range(0, 81, 3)]
    return out


HARNESSES = [
    dict(name="trim", fn=trim, cases=cases, env=time_env,
         expect=["origin time is the (first) largest coalescence", "map samples are those of the window",
                 "kept exactly when the trigger time is within one marginal window"],
         bounds="windows of 5-9 samples with arbitrary coalescence (17 thorough), and windows of 81-121 samples "
                "with an arbitrary peak neighbourhood; any trigger time"),
]
