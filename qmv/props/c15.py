# -*- coding: utf-8 -*-
"""C15: every triggered event is reported once, in its own day and region."""

import inspect

import numpy as np
import pandas as pd

from qmv.props.common import Obj, col, make_trigger, time_env
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "times are exact; event times are on the microsecond grid next to midnight",
    "the scan read back for a batch contains every event of the period (C11)",
]
STUBS = ["read_scanmseed returns the synthetic scan", "write_triggered_events records its arguments"]
DAY = 86400


def batches(ctx, nev, days, rate=50.0, region=False, plot=True, used=False):
    import quakemigrate.signal.trigger as tm

    start = ctx.real("start", 0, DAY * days)
    end = ctx.real("end", 0, DAY * days)
    ctx.assume(start < end)
    ev, prev = [], None
    for i in range(nev):
        e = ctx.real(f"event{i}", -100, DAY * days + 100)
        if prev is not None:
            ctx.assume(e > prev + 5)
        for d in range(days + 1):
            ctx.assume(ctx.not_(ctx.all([e > d * DAY - 0.000001, e < d * DAY])))
        ev.append(e)
        prev = e
    pos = [[1.25 + i, 2.25 + i, 3.25 + i] for i in range(nev)]
    box = None
    if region:
        pos = [[ctx.real(f"{c}{i}", -10, 10) for c in "xyz"] for i in range(nev)]
        box = [ctx.real(f"box{j}", -10, 10) for j in range(6)]
        ctx.assume(ctx.all([box[j] <= box[j + 3] for j in range(3)]))
    reads, writes, scan = [], [], (ev, pos)

    def read(run, s, e, pad, ucf):
        reads.append((s, e, pad, ucf))
        ev, pos = scan
        nev = len(ev)
        df = pd.DataFrame({
            "DT": col(ctx, [at(ctx, x) for x in ev]),
            "COA": col(ctx, [2.0 + i for i in range(nev)]),
            "COA_N": col(ctx, [3.0 + i for i in range(nev)]),
            "X": col(ctx, [p[0] for p in pos]), "Y": col(ctx, [p[1] for p in pos]),
            "Z": col(ctx, [p[2] for p in pos]),
        }, index=[10 * i for i in range(nev)])  # isolated samples: one candidate each
        return df, Obj(delta=1 / rate, sampling_rate=rate)

    def write(run, events, starttime, flag):
        for _, r in events.iterrows():
            writes.append((starttime, r))

    t = make_trigger(marginal_window=1.0, min_event_interval=2.0)
    saved = tm.read_scanmseed, tm.write_triggered_events, tm.trigger_summary
    sig, plots = inspect.signature(saved[2]), []

    def summary(*a, **k):
        got = sig.bind(*a, **k).arguments
        plots.append((len(reads), got))

    tm.read_scanmseed, tm.write_triggered_events, tm.trigger_summary = read, write, summary
    t.plot_trigger_summary = bool(plot)
    try:
        if used:  # the trigger has been used before, for another period and region and without a summary
            scan = ([DAY + 9.0, DAY + 90.0], [[0.5] * 3, [5.0] * 3])
            t.plot_trigger_summary, t.marginal_window, t.pad = not plot, 0.5, 3.0
            t.trigger(str(at(ctx, DAY)), str(at(ctx, DAY + 500)), region=[-1.0, -1.0, -1.0, 1.0, 1.0, 1.0])
            ctx.check([float(r["COA"]) for _, r in writes] == [2.0] and len(reads) == 1 and reads[0][2] == 3.0,
                      "an event outside the period or region is not written")
            reads.clear(), writes.clear(), plots.clear()
            t.plot_trigger_summary, t.marginal_window, t.pad, scan = bool(plot), 1.0, 10.0, (ev, pos)
        t.trigger(at(ctx, start), at(ctx, end), region=box)
    finally:
        tm.read_scanmseed, tm.write_triggered_events, tm.trigger_summary = saved
    ctx.check([n for n, _ in plots] == (list(range(1, len(reads) + 1)) if plot else []), "one summary per batch, if asked")
    for (s, e, _, _), (_, g) in zip(reads, plots):
        ctx.check(ctx.all([ctx.eq(sec(g["starttime"]), sec(s)), sec(g["endtime"]) <= sec(e),
                           sec(g["endtime"]) >= sec(e) - 2e-6]), "summary of the batch's own period")
        shown = [float(v) for v in g["events"]["COA"]] if len(g["events"]) else []
        ctx.check(shown == [float(r["COA"]) for w, r in writes if bool(ctx.eq(sec(w), sec(s)))],
                  "the summary shows the events written")
        other = [float(v) for v in g["discarded_events"]["COA"]] if len(g["discarded_events"]) else []
        ctx.check(sorted(shown + other) == [2.0 + i for i in range(nev)], "other events are shown as discarded")
    # the batches tile the period, one per UTC day
    edges = [(sec(s), sec(e)) for s, e, _, _ in reads]
    ctx.check(len(reads) >= 1, "at least one batch")
    ctx.check(ctx.eq(edges[0][0], start), "first batch starts at the start time")
    ctx.check(ctx.eq(edges[-1][1], end), "last batch ends at the end time")
    for a, b in zip(edges, edges[1:]):
        ctx.check(ctx.eq(a[1], b[0]), "batches follow each other")
    for (s, e), (_, _, pad, ucf) in zip(edges, reads):
        d = [k for k in range(days + 1) if bool(s >= k * DAY)][-1]
        ctx.check(ctx.all([s < e, e <= (d + 1) * DAY]), "a batch stays inside one day")
        ctx.check(pad == 10.0 and ucf == 1000.0, "pad and unit conversion handed on")
    for i in range(nev):
        mine = [(s, r) for s, r in writes if abs(float(r["COA"]) - 2.0 - i) < 0.25]
        inside = ctx.all([
            ev[i] >= start, ev[i] <= end,
            ctx.not_(ctx.any([ctx.all([ctx.eq(end, k * DAY), ctx.eq(ev[i], end)]) for k in range(days + 1)])),
        ])
        if region:
            inside = ctx.all([inside] + [pos[i][j] >= box[j] for j in range(3)]
                             + [pos[i][j] <= box[j + 3] for j in range(3)])
        if bool(inside):
            ctx.check(len(mine) == 1, "an event of the period is written exactly once")
            s, r = mine[0]
            ctx.check(ctx.eq(sec(r["CoaTime"]), ev[i]), "event keeps its time")
            d = [k for k in range(days + 1) if bool(ev[i] >= k * DAY)][-1]
            ctx.check(ctx.all([sec(s) >= d * DAY, sec(s) < (d + 1) * DAY]),
                      "an event is written by the batch of its own day")
        else:
            ctx.check(len(mine) == 0, "an event outside the period or region is not written")


def cases(tier):
    out = [dict(nev=1, days=2), dict(nev=1, days=1, region=True), dict(nev=2, days=2, rate=10.0, plot=False), dict(nev=1, days=1, used=True)]
    if tier == "thorough":
        out += [dict(nev=1, days=3), dict(nev=2, days=1, region=True), dict(nev=2, days=3, rate=1.0)]
    return out


HARNESSES = [
    dict(name="batches", fn=batches, cases=cases, env=time_env,
         expect=["an event of the period is written exactly once", "batches follow each other",
                 "an event is written by the batch of its own day",
                 "an event outside the period or region is not written"],
         bounds="any period within 2 days (3 thorough), <=2 events at any time and position, any region box"),
]
