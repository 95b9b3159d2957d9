# -*- coding: utf-8 -*-
"""C16: triggered events survive their files."""

import importlib
import pathlib
import shutil
import tempfile

import numpy as np
import pandas as pd

from qmv.props.common import Obj, col, time_env
from qmv.symtime import at, digits, sec

ASSUMPTIONS = [
    "times are exact (text form carries microseconds)",
    "locations and strengths are fixed tagged values with many digits: the code does not branch on them",
]
STUBS = ["real .csv files in a scratch directory"]
DAY = 86400
COLS = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]


def _frame(ctx, times, base):
    n = len(times)
    t = [at(ctx, x) for x in times]
    return pd.DataFrame({
        "EventNum": [i + 1 for i in range(n)],
        "CoaTime": col(ctx, t),
        "TRIG_COA": [1.2345678901 + base + i for i in range(n)],
        "COA_X": [-123.456789012 - base - i for i in range(n)],
        "COA_Y": [1e-7 * (base + i + 1) for i in range(n)],
        "COA_Z": [1234567.125 + base + i for i in range(n)],
        "MinTime": col(ctx, [x - 1.5 for x in t]),
        "MaxTime": col(ctx, [x + 2.5 for x in t]),
        "COA": [21.123456789 + base + i for i in range(n)],
        "COA_NORM": [3.987654321 + base + i for i in range(n)],
        "EventID": [digits(x) for x in t],
    })


def roundtrip(ctx, per_day, flags, rewrite=False, mode="period"):
    import quakemigrate.io.triggered_events as te

    te = importlib.reload(te)
    days = len(per_day)
    scratch = tempfile.mkdtemp(prefix="c16_")
    try:
        run = Obj(path=pathlib.Path(scratch), subname="sub", name="run")
        evs = []
        for d, n in enumerate(per_day):
            times = []
            for i in range(n):
                e = ctx.real(f"event{d}_{i}", d * DAY, (d + 1) * DAY)
                ctx.assume(e < (d + 1) * DAY - 0.000001)
                if times:
                    ctx.assume(e > times[-1] + 1)
                times.append(e)
            evs.append(times)
        # batches start anywhere in their day
        for d, n in enumerate(per_day):
            if n is None:
                continue
            s = ctx.real(f"batch{d}", d * DAY, (d + 1) * DAY - 1)
            if rewrite:
                old = _frame(ctx, evs[d][:1], 500)
                te.write_triggered_events(run, old, at(ctx, s), not flags[d])
            te.write_triggered_events(run, _frame(ctx, evs[d], 100 * d), at(ctx, s), flags[d])
        files = sorted(pathlib.Path(scratch).rglob("*_TriggeredEvents.csv"))
        ctx.check(len(files) == days, "one file per day")
        for f, fl in zip(files, flags):
            ctx.check(
                list(pd.read_csv(f, nrows=0).columns) == COLS + (["MinTime", "MaxTime"] if fl else []),
                "file has exactly the documented columns",
            )
        if mode == "file":
            got = te.read_triggered_events(run, trigger_file=files[0])
            s = e = None
            days_read = [0]
        else:
            s = ctx.real("start", 0, DAY * days)
            e = ctx.real("end", 0, DAY * days)
            ctx.assume(ctx.all([s <= e, s < DAY * days]))
            got = te.read_triggered_events(run, starttime=at(ctx, s), endtime=at(ctx, e))
            days_read = range(days)
        rows = [r for _, r in got.iterrows()]
        expected = 0
        for d in days_read:
            for i, t in enumerate(evs[d]):
                mine = [r for r in rows if abs(float(r["COA"]) - 21.123456789 - 100 * d - i) < 1e-3]
                inside = True
                if s is not None:
                    inside = ctx.all([t >= s, t <= e, ctx.not_(ctx.any(
                        [ctx.all([ctx.eq(e, k * DAY), ctx.eq(t, e)]) for k in range(days + 1)]))])
                if bool(inside):
                    expected += 1
                    ctx.check(len(mine) == 1, "an event of the period is read exactly once")
                    r = mine[0]
                    b = 100 * d + i
                    ctx.check(ctx.eq(sec(r["CoaTime"]), t), "time survives")
                    ctx.check(str(r["EventID"]) == digits(at(ctx, t)), "identifier survives")
                    ctx.check(
                        ctx.all([ctx.eq(r["TRIG_COA"], 1.2345678901 + b),
                                 ctx.eq(r["COA_X"], -123.456789012 - b),
                                 ctx.eq(r["COA_Y"] * 1e7, b + 1.0),
                                 ctx.eq(r["COA_Z"] * 1e-6, (1234567.125 + b) * 1e-6, 1e-9),
                                 ctx.eq(r["COA"], 21.123456789 + b),
                                 ctx.eq(r["COA_NORM"], 3.987654321 + b)]),
                        "location and strength survive")
                else:
                    ctx.check(len(mine) == 0, "an event outside the period is not read")
        ctx.check(len(rows) == expected, "nothing else is read")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def cases(tier):
    out = [
        dict(per_day=[1], flags=[False]),
        dict(per_day=[2], flags=[True]),
        dict(per_day=[1, 1], flags=[True, False]),
        dict(per_day=[1, 1], flags=[True, True]),
        dict(per_day=[2], flags=[False], rewrite=True),
        dict(per_day=[2], flags=[True], rewrite=True, mode="file"),
        dict(per_day=[2, 0], flags=[False, False]),
    ]
    if tier == "thorough":
        out += [dict(per_day=[1, 1, 1], flags=[False, True, False]), dict(per_day=[2, 2], flags=[True, True]),
                dict(per_day=[3], flags=[False])]
    return out


HARNESSES = [
    dict(name="roundtrip", fn=roundtrip, cases=cases, env=time_env, subproc=True,
         expect=["file has exactly the documented columns", "an event of the period is read exactly once",
                 "an event outside the period is not read", "time survives", "identifier survives"],
         bounds="<=2 day files (3 thorough) with <=2 events each at any time of their day, any read period, "
                "rewrites and both time-window settings"),
]
