# -*- coding: utf-8 -*-
"""C14: candidates are merged into well-separated events."""

import numpy as np
import pandas as pd

from qmv.props.common import col, make_trigger, time_env
from qmv.symtime import at, digits, sec

ASSUMPTIONS = ["coalescence values and times are exact reals"]


def merge(ctx, m, used=False):
    mw = ctx.real("marginal_window", 0, 100)
    mei = ctx.real("min_event_interval", 0, 400)
    ctx.assume(mei >= 2 * mw)
    peak, first, last, coa, mn, mx = [], [], [], [], [], []
    prev = 100
    for i in range(m):
        f = ctx.real(f"first{i}", 0, 100000)
        p = ctx.real(f"peak{i}", 0, 100000)
        l = ctx.real(f"last{i}", 0, 100000)
        ctx.assume(ctx.all([f > prev, p >= f, l >= p]))
        prev = l
        peak.append(p), first.append(f), last.append(l)
        # the windows C13 specifies
        mn.append(ctx.ite(p - f < mw, p - mei, f - (mei - mw)))
        mx.append(ctx.ite(l - p < mw, p + mei, l + (mei - mw)))
        coa.append(ctx.real(f"coa{i}", 0, 1000))
    df = pd.DataFrame({
        "EventNum": list(range(m)), "CoaTime": col(ctx, [at(ctx, p) for p in peak]),
        "TRIG_COA": col(ctx, coa), "COA_X": col(ctx, [1.5 + i for i in range(m)]),
        "COA_Y": col(ctx, [2.5 + i for i in range(m)]),
        "COA_Z": col(ctx, [3.5 + i for i in range(m)]),
        "MinTime": col(ctx, [at(ctx, x) for x in mn]),
        "MaxTime": col(ctx, [at(ctx, x) for x in mx]),
        "COA": col(ctx, [50.5 + i for i in range(m)]),
        "COA_NORM": col(ctx, [70.5 + i for i in range(m)]),
    })
    if used:  # the trigger has been used before, with other settings
        t = make_trigger(marginal_window=0.5, min_event_interval=7.0)
        old = df.iloc[:1].copy()
        for k, x in dict(CoaTime=50, MinTime=43, MaxTime=57).items():
            old[k] = col(ctx, [at(ctx, x)])
        old["TRIG_COA"] = col(ctx, [2000.0])
        ctx.check(len(t._refine_candidates(old)) == 1, "one event per group of interacting candidates")
        t.marginal_window, t.min_event_interval = mw, mei
    else:
        t = make_trigger(marginal_window=mw, min_event_interval=mei)
    out = t._refine_candidates(df)
    groups = [[0]]
    for i in range(m - 1):
        apart = (mx[i] < peak[i + 1] - mw) & (mn[i + 1] > peak[i] + mw) if ctx.symbolic else (
            mx[i] < peak[i + 1] - mw and mn[i + 1] > peak[i] + mw)
        if bool(apart):
            groups.append([i + 1])
        else:
            groups[-1].append(i + 1)
    ctx.check(len(out) == len(groups), "one event per group of interacting candidates")
    rows = [r for _, r in out.iterrows()]
    for row, g in zip(rows, groups):
        k = int(round(float(row["COA_X"]) - 1.5))
        ctx.check(k in g, "event is one of the group's candidates")
        ctx.check(
            ctx.all([coa[k] >= coa[i] for i in g] + [coa[k] > coa[i] for i in g if i < k]),
            "event is the (first) strongest candidate",
        )
        ctx.check(
            ctx.all([ctx.eq(row["TRIG_COA"], coa[k]), ctx.eq(sec(row["CoaTime"]), peak[k]),
                     ctx.eq(row["COA_X"], 1.5 + k), ctx.eq(row["COA_Y"], 2.5 + k),
                     ctx.eq(row["COA_Z"], 3.5 + k), ctx.eq(row["COA"], 50.5 + k),
                     ctx.eq(row["COA_NORM"], 70.5 + k)]),
            "event carries its candidate's values",
        )
        ctx.check(ctx.eq(sec(row["MinTime"]), ctx.min([mn[i] for i in g])), "window start is the earliest")
        ctx.check(ctx.eq(sec(row["MaxTime"]), ctx.max([mx[i] for i in g])), "window end is the latest")
        uid = row["EventID"]
        ctx.check(isinstance(uid, str) and len(uid) == 17 and uid.isdigit()
                  and uid == digits(row["CoaTime"]), "identifier is made of the event's own time")
    for a, b in zip(rows, rows[1:]):
        ctx.check(
            ctx.le(mei, sec(b["CoaTime"]) - sec(a["CoaTime"])),
            "events are at least the minimum event interval apart",
        )


def cases(tier):
    out = [dict(m=m) for m in (1, 2, 3)] + [dict(m=2, used=True)]
    if tier == "thorough":
        out.append(dict(m=4))
    return out


HARNESSES = [
    dict(name="merge", fn=merge, cases=cases, env=time_env,
         expect=["one event per group of interacting candidates", "event is the (first) strongest candidate",
                 "events are at least the minimum event interval apart",
                 "identifier is made of the event's own time"],
         bounds="<=3 candidates (4 thorough) with any ordered run limits, peaks, strengths, any marginal "
                "window and minimum event interval"),
]
