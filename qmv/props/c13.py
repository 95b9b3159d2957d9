# -*- coding: utf-8 -*-
"""C13: one candidate per exceedance, at its peak, with the right window."""

import numpy as np
import pandas as pd

from qmv.props.common import col, make_trigger, time_env
from qmv.symtime import at, sec

ASSUMPTIONS = ["coalescence values and times are exact reals"]


def candidates(ctx, n, trigger_on, per_sample_threshold, dt=1.0, used=False):
    coa = [ctx.real(f"coa{i}", 0, 100) for i in range(n)]
    norm = [ctx.real(f"norm{i}", 0, 100) for i in range(n)] if trigger_on == "COA_N" else \
        [200.0 + 1.25 * i for i in range(n)]
    if per_sample_threshold:
        th = [ctx.real(f"th{i}", 0, 100) for i in range(n)]
    else:
        th = [ctx.real("th", 0, 100)] * n
    mw = ctx.real("marginal_window", 0, 1000)
    mei = ctx.real("min_event_interval", 0, 4000)
    ctx.assume(mei >= 2 * mw)
    times = [at(ctx, 1000 + i * dt) for i in range(n)]
    data = pd.DataFrame({
        "DT": col(ctx, times), "COA": col(ctx, coa), "COA_N": col(ctx, norm),
        "X": col(ctx, [10.5 + i for i in range(n)]), "Y": col(ctx, [-20.25 - i for i in range(n)]),
        "Z": col(ctx, [0.125 * i for i in range(n)]),
    })
    if used:  # the trigger has been used before, with other settings
        t = make_trigger(marginal_window=0.5, min_event_interval=7.0)
        old = pd.DataFrame({"DT": col(ctx, [at(ctx, 500 + i) for i in range(5)]), "COA": col(ctx, [3.0, 4.0, 1.0, 5.0, 2.0]),
                            "COA_N": col(ctx, [3.0, 1.0, 4.0, 5.0, 6.0]), "X": [1.0] * 5, "Y": [2.0] * 5, "Z": [3.0] * 5})
        ctx.check(len(t._identify_candidates(old, trigger_on, col(ctx, [2.5] * 5))) == 2, "one candidate per exceedance")
        t.marginal_window, t.min_event_interval = mw, mei
    else:
        t = make_trigger(marginal_window=mw, min_event_interval=mei)
    out = t._identify_candidates(data, trigger_on, col(ctx, th))
    on = coa if trigger_on == "COA" else norm
    above = [bool(on[i] >= th[i]) for i in range(n)]
    runs, cur = [], []
    for i in range(n):
        if above[i]:
            cur.append(i)
        elif cur:
            runs.append(cur)
            cur = []
    if cur:
        runs.append(cur)
    ctx.check(len(out) == len(runs), "one candidate per exceedance")
    for (_, row), r in zip(out.iterrows(), runs):
        k = round((sec(row["CoaTime"]) - 1000) / dt, 6)
        ctx.check(k == int(k) and int(k) in r, "candidate lies in its run")
        k = int(k)
        ctx.check(
            ctx.all([coa[k] >= coa[i] for i in r] + [coa[k] > coa[i] for i in r if i < k]),
            "candidate is at the (first) largest coalescence of the run",
        )
        ctx.check(
            ctx.all([ctx.eq(row["TRIG_COA"], on[k]), ctx.eq(row["COA"], coa[k]),
                     ctx.eq(row["COA_NORM"], norm[k]), ctx.eq(row["COA_X"], 10.5 + k),
                     ctx.eq(row["COA_Y"], -20.25 - k), ctx.eq(row["COA_Z"], 0.125 * k)]),
            "candidate carries its own sample's values",
        )
        tp, t0, t1 = 1000 + k * dt, 1000 + r[0] * dt, 1000 + r[-1] * dt
        want0 = ctx.ite(tp - t0 < mw, tp - mei, t0 - (mei - mw))
        want1 = ctx.ite(t1 - tp < mw, tp + mei, t1 + (mei - mw))
        ctx.check(ctx.eq(sec(row["MinTime"]), want0), "window start")
        ctx.check(ctx.eq(sec(row["MaxTime"]), want1), "window end")


def cases(tier):
    out = [dict(n=n, trigger_on=c, per_sample_threshold=p)
           for n, c, p in ((1, "COA", False), (2, "COA_N", True), (3, "COA", True),
                           (3, "COA_N", True), (4, "COA", False))]
    out.append(dict(n=3, trigger_on="COA", per_sample_threshold=False, dt=0.5))
    out.append(dict(n=3, trigger_on="COA_N", per_sample_threshold=False, used=True))
    if tier == "thorough":
        out += [dict(n=5, trigger_on="COA", per_sample_threshold=False),
                dict(n=4, trigger_on="COA_N", per_sample_threshold=True)]
    return out


HARNESSES = [
    dict(name="candidates", fn=candidates, cases=cases, env=time_env,
         expect=["one candidate per exceedance", "candidate carries its own sample's values",
                 "window start", "window end"],
         bounds="coalescence traces of <=4 samples (5 thorough), any values, any per-sample threshold, "
                "any marginal window and minimum event interval"),
]
