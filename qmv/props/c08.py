# -*- coding: utf-8 -*-
"""C08: times of the located event's coalescence match the data that produced them."""

import shutil

import numpy as np

from qmv.props import rig
from qmv.props.c10 import ctx_frac
from qmv.props.c16 import _frame
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "times are exact; marginal windows and pads are whole samples",
    "onset values are fixed distinct tags (their arithmetic is the subject of C01/C02)",
    "axis harness: the product 4 x marginal window x rate is rounded as IEEE doubles do",
]
STUBS = ["archive, lookup table and onset function record / serve tags", "logging off",
         "the event is captured when its origin time is compared with the trigger time"]
DAY = 86400
NAMES = ["STA_P", "STB_P", "STA_S", "STB_S"]


def _tag(w, r, j):
    # distinct, non-monotonic
    return 1.5 + (j * 0.6180339887) % 1 + 0.1 * ((r + 1) * j * 0.414213562) % 1


def _av(w):
    return {"STA_P": 1, "STB_P": 0, "STA_S": 1, "STB_S": 0}


def locate(ctx, rate, mw, pads, events=1, cuts=None, tts=None, by_file=False):
    import pathlib

    import quakemigrate.io.triggered_events as te
    import quakemigrate.signal.scan as scan

    f = ctx_frac(rate) if ctx.symbolic else 1 / rate
    pre, post = pads
    n = int(round(4 * mw * rate)) + 1
    half = int(round(2 * mw * rate))
    scratch = rig.scratch_dir("c08")
    captured = []

    class Capture(scan.Event):
        def in_marginal_window(self, *a, **k):
            captured.append(self)
            return False

    saved = scan.Event
    scan.Event = Capture
    try:
        ts = []
        for i in range(events):
            t = ctx.real(f"trigger{i}", DAY, 2 * DAY - 1)
            if ts:
                ctx.assume(t > ts[-1] + 1)
            ts.append(t)
        ar = rig.Archive()
        onset = rig.make_onset(ctx, rate, (pre / rate, post / rate), _tag, _av)
        m = ctx.choose("traveltime", list(range(post + 1))) if tts is None else tts
        tt = {k: [m, (m + i) % (post + 1)] for i, k in enumerate(NAMES)}
        lut = rig.LUT(ctx, tt, post / rate)
        qs = scan.QuakeScan(ar, lut, onset, run_path=scratch, run_name="run", run_subname="sub",
                            marginal_window=mw, threads=1, picker=rig.make_picker(), plot_event_summary=False)
        if cuts:
            qs.pre_cut, qs.post_cut = cuts
        te.write_triggered_events(qs.run, _frame(ctx, ts, 0), at(ctx, DAY), False)
        # times may be given as text
        given = [str(t) if events == 1 else t for t in (at(ctx, DAY), at(ctx, 2 * DAY))]
        if by_file:
            (tf,) = pathlib.Path(scratch).rglob("*_TriggeredEvents.csv")
            qs.locate(trigger_file=tf)
        else:
            qs.locate(*given)
        ctx.check(len(captured) == events, "every triggered event is scanned")
        for i, (b, x, pa, pb) in enumerate(ar.requests):
            ctx.check(ctx.all([ctx.eq(sec(b), ts[i] - half * f - pre * f), ctx.eq(sec(x), ts[i] + half * f + post * f)]),
                      "request = two marginal windows either side of the trigger time plus the pads")
            want = [0, 0]
            if cuts:  # raw data must reach the cut of any origin time kept
                want = [max(0, cuts[0] - mw - pre / rate), max(0, cuts[1] - mw - post / rate)]
            ctx.check(pa >= want[0] - 1e-9 and pb >= want[1] - 1e-9, "raw data reach the cut-waveform span")
        for i, ev in enumerate(captured):
            d = ev.coa_data
            ctx.check(len(d) == n, "one time per coalescence sample")
            ctx.check(tuple(ev.map4d.shape) == (2, 1, 1, n), "one map sample per time")
            ctx.check(ctx.eq(sec(ev.trigger_time), ts[i]), "trigger time kept")
            best = None
            for j in range(n):
                nodes = [float(np.exp((np.log(_tag(i, 0, pre + j + tt["STA_P"][q])) +
                                       np.log(_tag(i, 2, pre + j + tt["STA_S"][q]))) / 2)) for q in range(2)]
                q = nodes.index(max(nodes))
                row = d.iloc[j]
                ctx.check(ctx.eq(sec(row["DT"]), ts[i] + (j - half) * f),
                          "the time axis runs two marginal windows either side of the trigger time")
                ctx.check(abs(float(row["COA"]) - nodes[q]) < 1e-9, "coalescence comes from the onsets at its time")
                ctx.check(abs(float(row["COA_NORM"]) - 2 * nodes[q] / sum(nodes)) < 1e-9 and
                          (row["X"], row["Y"], row["Z"]) == (10.0 + q, -5.0 - q, 0.5 * q),
                          "coordinates belong to the time")
                ctx.check(all(abs(float(ev.map4d[k, 0, 0, j]) - nodes[k]) < 1e-9 for k in range(2)),
                          "map sample belongs to the time")
                if best is None or nodes[q] > best[0] + 1e-9:
                    best = (nodes[q], j)
            ctx.check(ctx.eq(sec(ev.otime), ts[i] + (best[1] - half) * f), "origin time is that of the peak")
    finally:
        scan.Event = saved
        shutil.rmtree(scratch, ignore_errors=True)


class _T:
    """A trigger time of no interest."""

    def __sub__(self, o):
        return self

    __add__ = __sub__


def axis(ctx, rate, lo, hi, den):
    """The number of times equals the number of scanned samples for any marginal window."""
    from quakemigrate.io.event import Event

    k = ctx.decimal("marginal_window", lo, hi, den)  # k/den as a double
    if 4 * rate % den:  # only windows on the sample grid
        raise ValueError(rate)
    ev = Event(k, dict(EventID="0", CoaTime=_T(), TRIG_COA=1.0, COA=1.0, COA_NORM=1.0))
    seen = {}

    import quakemigrate.io.event as event

    class Trace:
        def __init__(self, data=None, header=None):
            seen.update(header)

        def times(self, *a, **kw):
            return None

    saved = event.Trace
    event.Trace = Trace
    try:
        ev.mw_times(rate)
    finally:
        event.Trace = saved
    want = k * float(4 * rate)
    npts = seen["npts"]
    ctx.check((npts - 1 - want < 0.25) & (want - npts + 1 < 0.25) if ctx.symbolic else abs(npts - 1 - want) < 0.25,
              "one time per scanned sample")


def cases(tier):
    out = [
        dict(rate=4, mw=0.5, pads=[1, 2]),
        dict(rate=4, mw=0.25, pads=[0, 1], events=2),
        dict(rate=50, mw=0.03, pads=[2, 2], tts=1, by_file=True),
        dict(rate=10, mw=0.3, pads=[3, 1], tts=0, events=2),
        dict(rate=2, mw=1.0, pads=[1, 1], cuts=[5.0, 7.5], tts=1),
        dict(rate=20, mw=0.1, pads=[1, 3], cuts=[0.1, 0.2], tts=2),
    ]
    if tier == "thorough":
        out += [dict(rate=r, mw=m, pads=[2, 3], events=2)
                for r, m in ((1, 1.0), (5, 0.6), (100, 0.04), (40, 0.1), (8, 1.5))]
    return out


def cases_a(tier):
    out, lo = [(1, 16)], 17
    top = 256 if tier == "quick" else 4096
    while lo < top:
        hi = 2 * (lo - 1)
        out.append((lo, hi))
        lo = hi + 1
    return [dict(rate=r, lo=a, hi=b, den=d) for r, d in (((100, 100), (50, 50), (50, 100)) if tier == "quick" else
            ((100, 100), (50, 50), (50, 100), (200, 100), (250, 1000), (20, 20))) for a, b in out
            if 4 * r % d == 0]


HARNESSES = [
    dict(name="locate", fn=locate, cases=cases, env=rig.scan_env, subproc=True,
         expect=["the time axis runs two marginal windows either side of the trigger time",
                 "coalescence comes from the onsets at its time", "map sample belongs to the time",
                 "origin time is that of the peak"],
         bounds="1-2 events at any time of a day, windows of 5-13 samples (25 thorough), pads <=3 samples, rates "
                "2-50 Hz, 2 onsets, 2 nodes, any traveltime within the post-pad"),
    dict(name="axis", fn=axis, cases=cases_a,
         expect=["one time per scanned sample"],
         bounds="marginal windows 0.01-2.56 s (40 s thorough) in steps of 1/100 or 1/50 s at 50 and 100 Hz, double rounding"),
]
