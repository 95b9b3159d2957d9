# -*- coding: utf-8 -*-
"""C21: channel availability."""

import numpy as np

from qmv.props.common import time_env, values
from qmv.symtime import at

ASSUMPTIONS = [
    "segments start on a common sampling grid (any offset, in whole samples)",
    "length harness: span and product rounded as IEEE doubles",
]
STUBS = []


def _trace(ctx, cha, start, data, rate):
    from obspy import Trace

    return Trace(data=values(ctx, data), header=dict(network="NW", station="STA", channel=cha,
                                                      starttime=start, sampling_rate=rate))


def segments(ctx, layout, opts, want_rate=4, span=3, rates=None):
    """layout: {channel: [npts of each segment]}"""
    from obspy import Stream
    from quakemigrate.io.data import WaveformData

    rate = 4
    t0 = ctx.real("request_start", 0, 86400)
    wd = WaveformData(at(ctx, t0), at(ctx, t0 + (span * 1.0) / rate), stations=["STA"])
    st = Stream()
    ok = {}
    for c, segs in layout.items():
        segm = []
        srates = (rates or {}).get(c, [rate] * len(segs))
        for s, npts in enumerate(segs):
            off = ctx.int(f"{c}_start{s}", -3, 6)
            vals = [ctx.int(f"{c}_v{s}_{i}", -2, 2) for i in range(npts)]
            data = [v * 1 for v in vals] if ctx.symbolic else [float(v) for v in vals]
            st += _trace(ctx, c, at(ctx, t0 + off / 4), data, srates[s])
            segm.append((off, npts, ctx.all([ctx.eq(v, vals[0]) for v in vals]), srates[s]))
        # expected
        conds = [ctx.not_(f) for _, _, f, _ in segm]
        if len(segm) == 2:
            (a, n, _, _), (b, m, _, _) = segm
            touch_ab, touch_ba = ctx.eq(a + n, b), ctx.eq(b + m, a)
            gap = ctx.any([a + n < b, b + m < a])
            overlap = ctx.not_(ctx.any([touch_ab, touch_ba, gap]))
            conds.append(ctx.not_(overlap))
            if not opts.get("allow_gaps"):
                conds.append(ctx.not_(gap))
            if opts.get("full_timespan", True) or opts.get("check_start_end_times"):
                conds.append(False)
        if opts.get("check_sampling_rate"):
            conds += [r == want_rate for r in srates]
        if len(segm) == 1:
            (a, n, _, _) = segm[0]
            if opts.get("full_timespan", True):
                conds.append(n >= span * srates[0] / 4 + 1)
            if opts.get("check_start_end_times"):
                conds += [ctx.eq(a, 0), a + n - 1 == span]
        ok[f"NW.STA..{c}"] = ctx.all(conds)
    k = dict(opts)
    if k.get("check_sampling_rate"):
        k["sampling_rate"] = want_rate
    got, per = wd.check_availability(st, **k)
    ctx.check(set(per) == set(ok), "one entry per channel")
    for i in ok:
        ctx.check(ctx.iff(per[i] == 1, ok[i]), "channel available exactly when it is complete and healthy")
        ctx.check(per[i] in (0, 1), "availability is 0 or 1")
    vals = list(ok.values())
    if opts.get("all_channels"):
        want = ctx.all(vals + [len(vals) == opts["n_channels"]]) if vals else False
    else:
        want = ctx.any(vals) if vals else False
    ctx.check(ctx.iff(got == 1, want), "overall answer")
    ctx.check(got in (0, 1), "overall answer is 0 or 1")


class _T:
    """Request times whose difference is a double."""

    def __init__(self, v):
        self.v = v

    def __sub__(self, o):
        return self.v


def length(ctx, rate, lo, hi):
    """A complete record is accepted, one sample less is not, for any duration."""
    from obspy import Stream
    from quakemigrate.io.data import WaveformData

    n = ctx.decimal("n", lo, hi, 1)
    span = n / float(rate)
    for extra in (1, 0):
        tr = _trace(ctx, "HHZ", at(ctx, 0), [0.0, 1.0], rate)
        tr.stats.__dict__["npts"] = n + extra
        wd = WaveformData(_T(span), _T(span), stations=["STA"])
        got, _ = wd.check_availability(Stream([tr]))
        if extra:
            ctx.check(got == 1, "a record with every sample of the span is complete")
        else:
            ctx.check(got == 0, "a record one sample short is not complete")


def cases(tier):
    G = dict(allow_gaps=True, full_timespan=False)
    out = [
        dict(layout={}, opts={}),
        dict(layout={"HHZ": [4]}, opts={}),
        dict(layout={"HHZ": [3]}, opts={}),
        dict(layout={"HHZ": [4]}, opts=dict(check_start_end_times=True)),
        dict(layout={"HHZ": [2]}, opts=dict(check_start_end_times=True, full_timespan=False), span=1),
        dict(layout={"HHZ": [3]}, opts=dict(full_timespan=False)),
        dict(layout={"HHZ": [2, 2]}, opts=dict(full_timespan=False)),
        dict(layout={"HHZ": [2, 3]}, opts=G),
        dict(layout={"HHZ": [3, 2]}, opts=dict(allow_gaps=True)),
        dict(layout={"HHZ": [4, 2]}, opts=dict(allow_gaps=True)),
        dict(layout={"HHZ": [4], "HHN": [4]}, opts=dict(all_channels=True, n_channels=2)),
        dict(layout={"HHZ": [4], "HHN": [2]}, opts=dict(all_channels=True, n_channels=2)),
        dict(layout={"HHZ": [4]}, opts=dict(all_channels=True, n_channels=2)),
        dict(layout={"HHE": [4], "HHN": [2, 2]}, opts=dict(allow_gaps=True, full_timespan=False)),
        dict(layout={"HHE": [2], "HHN": [4]}, opts={}),
        dict(layout={"HHE": [2], "HHN": [2]}, opts=dict(check_start_end_times=True, full_timespan=False), span=1),
        dict(layout={"HHE": [1, 2], "HHN": [2]}, opts=dict(check_start_end_times=True, full_timespan=False, allow_gaps=True), span=1),
        dict(layout={"HHE": [2, 2], "HHN": [2]}, opts=dict(allow_gaps=True, full_timespan=False, all_channels=True, n_channels=2)),
        dict(layout={"HHZ": [4]}, opts=dict(check_sampling_rate=True)),
        dict(layout={"HHZ": [7]}, opts=dict(check_sampling_rate=True), rates={"HHZ": [8]}),
        dict(layout={"HHE": [7], "HHN": [4]}, opts=dict(check_sampling_rate=True), rates={"HHE": [8]}),
        dict(layout={"HHE": [7], "HHN": [4]}, opts=dict(check_sampling_rate=True, all_channels=True, n_channels=2), rates={"HHE": [8]}),
        dict(layout={"HHE": [3], "HHN": [4]}, opts=dict(n_channels=1)),
        dict(layout={"HHZ": [2, 2]}, opts=dict(check_sampling_rate=True, **G), rates={"HHZ": [4, 8]}),
        dict(layout={"HHZ": [2, 2]}, opts=dict(check_sampling_rate=True, **G), rates={"HHZ": [8, 4]}),
    ]
    if tier == "thorough":
        out += [dict(layout={"HHZ": [3, 3]}, opts=G), dict(layout={"HHE": [2, 2], "HHN": [2, 2]}, opts=G),
                dict(layout={"HHE": [4], "HHN": [4], "HHZ": [4]}, opts=dict(all_channels=True, n_channels=3))]
    return out


def cases_l(tier):
    out, lo = [(1, 16)], 16
    top = 1024 if tier == "quick" else 32768
    while lo < top:
        out.append((lo, 2 * lo - 1))
        lo *= 2
    return [dict(rate=r, lo=a, hi=b) for r in ((50, 100) if tier == "quick" else (20, 40, 50, 100, 200, 250))
            for a, b in out]


HARNESSES = [
    dict(name="segments", fn=segments, cases=cases, env=time_env,
         expect=["channel available exactly when it is complete and healthy", "overall answer"],
         bounds="<=2 channels (3 thorough) with <=2 segments of <=4 samples, any segment starts within 9 samples, "
                "any sample values in -2..2, every option combination listed in the module"),
    dict(name="length", fn=length, cases=cases_l, env=time_env,
         expect=["a record with every sample of the span is complete", "a record one sample short is not complete"],
         bounds="spans of 1-1023 samples (1-32767 thorough) at 50 and 100 Hz (20-250 Hz thorough), double rounding"),
]
