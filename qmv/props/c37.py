# -*- coding: utf-8 -*-
"""C37: the padding of the data read keeps tapered samples out of the results."""

import shutil

import numpy as np
import pandas as pd

from qmv.props import rig
from qmv.props.c06 import _value
from qmv.props.c10 import ctx_frac
from qmv.props.c16 import _frame
from qmv.props.common import Obj, core_env, time_env, values
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "exact real arithmetic; each STA is at least one sample long and no longer than its LTA",
    "the data read start and end at the request (C22); the taper is the 5 % of the samples at each end that ObsPy tapers",
]
STUBS = ["requests: the archive records what it is asked for; the onset function stops after its padding",
         "clean: detrend and filter leave the data alone, the taper multiplies the samples it covers by arbitrary factors"]
USES_IR = ["overlapping_sta_lta", "centred_sta_lta"]
DAY = 86400


def env():
    return rig.scan_env()


def clean_env():
    return time_env() + core_env()


def _probe(rate, windows, **k):
    import quakemigrate.util as util
    from quakemigrate.signal.onsets import STALTAOnset

    class Probe(STALTAOnset):
        seen = []

        def calculate_onsets(self, data, *a, **k):
            Probe.seen.append((a, k))
            raise util.DataAvailabilityException

    return Probe(sampling_rate=rate, sta_lta_windows=windows, phases=list(windows), **k)


def _windows(ctx, rate, phases, free=True):
    out = {}
    for p in phases:
        if free:
            sta, lta = ctx.real(f"sta_{p}", 1 / rate, 5), ctx.real(f"lta_{p}", 1 / rate, 60)
            ctx.assume(sta <= lta)
        else:
            sta, lta = {"P": (0.2, 1.0), "S": (0.5, 1.5)}[p]
        out[p] = [sta, lta]
    return out


def _room(ctx, rate, b, x, first, last, windows, tt, what):
    """Nothing between first and last (times of onset values) sees the taper of data read from b to x."""
    taper = 0.05 * ((x - b) + 1 / rate)
    lta = ctx.max([w[1] for w in windows.values()])
    sta = ctx.max([w[0] for w in windows.values()])
    h = 0.5 / rate + 1e-9
    ctx.check(first - b >= lta + taper + h, f"{what}: the LTA windows start after the tapered data")
    ctx.check(x - last >= tt + sta + taper + h, f"{what}: the STA windows of the last arrival end before the tapered data")


def _whole(ctx, v, rate, what):
    n = v * rate
    if ctx.symbolic:
        ctx.check(ctx.eq(n, ctx.f("floor", n + 0.5) if not hasattr(n, "floor") else (n + 0.5).floor()), what)
    else:
        ctx.check(abs(n - round(n)) < 1e-4, what)


def requests(ctx, stage, rate, phases=("P", "S"), span=2.0, free=True):
    import quakemigrate.io.triggered_events as te
    from quakemigrate.signal.scan import QuakeScan

    scratch = rig.scratch_dir("c37")
    try:
        # settings may be changed between the construction of the onset function and that of the scan
        windows = _windows(ctx, rate, phases, free)
        tt = ctx.real("max_traveltime", 0, 120)
        onset = _probe(rate, {p: [0.05, 0.1] for p in phases})
        type(onset).seen = []
        onset.post_pad = 5.0
        onset.pad(10.0)
        onset.sta_lta_windows = windows
        ar = rig.Archive()
        lut = rig.LUT(ctx, {}, tt)
        mw = ctx.real("marginal_window", 0.05, 20) if stage == "locate" else 2.0
        first = float(round(3 * span if span < 100 else span / 3))
        qs = QuakeScan(ar, lut, onset, run_path=scratch, run_name="run", run_subname="sub", timestep=first,
                       marginal_window=mw, threads=1, picker=rig.make_picker(), plot_event_summary=False)
        import obspy

        # the same scan is used again, with another timestep, in another stage, with another marginal window
        saved = obspy.Stream.write
        obspy.Stream.write = lambda *a, **k: None
        try:
            s = DAY + 3600
            qs.detect(at(ctx, s), at(ctx, s + first))
            t = [(s, s + first - 1 / rate)]
            if stage == "detect":
                qs.timestep = span
                qs.detect(at(ctx, s), at(ctx, s + span))
                t.append((s, s + span - 1 / rate))
        finally:
            obspy.Stream.write = saved
        if stage == "locate":
            trig = ctx.real("trigger", DAY + 3600, DAY + 7200)
            te.write_triggered_events(qs.run, _frame(ctx, [trig], 0), at(ctx, DAY), False)
            qs.locate(at(ctx, DAY), at(ctx, 2 * DAY))
            t.append((trig - 2 * mw, trig + 2 * mw))
            mw = qs.marginal_window = ctx.real("marginal_window_2", 0.05, 20)
            qs.locate(at(ctx, DAY), at(ctx, 2 * DAY))
            t.append((trig - 2 * mw, trig + 2 * mw))
        ctx.check(len(ar.requests) == len(t), "one request per window")
        for (b, x, pa, pb), (first, last) in zip(ar.requests, t):
            b, x = sec(b), sec(x)
            _whole(ctx, first - b, rate, "the padding before is a whole number of samples")
            _whole(ctx, x - last, rate, "the padding after is a whole number of samples")
            _room(ctx, rate, b, x, first, last, windows, tt, stage)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def picker(ctx, rate):
    """The picker says which part of the data was scanned."""
    from quakemigrate.io.event import Event
    from quakemigrate.signal.pickers import GaussianPicker
    import quakemigrate.util as util

    onset = _probe(rate, {"P": [0.2, 1.0]})
    type(onset).seen = []
    onset.post_pad = 3.0
    mw = ctx.real("marginal_window", 0.05, 20)
    ev = Event(mw, dict(EventID="20210101000000000", CoaTime=at(ctx, 0), TRIG_COA=5.0, COA=6.0, COA_NORM=1.5))
    ev.data = Obj(starttime=at(ctx, -10), endtime=at(ctx, 10))
    p = GaussianPicker(onset=onset)
    try:
        p.pick_phases(ev, Obj(fraction_tt=0.1), Obj())
    except util.DataAvailabilityException:
        pass
    ctx.check(len(onset.seen) == 1, "picking computes the onset functions once")
    a, k = onset.seen[0]
    got = k.get("timespan", a[0] if a else None)
    ctx.check(got is not None and ctx.eq(got, 4 * mw), "picking tells which part of the data was scanned")


class Edges:
    """Tapered samples are multiplied by arbitrary factors."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        import obspy.core.trace as ot

        self.T, ctx = ot.Trace, self.ctx
        self.saved = {n: getattr(ot.Trace, n) for n in ("detrend", "taper", "filter")}

        def taper(tr, max_percentage=None, type="hann", max_length=None, side="both", **k):
            n = len(tr.data)
            lens = [n // 2]
            if max_percentage is not None:
                lens.append(int(max_percentage * n))
            if max_length is not None:
                lens.append(int(max_length * tr.stats.sampling_rate))
            w = min(lens)
            f = [1.0] * n
            for i in range(w):
                if side != "right":
                    f[i] = self.factor(tr, i)
                if side != "left":
                    f[n - 1 - i] = self.factor(tr, -1 - i)
            tr.data = values(ctx, [a * b for a, b in zip(list(tr.data), f)])
            return tr

        self.made = {}
        self.T.detrend = self.T.filter = lambda tr, *a, **k: tr
        self.T.taper = taper
        return self

    def factor(self, tr, i):
        n = f"taper_{tr.id}_{i}"
        if n not in self.made:
            self.made[n] = self.ctx.real(n, 0.1, 1)
        return self.made[n]

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(self.T, n, v)


def clean(ctx, rate, m, tt, windows, position="classic", backend=False, scanned=False, counts=None, transform="abs"):
    """m samples scanned, largest traveltime of tt samples"""
    from obspy import Stream, Trace

    import quakemigrate.core as core
    from quakemigrate.io.data import WaveformData
    from quakemigrate.signal.onsets import STALTAOnset

    f = ctx_frac(rate) if ctx.symbolic else 1.0 / rate
    t0 = 3600
    on = STALTAOnset(position=position, sampling_rate=rate, phases=list(windows), use_python_backend=backend,
                     signal_transform=transform, min_onset_value=0.02, sta_lta_windows=windows,
                     bandpass_filters={p: [0.1, 0.4, 2] for p in windows})
    on.post_pad = tt / rate
    pre, post = [int(round(float(v) * rate)) for v in on.pad((m - 1) / rate)]
    n = pre + m + post
    d = WaveformData(at(ctx, t0), at(ctx, t0 + (n - 1) * f), stations=pd.Series(["STA"], name="Name"))
    chans = [c for c in ("HHZ", "HHN", "HHE") if (c == "HHZ" and "P" in windows) or (c != "HHZ" and "S" in windows)]
    vals = {c: [_value("STA", c, j) for j in range(n)] for c in chans}
    d.waveforms = Stream([Trace(data=np.array(vals[c]), header=dict(network="NW", station="STA", channel=c,
                         sampling_rate=rate, starttime=at(ctx, t0))) for c in chans])
    with Edges(ctx) as edges:
        got, od = on.calculate_onsets(d, timespan=(m - 1) / rate) if scanned else on.calculate_onsets(d)
        w = int(0.05 * n)
        ctx.check(w > 0 and len(edges.made) == 2 * w * len(chans), "the ends of the data are tapered, and nothing else")
    kernel = core.overlapping_sta_lta if position == "classic" else core.centred_sta_lta
    for r, p in enumerate(windows):
        nsta, nlta = [int(round(x * rate)) + 1 for x in windows[p]]
        cs = [c for c in chans if (c == "HHZ") == (p == "P")]
        ref = [kernel(np.array([v if transform == "abs" else v * v for v in vals[c]], dtype=float), nsta, nlta)
               for c in cs]
        for j in range(pre, pre + m + tt):
            sq = sum(o[j] * o[j] for o in ref) / len(ref)
            e = got[r][j] * got[r][j] - sq
            ctx.check(ctx.all([e < 1e-6, e > -1e-6]), "scanned onset values do not depend on the taper")
        if scanned:
            for j in list(range(pre)) + list(range(pre + m + tt, n)):
                back = nlta - 1
                ahead = nsta - 1 if position == "centred" else 0
                if j - back < w or j + ahead > n - 1 - w:
                    ctx.check(ctx.eq(got[r][j], 1.0), "values that see the taper are set to one for picking")


def cases_r(tier):
    out = [dict(stage=s, rate=r) for s in ("detect", "locate") for r in (1, 50)]
    out += [dict(stage="detect", rate=12.5, span=0.8), dict(stage="detect", rate=100, span=300.0),
            dict(stage="locate", rate=10, phases=["S"]), dict(stage="detect", rate=20, phases=["P"], span=60.0)]
    if tier == "thorough":
        out += [dict(stage=s, rate=r, span=x) for s in ("detect", "locate") for r in (2, 5, 12.5, 40, 250)
                for x in (4.0, 120.0)]
    return out


def cases_c(tier):
    W = {"P": [0.1, 0.3]}
    B = {"P": [0.2, 0.3], "S": [0.1, 0.5]}
    out = [dict(rate=10, m=m, tt=t, windows=w, position=p, backend=b, scanned=s)
           for (m, t, w, p, b, s) in ((5, 3, W, "classic", False, False), (5, 3, W, "centred", False, False),
                                      (12, 10, B, "classic", False, False), (7, 0, B, "centred", True, False),
                                      (5, 3, W, "classic", True, True), (9, 4, B, "classic", False, True),
                                      (6, 2, B, "centred", False, True))]
    out += [dict(rate=2, m=23, tt=2, windows={"P": [0.5, 1.0]}, position=p, scanned=True) for p in ("classic", "centred")]
    if tier == "thorough":
        out += [dict(rate=r, m=m, tt=t, windows=B, position=p, scanned=s) for r in (10, 20) for m in (3, 20) for t in (0, 15)
                for p in ("classic", "centred") for s in (False, True)]
    return out


HARNESSES = [
    dict(name="requests", fn=requests, cases=cases_r, env=env, subproc=True,
         expect=["detect: the LTA windows start after the tapered data",
                 "locate: the STA windows of the last arrival end before the tapered data",
                 "the padding before is a whole number of samples", "the padding after is a whole number of samples"],
         bounds="any STA up to 5 s and LTA up to 60 s for each phase, any largest traveltime up to 120 s, any marginal window "
                "0.05-20 s, timesteps 0.8-300 s, 1-100 Hz (250 Hz thorough)"),
    dict(name="picker", fn=picker, cases=lambda tier: [dict(rate=r) for r in (10, 50)], env=env, subproc=True,
         expect=["picking tells which part of the data was scanned"], bounds="any marginal window 0.05-20 s"),
    dict(name="clean", fn=clean, cases=cases_c, env=clean_env, subproc=True,
         expect=["scanned onset values do not depend on the taper", "values that see the taper are set to one for picking"],
         bounds="3 components of <=70 samples, classic and centred, native and Python; arbitrary factors on every tapered sample"),
]
