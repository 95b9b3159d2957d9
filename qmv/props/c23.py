# -*- coding: utf-8 -*-
"""C23: resampling and shifting on to the sample grid."""

import numpy as np

from qmv.props.c10 import ctx_frac
from qmv.props.common import time_env, values
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "sampling rates divide the second into whole microseconds; exact real arithmetic",
    "resample harness: data on the sample grid of their own rate and of the up-sampled rate",
]
STUBS = [
    "Trace.detrend / taper / filter leave the data alone and are recorded (the filter itself is SciPy's)",
    "Trace.interpolate is ideal on a linear ramp when symbolic; the replay runs the real Lanczos code",
]


def _trace(ctx, start, data, rate, station="STA", channel="HHZ"):
    from obspy import Trace

    tr = Trace(data=values(ctx, data) if ctx.symbolic else np.array(data, dtype=float),
               header=dict(network="NW", station=station, channel=channel, starttime=start, sampling_rate=rate))
    return tr


def shift(ctx, rate, interpolate=False, n=64, traces=1, second=0):
    import obspy.core.trace as ot
    from obspy import Stream

    from quakemigrate.util import shift_to_sample

    f = ctx_frac(rate) if ctx.symbolic else 1.0 / rate
    saved = ot.Trace.interpolate

    def ideal(self, sampling_rate, method="weighted_average_slopes", starttime=None, npts=None, *a, **k):
        if "time_shift" in k:
            raise NotImplementedError
        off = (starttime - self.stats.starttime) * self.stats.sampling_rate
        if npts is None:
            npts = ctx.concretize(((self.stats.npts - 1) - off).floor().e) + 1
        d0 = self.data
        self.data = values(ctx, [d0[0] + (off + j) for j in range(npts)])
        self.stats.starttime = starttime
        return self

    st = Stream()
    starts = []
    for i in range(traces):
        us = ctx.int(f"microsecond{i}", 0, 999999)
        t = second + us / 1000000
        starts.append(t)
        st += _trace(ctx, at(ctx, t), [100.0 * i + j for j in range(n)], rate, station=f"ST{i}")
    if ctx.symbolic:
        ot.Trace.interpolate = ideal
    try:
        out = shift_to_sample(st, interpolate=interpolate)
    finally:
        ot.Trace.interpolate = saved
    ctx.check(len(out) == traces, "every trace is kept")
    for i in range(traces):
        tr = out.select(station=f"ST{i}")[0]
        d = sec(tr.stats.starttime) - starts[i]
        tol = f / 1000000 if ctx.symbolic else 2e-9
        ctx.check(ctx.all([d <= f / 2 + tol, d >= -f / 2 - tol]), "start moves by at most half a sample")
        g = sec(tr.stats.starttime) * rate
        k = (g + 0.5).floor() if ctx.symbolic else np.floor(g + 0.5)
        ctx.check(ctx.all([g - k <= 1e-5, k - g <= 1e-5]), "on the sample grid")
        ctx.check(tr.stats.npts == n and len(tr.data) == n, "number of samples")
        ctx.check(tr.stats.sampling_rate == rate, "sampling rate")
        if not interpolate:
            ctx.check(ctx.all([ctx.eq(tr.data[j], 100.0 * i + j) for j in range(n)]), "samples unchanged")
        else:
            # ramp of one per sample: the value at a time is that time
            tol = 1e-3 if ctx.symbolic else 0.15
            for j in range(n // 2 - 3, n // 2 + 3):
                e = tr.data[j] - (100.0 * i + j + d * rate)
                ctx.check(ctx.all([e <= tol, e >= -tol]), "interpolated samples keep the time of the signal")
            if bool(d * rate >= 0.001):  # moved later: nothing to interpolate the last sample from
                ctx.check(ctx.eq(tr.data[n - 1], tr.data[n - 2]), "the missing end sample repeats its neighbour")
            elif bool(d * rate <= -0.001):
                ctx.check(ctx.eq(tr.data[0], tr.data[1]), "the missing end sample repeats its neighbour")
        orig = st.select(station=f"ST{i}")[0]
        ctx.check(ctx.eq(sec(orig.stats.starttime), starts[i]) if ctx.symbolic
                  else abs(sec(orig.stats.starttime) - starts[i]) < 1e-6, "input left unchanged")


class Rec:
    """detrend / taper / filter recorded and left out."""

    def __enter__(self):
        import obspy.core.trace as ot

        self.T = ot.Trace
        self.saved = {n: getattr(ot.Trace, n) for n in ("detrend", "taper", "filter")}
        rec = self.filters = []

        def no(tr, *a, **k):
            return tr

        def filt(tr, type, **k):
            rec.append((tr.id, type, k, tr.stats.sampling_rate))
            return tr

        self.T.detrend = self.T.taper = no
        self.T.filter = filt
        return self

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(self.T, n, v)


def upsample(ctx, rate, up, n):
    from quakemigrate.util import upsample as fn

    f = ctx_frac(rate) if ctx.symbolic else 1.0 / rate
    fine = f / up
    lead, tail = ctx.int("lead", -2 * up, 2 * up), ctx.int("tail", -2 * up, 2 * up)
    t0 = 3600
    d = [ctx.real(f"v{i}", -9, 9) for i in range(n)]
    first = t0 + lead * fine
    last = first + (n - 1) * f
    end = last + tail * fine
    ctx.assume(end >= t0 + 0.5 * f)
    tr = _trace(ctx, at(ctx, first), [v * 1 for v in d], rate)
    out = fn(tr, up, at(ctx, t0), at(ctx, end))
    ctx.check(out.stats.sampling_rate == rate * up, "sampling rate multiplied")
    ctx.check(out.id == tr.id, "same channel")
    ctx.check(out.stats.npts == len(out.data), "header describes the data")
    # times are multiples of the fine sample: find the index of the first one
    lead_k = ctx.concretize(lead.e) if ctx.symbolic else int(lead)
    tail_k = ctx.concretize(tail.e) if ctx.symbolic else int(tail)
    lo = 0 if -1 * up < -lead_k < 0 or lead_k <= 0 else lead_k  # padded by less than one native sample
    N = lead_k + (n - 1) * up
    hi = N + tail_k if tail_k <= 0 or tail_k < up else N
    ctx.check(len(out.data) == max(0, hi - lo + 1), "every sample of the period, padded by less than one sample")
    if len(out.data) != max(0, hi - lo + 1) or hi < lo:
        return
    e = sec(out.stats.starttime) - (t0 + lo * fine)
    ctx.check(ctx.all([e < 1e-6, e > -1e-6]), "start time")
    for j in range(len(out.data)):
        k = lo + j - lead_k  # fine samples since the first original one
        if k <= 0:
            want = d[0]
        elif k >= (n - 1) * up:
            want = d[n - 1]
        else:
            q, r = divmod(k, up)
            want = d[q] if r == 0 else (d[q] * (up - r) + d[q + 1] * r) / up
        dv = out.data[j] - want
        ctx.check(ctx.all([dv < 1e-6, dv > -1e-6]),
                  "original samples, linear in between, end values repeated in the padding")
    ctx.check(len(tr.data) == n and tr.stats.sampling_rate == rate, "input left unchanged")


def stream(ctx, rates, target, resample, up, n=8, span=4, window=3):
    """resample() of a stream of traces of different rates: span in samples of the target rate."""
    from obspy import Stream

    import quakemigrate.util as util

    t0 = 3600
    f = ctx_frac(target) if ctx.symbolic else 1.0 / target
    end = t0 + span * f
    st = Stream()
    meta = {}
    for i, r in enumerate(rates):
        fi = ctx_frac(r) if ctx.symbolic else 1.0 / r
        m = n * max(1, r // target)
        k = ctx.int(f"lead{i}", -window, window)
        k = ctx.concretize(k.e) if ctx.symbolic else int(k)
        # start on the native grid
        tr = _trace(ctx, at(ctx, t0 + k * fi), [10.0 * (i + 1) + 0.37 * j + (j % 3) for j in range(m)], r,
                    station=f"ST{i}")
        st += tr
        meta[tr.id] = (r, k, list(tr.data), m)
    bad = [r for r in rates if r != target and r % target and resample and up and int(r * up) % target]
    with Rec() as rec:
        try:
            out = util.resample(st, target, resample, up, at(ctx, t0), at(ctx, end))
        except util.BadUpfactorException:
            ctx.check(bool(bad), "up-sampling is refused only if it cannot give the target rate")
            return
    ctx.check(not bad, "impossible up-sampling is refused")
    ctx.check(len({tr.id for tr in out}) == len(out) and {tr.id for tr in out} <= set(meta), "one trace per channel")
    for tid, (r, k, d, m) in meta.items():
        tr = [t for t in out if t.id == tid]
        ntv = [j for j in range(m) if 0 <= (k + j) * target <= span * r]  # native samples in the period
        if not tr:
            ctx.check(not ntv, "no channel is lost")
            continue
        tr = tr[0]
        rate = tr.stats.sampling_rate
        filt = [x for x in rec.filters if x[0] == tid]
        first = sec(tr.stats.starttime) - t0
        if r == target or (r % target and not (resample and up)):
            ctx.check(rate == r, "left at its own rate")
            ctx.check(not filt, "left unfiltered")
            want = [(k + j, d[j]) for j in ntv]  # in native samples
            grid = 1.0 / r
        else:
            ctx.check(rate == target, "brought to the target rate")
            ctx.check(any(x[1].startswith("lowpass") and x[2].get("zerophase") and
                          x[2].get("freq", 1e9) <= target / 2 and x[3] >= target for x in filt),
                      "zero-phase low-pass filter below the new Nyquist frequency")
            grid = 1.0 / target
            if r % target == 0:
                q = r // target
                want = [((k + j) / q, d[j]) for j in range(0, m, q) if 0 <= (k + j) * target <= span * r]
            else:
                fine = r * up
                lead = k * up  # first original sample, in fine samples
                N = lead + (m - 1) * up
                E = span * fine // target
                lo = 0 if lead < up else lead
                hi = E if N > E - up else N
                q = fine // target
                want = []
                for x in range(lo, hi + 1, q):
                    y = x - lead
                    if y <= 0:
                        v = d[0]
                    elif y >= (m - 1) * up:
                        v = d[-1]
                    else:
                        a, b = divmod(y, up)
                        v = d[a] if b == 0 else (d[a] * (up - b) + d[a + 1] * b) / up
                    want.append((x / q, v))
        ctx.check(len(tr.data) == len(want), "every sample of the period and none outside")
        if len(tr.data) != len(want):
            continue
        for j, (g, v) in enumerate(want):
            e = first + j / rate - g * grid
            ctx.check(abs(float(e)) < 1e-6, "time of each sample")
            ctx.check(abs(float(tr.data[j]) - v) < 1e-6, "value at that time")
    ctx.check(all(t.stats.sampling_rate == meta[t.id][0] and len(t.data) == meta[t.id][3] for t in st),
              "input left unchanged")


def cases(tier):
    rates = [100, 50, 250, 40] if tier == "quick" else [100, 50, 250, 40, 200, 20, 10, 125, 500, 1000, 25]
    out = [dict(rate=r, n=4) for r in rates] + [dict(rate=100, n=4, traces=2)]
    out += [dict(rate=r, interpolate=True) for r in rates]
    return out


def cases_u(tier):
    out = [dict(rate=40, up=5, n=3), dict(rate=25, up=2, n=4),
           dict(rate=20, up=3, n=2)]
    if tier == "thorough":
        out += [dict(rate=r, up=u, n=n) for r in (20, 40, 100, 250) for u in (2, 3, 4, 5) for n in (2, 5)]
    return out


def cases_s(tier):
    out = [
        dict(rates=[100, 50], target=50, resample=False, up=None),
        dict(rates=[100, 40, 50], target=50, resample=False, up=None),
        dict(rates=[40, 50], target=50, resample=True, up=5),
        dict(rates=[40, 100], target=50, resample=True, up=4),
        dict(rates=[25, 100], target=50, resample=True, up=2),
        dict(rates=[100, 40], target=50, resample=False, up=5),
        dict(rates=[200, 40], target=40, resample=True, up=None),
        dict(rates=[60, 50], target=40, resample=True, up=None, span=5),
        dict(rates=[200], target=50, resample=True, up=5),
    ]
    if tier == "thorough":
        out += [dict(rates=[a, b], target=50, resample=True, up=5, window=6, n=12, span=6)
                for a in (20, 40, 100, 250) for b in (50, 200, 10)]
    return out


HARNESSES = [
    dict(name="shift", fn=shift, cases=cases, env=time_env,
         expect=["start moves by at most half a sample", "on the sample grid", "samples unchanged",
                 "interpolated samples keep the time of the signal"],
         bounds="every microsecond and second of a day; 40-250 Hz (10-1000 Hz thorough), with and without interpolation"),
    dict(name="upsample", fn=upsample, cases=cases_u, env=time_env,
         expect=["original samples, linear in between, end values repeated in the padding",
                 "every sample of the period, padded by less than one sample"],
         bounds="<=4 samples (5 thorough) of any value in -9..9, up-sampling by 2-5, data starting and ending up to "
                "two samples before or after the period"),
    dict(name="stream", fn=stream, cases=cases_s, env=time_env, subproc=True,
         expect=["brought to the target rate", "left at its own rate", "value at that time",
                 "zero-phase low-pass filter below the new Nyquist frequency",
                 "impossible up-sampling is refused"],
         bounds="streams of <=3 channels with every combination of rates listed in the module, start up to three "
                "native samples before or after the period"),
]
