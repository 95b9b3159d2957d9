# -*- coding: utf-8 -*-
"""C28: amplitude windows and measurements."""

import itertools
from fractions import Fraction
from math import ceil

import numpy as np

from qmv.props import pickrig
from qmv.props.common import Obj, time_env, values
from qmv.sym import is_sym
from qmv.symtime import at, sec

ASSUMPTIONS = ["times are exact reals; window limits within 0.1 % of a half sample are left open",
               "neighbouring samples of a detrended window differ (all of them with a prominence filter)"]
STUBS = ["get_wa_waveform returns the trace (or fails): the instrument correction is ObsPy's",
         "scipy's find_peaks and linear detrend are modelled for symbolic samples; the lookup table serves arbitrary "
         "traveltimes"]


# ------------------------------------------------------------------ models of scipy functions
def _peaks(x):
    """Strict local maxima, middle of plateaus."""
    out, i, n = [], 1, len(x)
    while i < n - 1:
        if bool(x[i - 1] < x[i]):
            j = i + 1
            while j < n - 1 and bool(x[j] == x[i]):
                j += 1
            if bool(x[j] < x[i]):
                out.append((i + j - 1) // 2)
            i = j
        else:
            i += 1
    return out


def _prominence(x, p):
    base = []
    for step in (-1, 1):
        lo, k = x[p], p
        while 0 <= k < len(x) and bool(x[k] <= x[p]):
            lo = x[k] if bool(x[k] < lo) else lo
            k += step
        base.append(lo)
    return x[p] - (base[0] if bool(base[0] >= base[1]) else base[1])


def _detrended(x):
    """Minus the least-squares line, exactly."""
    n = len(x)
    if n == 1:
        return [x[0] * 0]
    t = [Fraction(2 * k - n + 1, 2) for k in range(n)]
    tt = sum(a * a for a in t)
    out = []
    mean = sum(x) / n if not any(is_sym(v) for v in x) else sum(x) * Fraction(1, n)
    slope = sum(v * float(a) for v, a in zip(x, t)) / float(tt) if not any(is_sym(v) for v in x) else sum(
        v * a for v, a in zip(x, t)) * (1 / tt)
    for v, a in zip(x, t):
        out.append(v - mean - slope * (a if is_sym(slope) else float(a)))
    return out


def env():
    import obspy.core.trace as ot
    import scipy.signal as ss

    import quakemigrate.signal.local_mag.amplitude as A

    fp, dt = ss.find_peaks, ot.Trace.detrend

    def find_peaks(x, height=None, prominence=None, **k):
        x = list(np.asarray(x, dtype=object))
        if not any(is_sym(v) for v in x) and not is_sym(prominence):
            return fp(np.asarray(x, dtype=float), height=height, prominence=prominence, **k)
        assert height is None and not k, "find_peaks options"
        p = _peaks(x)
        if prominence is not None:
            p = [i for i in p if bool(_prominence(x, i) >= prominence)]
        return np.array(p, dtype=int), {}

    def detrend(self, type="simple", **k):
        if type != "linear" or not any(is_sym(v) for v in self.data):
            if self.data.dtype == object:
                self.data = np.asarray(self.data, dtype=float)
            return dt(self, type, **k)
        v = _detrended(list(self.data))
        a = np.empty(len(v), dtype=object)
        a[:] = v
        from qmv.npsym import SymArray

        self.data = a.view(SymArray)
        return self

    out = [(ot.Trace, "detrend", detrend), (ss, "find_peaks", find_peaks)]
    if hasattr(A, "find_peaks"):
        out.append((A, "find_peaks", find_peaks))
    return time_env() + out


# ------------------------------------------------------------------ rig
CORNER = np.array([-21.0, 59.5, 0.5])


class LUT(pickrig.LUT):
    def __init__(self, tt, fraction, longest, names, ucf=1000.0, node=None):
        import pandas as pd

        self.tt, self.fraction_tt, self.max_traveltime = tt, fraction, longest
        self.unit_conversion_factor = ucf
        self.phases = ["P", "S"]
        self.station_data = pd.DataFrame(dict(
            Name=names, Latitude=[60.0 + 0.1 * k for k in range(len(names))],
            Longitude=[-20.0 + 0.2 * k for k in range(len(names))], Elevation=[-0.3 + 0.2 * k for k in range(len(names))]))
        self.names = names
        self.node = self.index2coord([-20.1, 60.05, 4.0], inverse=True)[0] if node is None else node

    def index2coord(self, value, inverse=False, unravel=False):
        v = np.asarray(value, dtype=float).reshape(-1, 3)
        return np.rint((v - CORNER) / 0.01).astype(int) if inverse else CORNER + v * 0.01

    def traveltime_to(self, phase, ijk, station=None):
        if phase not in self.phases:
            raise KeyError(phase)
        off = 0 if np.array_equal(np.asarray(ijk, dtype=float).reshape(-1), self.node) else 3  # elsewhere: later
        out = [self.tt[s][phase] + off for s in self.names]
        return out[self.names.index(station)] if station is not None else np.array(out, dtype=object if any(
            is_sym(v) for v in out) else float)


def whole(ctx, x):
    """nearest integer, kept away from half-way"""
    k = (x + 0.5).floor() if is_sym(x) else np.floor(x + 0.5)
    ctx.assume(ctx.all([x - k <= 0.499, x - k >= -0.499]))
    return int(ctx.concretize(k.e)) if is_sym(k) else int(k)


def wiggle(k, seed=0):
    return float(((k * k * 37 + 11 * k + 53 * seed) % 101) - 50) / 7.0 + 0.05 * k + (k * 7919 % 1009) / 1e4


def near(ctx, a, b, tol=1e-6):
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return abs(a - b) <= tol * (1 + abs(b))
    d = a - b
    return ctx.all([d <= tol, d >= -tol])


def isnan(x):
    return x is None or (not is_sym(x) and x != x)


def p2t(ctx, x, most=0.0):
    """all (difference, index sum) of adjacent peaks and troughs"""
    lim = 0.0
    if most:
        big = abs(x[0])
        for v in x[1:]:
            big = ctx.ite(abs(v) > big, abs(v), big)
        lim = most * big
    ex = []
    for i in range(1, len(x) - 1):
        if bool(ctx.all([x[i] > x[i - 1], x[i] > x[i + 1]])):
            if not most or bool(_prominence(x, i) >= lim):
                ex.append((i, 1))
        elif bool(ctx.all([x[i] < x[i - 1], x[i] < x[i + 1]])):
            if not most or bool(_prominence([-v for v in x], i) >= lim):
                ex.append((i, -1))
    out = []
    for (i, a), (j, b) in zip(ex, ex[1:]):
        assert a != b, "extremes alternate"
        out.append(((x[i] - x[j]) * a, i, j))
    return out


def average(x, how):
    x = np.asarray(x, dtype=float)
    if how == "RMS":
        return 1000.0 * float(np.sqrt((x**2).sum() / len(x)))
    if how == "STD":
        return 1000.0 * float(np.sqrt(((x - x.mean()) ** 2).sum() / len(x)))
    from scipy.signal import hilbert

    return 1000.0 * float(np.abs(hilbert(x)).sum() / len(x))


def check_window(ctx, row, phase, x, k0, start, rate, how, label, gain=None, most=0.0):
    """row: the table's row; x: detrended samples of the window, k0 the index of the first"""
    pairs = p2t(ctx, x, most) if len(x) else []
    if not pairs:
        ctx.check(all(isnan(row[f"{phase}_{n}"]) for n in ("amp", "freq", "time")), f"{label}: nothing to measure")
        return
    amp, freq, when = row[f"{phase}_amp"], row[f"{phase}_freq"], row[f"{phase}_time"]
    ctx.check(not isnan(amp), f"{label}: measured")
    g = 1.0
    if gain is not None:
        g = gain(freq)
        ctx.check(near(ctx, row[f"{phase}_filter_gain"], g), f"{label}: gain of the filter at the measured frequency")
    for d, i, j in pairs:
        ctx.check(amp * g * 2 / 1000 >= d - 1e-6, f"{label}: no adjacent peak and trough differ by more")
    hit = []
    for d, i, j in pairs:
        t = start + Fraction(2 * k0 + i + j, 2) / rate if ctx.symbolic else start + (k0 + (i + j) / 2) / rate
        e = sec(when) - t
        hit.append(ctx.all([near(ctx, amp * g * 2 / 1000, d), e <= 1e-5, e >= -1e-5, near(ctx, freq, rate / (2.0 * (j - i)))]))
    ctx.check(ctx.any(hit), f"{label}: half the difference in mm, at its mid time and frequency")
    if how:
        ctx.check(near(ctx, row[f"{phase}_avg_amp"] * g, average(x, how)), f"{label}: average amplitude")


def trace(sta, cha, rate, start, data):
    from obspy import Trace

    tr = Trace(header=dict(network="NW", station=sta, channel=cha, sampling_rate=rate, starttime=start))
    tr.data = data
    return tr


class Data:
    def __init__(self, st, missing, bad):
        self.raw_waveforms, self.missing, self.bad = st, missing, bad
        self.asked = []

    def get_wa_waveform(self, tr, velocity=False, **k):
        import quakemigrate.util as util

        key = f"{tr.stats.station}.{tr.stats.channel}"
        if key in self.missing:
            raise util.ResponseNotFoundError("none", tr.id)
        if key in self.bad:
            raise util.ResponseRemovalError("bad", tr.id)
        self.asked.append((key, velocity))
        out = tr.copy()
        return out


def event(ctx, mw, ot, picks, data):
    import pandas as pd

    ev = pickrig.event(ctx, mw, at(ctx, ot))
    ev.locations = {"spline": {"X": -20.1, "Y": 60.05, "Z": 4.0}, "gaussian": {"X": -20.3, "Y": 60.02, "Z": 5.0},
                    "covariance": {"X": -20.2, "Y": 60.03, "Z": 6.0}}
    rows = []
    for (s, p), t in picks.items():
        rows.append(dict(Station=s, Phase=p, ModelledTime=at(ctx, ot), PickTime=-1 if t is None else at(ctx, t),
                         PickError=-1, SNR=-1))
    ev.picks = {"df": pd.DataFrame(rows, columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR"],
                                   dtype=object)}
    ev.data = data
    return ev


def windows(ctx, rate=5, names=("STA",), sym=("P", "S"), picks=(), none=(), lost=(), params=None, mw=0.4, fr=0.1,
            base=None, missing=(), bad=(), short=None, filt=None, ucf=1000.0, gap=None, n=None, used=False):
    """sym: the symbolic times ('ot', 'P', 'S': traveltimes; 'pP', 'pS': picks)
    picks: phases that are picked; none: tried without success; lost: phases without an onset"""
    from obspy.geodetics.base import gps2dist_azimuth
    from obspy import Stream

    from quakemigrate.signal.local_mag.amplitude import Amplitude

    params = dict(params or {})
    names = list(names)
    base = dict(dict(P=2.0, S=4.0, pP=0.1, pS=-0.15, ot=0.06), **(base or {}))
    width = dict(P=0.3, S=0.4, pP=0.3, pS=0.3, ot=0.5 / rate)

    def val(k):
        return ctx.real(k, base[k] - width[k], base[k] + width[k]) if k in sym else base[k]

    ot = 100 + val("ot")
    tp, ts = val("P"), val("S")
    if sym and not any(is_sym(v) for v in (tp, ts)) and ctx.symbolic:
        pass
    tt = {s: dict(P=tp + 0.7 * i, S=ts + 1.1 * i) for i, s in enumerate(names)}
    pk = {}
    for p in ("P", "S"):
        if p in picks:
            pk[names[0], p] = ot + tt[names[0]][p] + val("p" + p)
        elif p in none:
            pk[names[0], p] = None
        elif p not in lost and (picks or none):
            pk[names[0], p] = None
    sw, nw = params.get("signal_window", 0.0), params.get("noise_window", 5.0)
    longest = 6.0
    pre, post = nw + mw, sw + longest * (1 + fr) + mw
    c = ceil((pre + post) * 0.06 - 1e-9)
    pre, post = pre + c, post + c
    t0 = 100.0 - pre - 2 / rate - 0.5  # data start
    n0 = n or int(np.ceil((pre + post + 1.0) * rate)) + 5
    chans = ["HHE", "HHN", "HHZ"] if names[0] != "ST1" else ["HH2", "HH1", "HHZ"]
    if short:
        short = [short[0], short[1], n0 + short[2]]
    st, raw = Stream(), {}
    for i, s in enumerate(names):
        for j, ch in enumerate(chans):
            x = [wiggle(k, 3 * i + j) for k in range(n0)]
            key = f"{s}.{ch}"
            raw[key] = x
            a, b = (0, n0) if not short or short[0] != key else short[1:]
            parts = [(a, b)] if gap != key else [(a, n0 // 2), (n0 // 2 + 2, b)]
            for a, b in parts:
                st += trace(s, ch, rate, at(ctx, t0) + a / rate, np.array(x[a:b]))
    data = Data(st, missing, bad)
    ev = event(ctx, mw, ot, pk, data)
    with_filter = {}
    if filt:
        params.update(filt)
    amp = Amplitude(dict(params))
    got_pads = amp.pad(mw, longest, fr)
    ctx.check(abs(got_pads[0] - pre) < 1e-9 and abs(got_pads[1] - post) < 1e-9, "span read for amplitudes")
    before = [tr.data.copy() for tr in st]
    lut = LUT(tt, fr, longest, names, ucf)
    loc = ev.locations[params.get("loc_method", "spline")]
    lut.node = lut.index2coord([loc[k] for k in "XYZ"], inverse=True)[0]
    if used:  # the same object has measured another event, elsewhere, recorded at another rate
        now = lut.tt, lut.fraction_tt
        lut.tt, lut.fraction_tt = {s: dict(P=base["P"] - 2.6 + 0.7 * i, S=base["S"] - 2.7 + 1.1 * i) for i, s in enumerate(names)}, 0.05
        old = Stream()
        for tr in st:
            old += trace(tr.stats.station, tr.stats.channel, 2 * rate, at(ctx, 300 + t0), np.array([wiggle(k, 5) for k in range(3 * n0)]))
        ev0 = event(ctx, mw / 2, 400.0, {}, Data(old, (), ()))
        for k in ev0.locations.values():
            k.update(X=k["X"] + 0.1, Y=k["Y"] - 0.1, Z=k["Z"] + 1.0)
        df0 = amp.get_amplitudes(ev0, lut)
        ctx.check(len(df0) == 3 * len(names) and not any(isnan(v) for v in df0["P_amp"]), "P window: measured")
        lut.tt, lut.fraction_tt = now
    df = amp.get_amplitudes(ev, lut)
    ctx.check(all(np.array_equal(a, tr.data) for a, tr in zip(before, st)), "raw waveforms are left alone")
    ctx.check(all(v is False for _, v in data.asked), "displacement waveforms are measured")
    ctx.check(len(df) == 3 * len(names), "a row per station and component")
    how = params.get("noise_measure", "RMS")
    for i, s in enumerate(names):
        # windows
        P, S = ot + tt[s]["P"], ot + tt[s]["S"]
        if i == 0 and not lost:
            P = pk[s, "P"] if pk.get((s, "P")) is not None else P
            S = pk[s, "S"] if pk.get((s, "S")) is not None else S
        early = not bool(P < S)
        wp, ws = mw + tt[s]["P"] * fr, mw + tt[s]["S"] * fr
        p0, p1, s0, s1 = P - wp, P + wp, S - ws, S + ws + sw
        if bool(s0 < p1):
            p1 = s0 = (p1 + s0) / 2
        elif bool(s0 - p1 < sw):
            p1 = s0
        else:
            p1 = p1 + sw
        for j, ch in enumerate(chans):
            key = f"{s}.{ch}"
            lab = "NW.%s..%s" % (s, ch)
            a, b = (0, n0) if not short or short[0] != key else short[1:]
            first = max(a, whole(ctx, (ot - pre - t0) * rate))
            last = min(b - 1, whole(ctx, (ot + post - t0) * rate))
            d0, d1 = t0 * rate + first - (ot - pre) * rate, (ot + post) * rate - t0 * rate - last
            if short:
                ctx.assume(ctx.all([ctx.any([d0 >= 1.001, d0 <= 0.999]), ctx.any([d1 >= 1.001, d1 <= 0.999])]))
            unread = gap == key or bool(ctx.any([d0 >= 1, d1 >= 1]))
            r = df.iloc[3 * i + j]
            d = gps2dist_azimuth(loc["Y"], loc["X"], 60.0 + 0.1 * i, -20.0 + 0.2 * i)[0] / 1000
            ctx.check(abs(r["epi_dist"] - d) < 1e-6, "epicentral distance in km")
            ctx.check(abs(r["z_dist"] - (loc["Z"] - (-0.3 + 0.2 * i)) / (1000 / ucf)) < 1e-9, "vertical distance in km")
            if unread:
                ctx.check(df.index[3 * i + j].startswith(f".{s}."), "a trace without the whole span has no id")
            else:
                ctx.check(df.index[3 * i + j] == lab, "rows in the order of the stations, E N Z")
            if unread or key in missing or key in bad or early:
                ctx.check(all(isnan(r[c]) for c in ("P_amp", "S_amp", "Noise_amp", "P_time", "S_time")),
                          "traces that cannot be used are not measured")
                continue
            ctx.check(bool(r["is_picked"]) == (i == 0 and bool(picks)), "picked by the autopicker")
            x = raw[key]
            lo, hi = 0, n0
            if filt:
                lo = whole(ctx, (ot - pre - t0) * rate)
                hi = whole(ctx, (ot + post - t0) * rate) + 1
                x, gain = filtered(x[lo:hi], rate, params)
                x = [0.0] * lo + list(x)
            else:
                gain = None
            if not ctx.symbolic:  # the real detrend
                from scipy.signal import detrend as dt
            else:
                def dt(v):
                    return np.array(_detrended(list(v)))
            for ph, a, b in (("P", p0, p1), ("S", s0, s1)):
                k0, k1 = whole(ctx, (a - t0) * rate), whole(ctx, (b - t0) * rate)
                seg = [float(v) for v in x[max(k0, lo): min(k1 + 1, hi)]]
                if seg:
                    seg = [float(v) for v in dt(np.array(seg))]
                check_window(ctx, r, ph, seg, max(k0, lo), t0 if not ctx.symbolic else Fraction(t0), rate, how, f"{ph} window", gain)
            k0, k1 = whole(ctx, (p0 - nw - t0) * rate), whole(ctx, (p0 - t0) * rate)
            seg = [float(v) for v in x[max(k0, lo): min(k1 + 1, hi)]]
            seg = [float(v) for v in dt(np.array(seg))]
            if len(seg) < 2:
                ctx.check(isnan(r["Noise_amp"]), "no noise amplitude without samples")
            else:
                ctx.check(near(ctx, float(r["Noise_amp"]), average(seg, how)), "noise amplitude of the span before the P window")


def filtered(x, rate, params):
    """ObsPy's filter and its gain at a frequency"""
    from obspy import Trace
    from scipy.signal import iirfilter, sosfreqz

    tr = Trace(np.array(x), header=dict(sampling_rate=rate))
    n = params.get("filter_corners", 4)
    tr.detrend("linear").taper(0.05, "cosine")
    if params.get("highpass_filter") or params["bandpass_highcut"] >= rate / 2:
        f = params["highpass_freq"] if params.get("highpass_filter") else params["bandpass_lowcut"]
        tr.filter("highpass", freq=f, corners=n, zerophase=False)
        sos = iirfilter(n, f / (rate / 2), btype="highpass", ftype="butter", output="sos")
    else:
        lo, hi = params["bandpass_lowcut"], params["bandpass_highcut"]
        tr.filter("bandpass", freqmin=lo, freqmax=hi, corners=n, zerophase=False)
        sos = iirfilter(n, [lo / (rate / 2), hi / (rate / 2)], btype="bandpass", ftype="butter", output="sos")
    return tr.data, lambda f: float(abs(sosfreqz(sos, worN=[float(f)], fs=rate)[1][0]))


def samples(ctx, free, most=0.0, phase="P", size=6, lo=-10, hi=10):
    """the samples numbered in `free` of one window are symbolic"""
    from obspy import Stream

    from quakemigrate.signal.local_mag.amplitude import Amplitude

    rate, mw, fr = 4, (size - 1) / 8, 0.0  # size samples per window
    tt = {"STA": dict(P=2.0 if size % 2 else 2.125, S=5.0 if size % 2 else 5.125)}
    n0, t0 = 80, 90.0
    first = int(round((100 + tt["STA"][phase] - mw - t0) * rate))
    st = Stream()
    x = [wiggle(k, 1) for k in range(n0)]
    v = [ctx.real(f"x{k}", lo, hi) for k in free]
    for k, s in zip(free, v):
        x[first + k] = s
    st += trace("STA", "HHZ", rate, at(ctx, t0), values(ctx, x))
    ev = event(ctx, mw, 100.0, {}, Data(st, (), ()))
    amp = Amplitude(dict(noise_window=1.0, prominence_multiplier=most))
    seg = x[first:first + size]
    if ctx.symbolic:
        seg = _detrended(seg)
    else:
        from scipy.signal import detrend

        seg = list(detrend(np.array(seg, dtype=float)))
    for a, b in itertools.combinations(seg, 2) if most else zip(seg, seg[1:]):
        ctx.assume(ctx.any([a - b >= 1e-6, b - a >= 1e-6]))
    df = amp.get_amplitudes(ev, LUT(tt, fr, 5.5, ["STA"]))
    check_window(ctx, df.iloc[2], phase, seg, first, Fraction(t0) if ctx.symbolic else t0, rate, None, f"{phase} samples", most=most)
    other = "S" if phase == "P" else "P"
    if not most and size > 5:
        ctx.check(not isnan(df.iloc[2][f"{other}_amp"]), "the other window is measured")
    rms = df.iloc[2][f"{phase}_avg_amp"]
    if len(free) <= 2 and not isnan(rms):
        ctx.check(ctx.all([rms >= 0, near(ctx, rms * rms * size / 10**6, sum(a * a for a in seg), 1e-5)]), "RMS of the samples")


def pads(ctx, fr):
    from quakemigrate.signal.local_mag.amplitude import Amplitude

    sw, nw = ctx.real("signal_window", 0, 20), ctx.real("noise_window", 1, 20)
    mw, longest = ctx.real("marginal_window", 0, 5), ctx.real("max_traveltime", 0.5, 60)
    a = Amplitude(dict(signal_window=sw, noise_window=nw))
    pre, post = a.pad(mw, longest, fr)
    tp = ctx.real("P", 0, 60)
    ts = ctx.real("S", 0, 60)
    ctx.assume(ctx.all([tp <= ts, ts <= longest]))
    T = (pre + post) * 0.05
    ctx.check(tp - mw - tp * fr - nw >= -pre + T - 1e-9, "noise window clear of the taper")
    ctx.check(ts + mw + ts * fr + sw <= post - T + 1e-9, "S window clear of the taper")
    ctx.check(ctx.all([pre <= nw + mw + 0.06 * (nw + mw + sw + mw + longest * (1 + fr)) + 1 + 1e-9,
                       post <= sw + mw + longest * (1 + fr) + 0.06 * (nw + mw + sw + mw + longest * (1 + fr)) + 1 + 1e-9]),
              "no more than the windows, the taper and a second")


def win_cases(tier):
    N = dict(noise_window=1.0)
    out = [
        dict(params=N),  # modelled arrivals
        dict(params=dict(noise_window=1.0, signal_window=0.5, noise_measure="STD")),
        dict(params=N, sym=["pP", "pS"], picks=["P", "S"]),
        dict(params=dict(N, signal_window=0.3), sym=["pP", "S"], picks=["P"], none=["S"]),
        dict(params=N, sym=["pS", "P"], picks=["S"], none=["P"]),
        dict(params=N, sym=["P", "S"], none=["P", "S"]),
        dict(params=N, sym=["pS", "P"], picks=["S"], lost=["P"]),
        dict(params=N, sym=["pP", "S"], picks=["P"], lost=["S"]),
        dict(params=N, sym=["P", "S"], base=dict(S=2.6)),  # overlap
        dict(params=dict(N, signal_window=2.0), sym=["P", "S"], base=dict(S=3.6)),  # cut at the S window
        dict(params=N, sym=["pP", "pS"], picks=["P", "S"], base=dict(S=2.4)),  # in the wrong order
        dict(params=N, sym=["ot", "P"], names=["ST1", "ST2"], ucf=1.0),
        dict(params=dict(noise_window=2.0, signal_window=1.0, noise_measure="ENV", loc_method="gaussian"), sym=["ot"]),
        dict(params=N, sym=["ot", "S"], missing=["STA.HHE"], bad=["STA.HHZ"]),
        dict(params=N, sym=["ot"], short=["STA.HHN", 9, 0], gap="STA.HHE"),
        dict(params=N, sym=["ot"], short=["STA.HHZ", 0, -11]),
        dict(params=N, sym=["ot"], short=["STA.HHE", 1, -5]),
        dict(params=N, sym=["ot", "P"], rate=20, filt=dict(highpass_filter=True, highpass_freq=2.0, filter_corners=2)),
        dict(params=dict(N, loc_method="covariance"), sym=["ot", "P"], rate=20,
             filt=dict(bandpass_filter=True, bandpass_lowcut=1.0, bandpass_highcut=8.0)),
        dict(params=N, sym=["P"], rate=10, filt=dict(bandpass_filter=True, bandpass_lowcut=1.0, bandpass_highcut=5.0)),
        dict(params=N, sym=["ot", "P"], rate=20, filt=dict(bandpass_filter=True, bandpass_lowcut=1.0, bandpass_highcut=8.0), used=True),
        dict(params=dict(N, signal_window=0.5), sym=["P", "S"], used=True),
    ]
    if tier == "thorough":
        out += [dict(params=dict(N, signal_window=w), sym=["ot", "P", "S"], rate=r, base=dict(S=s))
                for w in (0.0, 0.4) for r in (4, 10) for s in (2.7, 3.3, 4.5)]
    return out


def sample_cases(tier):
    out = [dict(free=[0, 1, 2, 3], size=5), dict(free=[1, 2, 4], size=6, phase="S"), dict(free=[2, 3], size=7),
           dict(free=[1, 2, 3, 4], size=6), dict(free=[2, 4], size=6, most=0.5), dict(free=[1, 4], size=7, most=0.8, phase="S"),
           dict(free=[1, 2], size=3, phase="S"), dict(free=[1, 2], size=4)]
    if tier == "thorough":
        out += [dict(free=[1, 2, 3, 4, 5], size=7), dict(free=[1, 3, 5], size=8, most=0.3), dict(free=[0, 3, 7], size=8, phase="S")]
    return out


HARNESSES = [
    dict(name="windows", fn=windows, cases=win_cases, env=env,
         expect=["P window: measured", "S window: measured", "S window: half the difference in mm, at its mid time and frequency",
                 "noise amplitude of the span before the P window", "traces that cannot be used are not measured"],
         bounds="1 or 2 stations of 3 components, 4 to 20 Hz, two or three of origin time, traveltimes and picks symbolic "
         "within 0.3 to 0.4 s of the case's values, fixed sample values"),
    dict(name="samples", fn=samples, cases=sample_cases, env=env,
         expect=["P samples: half the difference in mm, at its mid time and frequency", "P samples: nothing to measure",
                 "RMS of the samples"],
         bounds="windows of 3 to 8 samples, 2 to 5 of them symbolic"),
    dict(name="pads", fn=pads, cases=lambda tier: [dict(fr=f) for f in (0.0, 0.1, 0.4)], env=env,
         expect=["noise window clear of the taper"], bounds="windows and traveltimes of up to 60 s"),
]
