# -*- coding: utf-8 -*-
"""C41: settings that cannot work are refused; deprecated names do what their replacements do."""

import shutil
from fractions import Fraction

import numpy as np
import pandas as pd

from qmv.props import lutrig, rig
from qmv.symtime import at

ASSUMPTIONS = ["exact real arithmetic, numbers in the stated ranges"]
STUBS = ["the scans behind detect, locate and trigger record that they were started and with what; logging off",
         "ObsPy's filters leave the data alone"]


def env():
    return rig.scan_env()


def attempt(f):
    """What f raises (None: nothing), and its result."""
    try:
        return None, f()
    except Exception as e:  # which exception it is, is the question
        from qmv.sym import Inconclusive

        if isinstance(e, Inconclusive) or type(e).__name__ == "PathEnd":
            raise
        return e, None


def refused(ctx, f, cls, when, label):
    """f raises cls exactly when `when`, and nothing else."""
    e, out = attempt(f)
    if e is not None and not isinstance(e, cls):
        raise e
    ctx.check(when if e is not None else ctx.not_(when), label)
    return e is None, out


def trigger_settings(ctx, given):
    """The interval between events has to be at least two marginal windows, however it is given."""
    from quakemigrate.signal.trigger import Trigger

    d = rig.scratch_dir("c41")
    try:
        kw, mw, v = {}, 2.0, 4.0
        if "mw" in given:
            mw = kw["marginal_window"] = ctx.real("marginal_window", 0.01, 20)
        for name in ("min_event_interval", "minimum_repeat"):
            if name in given:
                v = kw[name] = ctx.real(name, 0.01, 60)
        ok, t = refused(ctx, lambda: Trigger(lutrig.make(ctx, [0.0] * 3, [1.75] * 3, 1.0), d, "run", **kw), ValueError, v < 2 * mw,
                        "refused exactly when the interval is less than two marginal windows")
        if not ok:
            return
        ctx.check(ctx.all([ctx.eq(t.min_event_interval, v), ctx.eq(t.minimum_repeat, v), ctx.eq(t.marginal_window, mw)]),
                  "the interval is the one given")
        for name in ("min_event_interval", "minimum_repeat"):
            w = ctx.real("new_" + name, 0.01, 60)
            ok, _ = refused(ctx, lambda: setattr(t, name, w), ValueError, w < 2 * mw,
                            "refused exactly when the interval is less than two marginal windows")
            v = w if ok else v
            ctx.check(ctx.eq(t.min_event_interval, v), "an interval that is refused changes nothing")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def trigger_threshold(ctx):
    import quakemigrate.util as util
    from quakemigrate.signal.trigger import Trigger

    d = rig.scratch_dir("c41")
    try:
        known = {"static": "static", "mad": "mad", "median_ratio": "median_ratio", "dynamic": "mad"}
        options = [None, "static", "mad", "median_ratio", "dynamic", "MAD", "Static", "median", ""]
        m = ctx.choose("method", options)
        kw = {} if m is None else {"threshold_method": m}
        ok, t = refused(ctx, lambda: Trigger(lutrig.make(ctx, [0.0] * 3, [1.75] * 3, 1.0), d, "run", **kw),
                        util.InvalidTriggerThresholdMethodException, m is not None and m not in known, "unknown threshold methods are refused")
        if not ok:
            return
        now = known[m or "static"]
        ctx.check(t.threshold_method == now, "the threshold method asked for")
        m2 = ctx.choose("then", options[1:])
        ok, _ = refused(ctx, lambda: setattr(t, "threshold_method", m2), util.InvalidTriggerThresholdMethodException, m2 not in known,
                        "unknown threshold methods are refused")
        ctx.check(t.threshold_method == (known[m2] if ok else now), "the threshold method asked for")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make_scan(ctx, d, log, **kw):
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.scan import QuakeScan

    lut = rig.LUT(ctx, {}, 5.0)
    s = QuakeScan(rig.Archive(), lut, kw.pop("onset", None) or STALTAOnset(sampling_rate=50), d, "run", **kw)
    s._continuous_compute = lambda *a, **k: log.append(("detect", a, k))
    s._locate_events = lambda *a, **k: log.append(("locate", a, k))
    return s


def spans(ctx, stage):
    """A run that ends before it starts is refused before anything is done."""
    import quakemigrate.util as util
    from quakemigrate.signal.trigger import Trigger

    d = rig.scratch_dir("c41")
    log = []
    try:
        a, b = ctx.real("start", 0, 1000), ctx.real("end", 0, 1000)
        if stage == "trigger":
            t = Trigger(lutrig.make(ctx, [0.0] * 3, [1.75] * 3, 1.0), d, "run")
            t._trigger_batch = lambda *a, **k: log.append(("trigger", a, k))
            run = t.trigger
        else:
            run = getattr(make_scan(ctx, d, log), stage)
        ok, _ = refused(ctx, lambda: run(at(ctx, a), at(ctx, b)), util.TimeSpanException, a > b,
                        "refused exactly when the period ends before it starts")
        if not ok:
            ctx.check(log == [], "nothing is done when the settings are refused")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def locate_arguments(ctx):
    """locate needs a trigger file, or both ends of a period."""
    d = rig.scratch_dir("c41")
    log = []
    try:
        s = make_scan(ctx, d, log)
        off = ctx.real("start", 0, 1000)
        kw = {}
        if ctx.choose("has start", [True, False]):
            kw["starttime"] = at(ctx, off)
        if ctx.choose("has end", [True, False]):
            kw["endtime"] = at(ctx, off + 100)
        if ctx.choose("has file", [True, False]):
            kw["trigger_file"] = d + "/events.csv"
        times = [k for k in ("starttime", "endtime") if k in kw]
        ok, _ = refused(ctx, lambda: s.locate(**kw), RuntimeError, not kw or len(times) == 1, "incomplete arguments are refused")
        if not ok:
            ctx.check(log == [], "nothing is done when the settings are refused")
            return
        ctx.check(len(log) == 1 and log[0][0] == "locate", "located once")
        got = dict(zip(("starttime", "endtime", "trigger_file"), log[0][1]), **log[0][2])
        if "trigger_file" in kw:
            ctx.check(got.get("trigger_file") == kw["trigger_file"], "the trigger file asked for")
        else:
            ctx.check(got.get("trigger_file") is None and got["starttime"] == kw["starttime"] and got["endtime"] == kw["endtime"],
                      "the period asked for")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def scan_settings(ctx):
    """Parts of the wrong kind; deprecated names."""
    import quakemigrate.util as util
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker

    d = rig.scratch_dir("c41")
    log = []
    try:
        onset = STALTAOnset(sampling_rate=50)
        picker = GaussianPicker(onset=onset)
        mags = LocalMag({"signal_window": 1.0}, {"A0": "keir2006"})
        bad = ctx.choose("wrong", [None, "onset", "picker", "mags"])
        wrong = ctx.choose("with", ["class", "other"])
        pick = {"onset": STALTAOnset if wrong == "class" else picker, "picker": GaussianPicker if wrong == "class" else onset,
                "mags": LocalMag if wrong == "class" else {"A0": "keir2006"}}
        kw = {"onset": onset, "picker": picker, "mags": mags}
        if bad:
            kw[bad] = pick[bad]
        step, new = ctx.real("step", 1, 1000), ctx.real("new_step", 1, 1000)
        cores = ctx.choose("cores", [None, 1, 3])
        old = ctx.choose("names", ["new", "old", "none"])
        if old != "none":
            kw["timestep" if old == "new" else "time_step"] = step
            if cores is not None:
                kw["threads" if old == "new" else "n_cores"] = cores
            if old == "old":
                kw["sampling_rate"] = 20
        cls = {None: (), "onset": util.OnsetTypeError, "picker": util.PickerTypeError, "mags": util.MagsTypeError}[bad]
        ok, s = refused(ctx, lambda: make_scan(ctx, d, log, **kw), cls, bad is not None, "parts of the wrong kind are refused")
        if not ok:
            return
        ctx.check(s.onset is onset and s.picker is picker and s.mags is mags, "the parts given are used")
        ctx.check(ctx.eq(s.timestep, step if old != "none" else 120.0) and s.threads == (cores if cores and old != "none" else 1),
                  "deprecated names set what their replacements set")
        ctx.check(s.scan_rate == 50 and s.sampling_rate == 50, "the scan rate is that of the onset functions")
        s.time_step, s.n_cores = new, 7
        ctx.check(ctx.all([ctx.eq(s.timestep, new), ctx.eq(s.time_step, new)]) and s.threads == 7 and s.n_cores == 7,
                  "deprecated names set what their replacements set")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def onset_settings(ctx, centred):
    """The sampling rate has to be given, the smallest onset value has to be at least 0.01; deprecated names."""
    from quakemigrate.signal.onsets import CentredSTALTAOnset, ClassicSTALTAOnset, STALTAOnset

    low = ctx.real("min_onset_value", -1, 1)
    kw = {"sampling_rate": 50} if ctx.choose("rate", [True, False]) else {}
    which = ctx.choose("how", ["position", "onset_centred", "class"])
    cls, old = STALTAOnset, False
    if which == "class":
        cls = CentredSTALTAOnset if centred else ClassicSTALTAOnset
    elif which == "position":
        kw["position"] = "centred" if centred else "classic"
    else:
        kw["onset_centred"], old = centred, True
    filters = {p: [ctx.real(f"lo{p}", 0.1, 2), ctx.real(f"hi{p}", 3, 20), 2 + (p == "S")] for p in "PS"}
    wins = {p: [ctx.real(f"sta{p}", 0.1, 1), ctx.real(f"lta{p}", 1, 5)] for p in "PS"}
    if old:
        kw.update(p_bp_filter=filters["P"], s_bp_filter=filters["S"], p_onset_win=wins["P"], s_onset_win=wins["S"])
    else:
        kw.update(bandpass_filters={p: list(f) for p, f in filters.items()}, sta_lta_windows={p: list(w) for p, w in wins.items()})
    ok, o = refused(ctx, lambda: cls(min_onset_value=low, **kw), ValueError, ctx.any(["sampling_rate" not in kw, low < Fraction(1, 100)
                                                                                    if ctx.symbolic else low < 0.01]),
                    "an onset function without a sampling rate, or with too small a smallest value, is refused")
    if not ok:
        return
    ctx.check(ctx.eq(o.min_onset_value, low) and o.sampling_rate == 50, "settings are kept")
    ctx.check(o.position == ("centred" if centred else "classic"), "deprecated names set what their replacements set")
    for p in "PS":
        for g, w in ((o.bandpass_filters, filters), (o.sta_lta_windows, wins)):
            ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(g[p], w[p])]), "deprecated names set what their replacements set")
        ctx.check(ctx.eq(o.gaussian_halfwidth(p), wins[p][0] * 25), "the expected half-width of a peak is half a short window")
    for p in "PS":
        setattr(o, f"{p.lower()}_bp_filter", filters["S"])
        setattr(o, f"{p.lower()}_onset_win", wins["S"])
        ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(list(o.bandpass_filters[p]) + list(o.sta_lta_windows[p]), filters["S"] + wins["S"])]),
                  "deprecated names set what their replacements set")
    o.onset_centred = not centred
    ctx.check(o.position == ("classic" if centred else "centred"), "deprecated names set what their replacements set")


class Filters:
    """ObsPy's processing of traces does nothing and is recorded."""

    def __enter__(self):
        import obspy.core.trace as ot

        self.T, self.log = ot.Trace, []
        self.saved = {n: getattr(ot.Trace, n) for n in ("detrend", "taper", "filter")}
        log = self.log
        self.T.detrend = self.T.taper = lambda tr, *a, **k: tr

        def filt(tr, type=None, **k):
            log.append((tr.id, type, k))
            return tr

        self.T.filter = filt
        return self

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(self.T, n, v)


def nyquist_onset(ctx, rate, phases):
    """An onset filter that reaches the Nyquist frequency of the scan is refused."""
    from obspy import Stream, Trace

    import quakemigrate.util as util
    from quakemigrate.io.data import WaveformData
    from quakemigrate.signal.onsets import STALTAOnset

    n = 20 * rate
    hi = {p: ctx.real(f"highcut{p}", 1, 2 * rate) for p in "PS"}
    o = STALTAOnset(sampling_rate=rate, phases=phases, bandpass_filters={p: [0.5, hi[p], 2] for p in "PS"},
                    channel_counts={"P": 1, "S": 1}, channel_maps={"P": "*Z", "S": "*N"})
    t0 = at(ctx, 0)
    data = WaveformData(t0, t0 + (n - 1) / rate, stations=pd.Series(["STA"]))
    data.waveforms = Stream([Trace(np.array([float((7 * i) % 11) - 5 for i in range(n)]),
                                   dict(station="STA", channel=c, sampling_rate=rate, starttime=t0)) for c in ("HHZ", "HHN")])
    with Filters() as log:
        refused(ctx, lambda: o.calculate_onsets(data), util.NyquistException, ctx.any([2 * hi[p] >= rate for p in phases]),
                "a filter is refused exactly when it reaches the Nyquist frequency")
    for _, kind, k in log.log:
        ctx.check(kind != "bandpass" or ctx.all([2 * k["freqmax"] < rate]), "no filter reaches the Nyquist frequency")


def nyquist_amplitude(ctx, rate, by):
    """The bandpass of the amplitude measurements becomes a high-pass where it would reach the Nyquist frequency."""
    from obspy import Trace

    import quakemigrate.signal.local_mag.amplitude as mod

    hi = ctx.real("highcut", 1, 2 * rate)
    ctx.assume(ctx.any([hi * 2 <= rate * 0.9999, hi * 2 >= rate]))
    a = mod.Amplitude({"signal_window": 1.0, "bandpass_filter": True, "bandpass_lowcut": 0.5, "bandpass_highcut": hi})
    tr = Trace(np.array([1.0, 2.0, 4.0, 3.0] * 50), dict(station="STA", channel="HHZ", sampling_rate=rate))
    import scipy.signal as ss

    saved, design = [(m, m.iirfilter) for m in (mod, ss) if hasattr(m, "iirfilter")], []
    try:
        def iir(N, Wn, *x, **k):
            design.append((k.get("btype", x[2] if len(x) > 2 else "bandpass"), Wn))
            return np.zeros((1, 6))

        for m, _ in saved:
            m.iirfilter = iir
        with Filters() as log:
            getattr(a, by)(tr)
    finally:
        for m, f in saved:
            m.iirfilter = f
    ctx.check(len(log.log) == 1 and len(design) == 1 and log.log[0][1] == design[0][0], "the filter whose gain is used is the one applied")
    _, kind, k = log.log[0]
    ctx.check((hi * 2 >= rate) if kind == "highpass" else (hi * 2 < rate), "a high-pass exactly when the bandpass reaches the Nyquist frequency")
    w = design[0][1]
    if kind == "highpass":
        ctx.check(k["freq"] == 0.5 and abs(w * rate - 1.0) < 1e-9, "with the lower of the two frequencies")
    else:
        ctx.check(ctx.all([k["freqmin"] == 0.5, ctx.eq(k["freqmax"], hi), ctx.eq(w[1] * rate, hi * 2) if ctx.symbolic else
                           abs(w[1] * rate - hi * 2) < 1e-9]), "with the frequencies asked for")


def amplitude_settings(ctx):
    """Filters need their frequencies, one filter at most; deprecated settings; noise measures."""
    from quakemigrate.signal.local_mag import Amplitude, LocalMag, Magnitude

    hp = ctx.choose("highpass_filter", [None, False, True])
    bp = ctx.choose("bandpass_filter", [None, False, True])
    f = {k: ctx.real(k, 0.1, 20) for k in ("highpass_freq", "bandpass_lowcut", "bandpass_highcut")}
    kw = {"signal_window": ctx.real("signal_window", 0, 10)}
    for k, v in (("highpass_filter", hp), ("bandpass_filter", bp)):
        if v is not None:
            kw[k] = v
    left = ctx.choose("left out", [None] + sorted(f))
    kw.update({k: v for k, v in f.items() if k != left})
    old = ctx.choose("deprecated", [None, "water_level", "pre_filt", "remove_full_response"])
    if old:
        kw[old] = 60.0
    wrong = bool(old) or bool(hp and bp) or bool(hp and left == "highpass_freq") or bool(
        bp and left in ("bandpass_lowcut", "bandpass_highcut"))
    how = ctx.choose("by", ["Amplitude", "LocalMag"])
    make = (lambda: Amplitude(kw)) if how == "Amplitude" else (lambda: LocalMag(kw, {"A0": "keir2006"}).amp)
    ok, a = refused(ctx, make, AttributeError, wrong, "filters without their frequencies, two filters and deprecated settings are refused")
    if not ok:
        return
    ctx.check(bool(a.highpass_filter) == bool(hp) and bool(a.bandpass_filter) == bool(bp), "the filter asked for")
    for k in f:
        if (hp and k.startswith("high")) or (bp and k.startswith("band")):
            ctx.check(ctx.eq(getattr(a, k), f[k]), "with the frequencies asked for")
    ctx.check(ctx.eq(a.signal_window, kw["signal_window"]), "settings are kept")
    a0 = ctx.choose("A0", [None, "keir2006"])
    refused(ctx, lambda: Magnitude({} if a0 is None else {"A0": a0}), TypeError, a0 is None, "magnitudes need an attenuation function")


def noise_measure(ctx):
    from obspy import Trace

    from quakemigrate.signal.local_mag import Amplitude

    m = ctx.choose("measure", ["RMS", "STD", "ENV", "rms", "MAX"])
    a = Amplitude({"signal_window": 1.0, "noise_measure": m})
    v = ctx.real("scale", 1, 10)
    tr = Trace(np.array([1.0, -2.0, 4.0, -3.0] * 8), dict(sampling_rate=10.0))
    if not ctx.symbolic:
        tr.data = tr.data * v
    ok, amp = refused(ctx, lambda: a._average_amplitude(tr, method=a.noise_measure), NotImplementedError, m not in ("RMS", "STD", "ENV"),
                      "unknown noise measures are refused")
    if ok:
        ctx.check(amp > 0, "an amplitude")


def picker_settings(ctx):
    import quakemigrate.util as util
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker

    o = STALTAOnset(sampling_rate=50)
    m = ctx.choose("method", [None, "MAD", "percentile", "mad", "static"])
    old = ctx.choose("pick_threshold", [False, True])
    x = ctx.real("threshold", 0.01, 20)
    kw = {} if m is None else {"threshold_method": m}
    if ctx.choose("values", [False, True]):
        kw.update(mad_pick_threshold=x, percentile_pick_threshold=x + 1)
    fr = ctx.real("fraction", 0.01, 1)
    give = ctx.choose("fraction", ["no", "init", "later"])
    if give == "init":
        kw["fraction_tt"] = fr
    if old:
        kw["pick_threshold"] = x
    known = m in (None, "MAD", "percentile")
    e, p = attempt(lambda: GaussianPicker(onset=o, **kw))
    if not isinstance(e, (util.InvalidPickThresholdMethodException, AttributeError, type(None))):
        raise e
    ctx.check((e is not None) == (old or not known), "unknown and deprecated pick thresholds are refused")
    if e is not None:
        ctx.check(isinstance(e, util.InvalidPickThresholdMethodException if not known else AttributeError) or (old and not known),
                  "unknown and deprecated pick thresholds are refused")
        return
    if m == "percentile":
        ctx.check(ctx.eq(p.percentile_pick_threshold, x + 1 if "mad_pick_threshold" in kw else 1.0), "the pick threshold asked for")
    else:
        ctx.check(ctx.eq(p.mad_pick_threshold, x if "mad_pick_threshold" in kw else 8.0), "the pick threshold asked for")
    if give == "later":
        p.fraction_tt = fr
    ctx.check(p.fraction_tt is None if give == "no" else ctx.eq(p.fraction_tt, fr), "the fraction of the traveltime asked for")
    e, _ = attempt(lambda: setattr(p, "pick_threshold", x))
    ctx.check(isinstance(e, AttributeError), "unknown and deprecated pick thresholds are refused")


def grid_settings(ctx):
    """Deprecated names of the grid; spacings and counts that cannot be."""
    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    sp = ctx.real("spacing", -2, 4)
    with lutrig.Projection():
        g = lutrig.make(ctx, ll, [a + 1.75 for a in ll], 1.0)
        ctx.check(list(g.cell_count) == [3, 3, 3] and list(g.cell_size) == [1.0] * 3, "deprecated names of the grid")
        which = ctx.choose("name", ["node_spacing", "cell_size"])
        form = ctx.choose("form", ["one", "three"])
        val = sp if form == "one" else [1.0, sp, 2.0]
        ok, _ = refused(ctx, lambda: setattr(g, which, val), AssertionError, ctx.not_(sp > 0), "a spacing that is not positive is refused")
        if ok:
            want = [sp] * 3 if form == "one" else val
            ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(g.node_spacing, want)]), "the spacing given, on every axis if one is given")
            ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(g.cell_size, want)]), "deprecated names of the grid")
        n = [ctx.choose(f"n{k}", [-1, 0, 1, 4]) if k == 1 else 2 + k for k in range(3)]
        which = ctx.choose("count name", ["node_count", "cell_count"])
        ok, _ = refused(ctx, lambda: setattr(g, which, n), AssertionError, n[1] <= 0, "a grid without nodes is refused")
        ctx.check([int(x) for x in g.node_count] == (n if ok else [3, 3, 3]) and [int(x) for x in g.cell_count] == [int(x) for x in g.node_count],
                  "deprecated names of the grid")


def tables(ctx):
    """Traveltimes by an unknown method, or without what the method needs."""
    import quakemigrate.lut.create_lut as cl
    import quakemigrate.util as util

    d = rig.scratch_dir("c41")
    saved = {n: getattr(cl, n) for n in ("_compute_homogeneous", "_compute_1d_fmm", "_compute_1d_nlloc")}
    log = []
    try:
        for n in saved:
            setattr(cl, n, lambda lut, phase, v, _n=n, **k: log.append((_n, phase, v)))
        how = ctx.choose("method", ["homogeneous", "1dfmm", "1dnlloc", "3dfmm", "2dfmm", "1DFMM"])
        phases = ctx.choose("phases", [["P", "S"], ["S"], ["P"]])
        give = ctx.choose("given", ["all", "none", "vp", "vs"])
        vp, vs = ctx.real("vp", 1, 8), ctx.real("vs", 1, 8)
        vmod = pd.DataFrame({"Depth": [0.0], "Vp": [1.0], "Vs": [0.5]})
        kw = {"all": dict(vp=vp, vs=vs, vmod=vmod), "none": {}, "vp": {"vp": vp}, "vs": {"vs": vs}}[give]
        with lutrig.Projection():
            g, c = lutrig.projs()
            spec = dict(ll_corner=lutrig.coord([0.0] * 3), ur_corner=lutrig.coord([1.75] * 3), node_spacing=1.0, grid_proj=g, coord_proj=c)
            st = lutrig.stations(["STA"])
            e, lut = attempt(lambda: cl.compute_traveltimes(spec, st, method=how, phases=list(phases), **kw))
        if how == "3dfmm":
            want = NotImplementedError
        elif how in ("2dfmm", "1DFMM"):
            want = ValueError
        elif how == "homogeneous":
            want = None if all(give in ("all", f"v{p.lower()}") for p in phases) else TypeError
        else:
            want = None if give == "all" else TypeError
        if e is not None and not isinstance(e, (NotImplementedError, ValueError, TypeError)):
            raise e
        ctx.check(e is None if want is None else isinstance(e, want), "unknown methods and missing arguments are refused")
        if e is None:
            names = {"homogeneous": "_compute_homogeneous", "1dfmm": "_compute_1d_fmm", "1dnlloc": "_compute_1d_nlloc"}
            ctx.check([(n, p) for n, p, _ in log] == [(names[how], p) for p in phases] and list(lut.phases) == list(phases),
                      "the method asked for, for each phase")
            for _, p, v in log:
                ctx.check(ctx.eq(v, vp if p == "P" else vs) if how == "homogeneous" else v is vmod, "with the velocities given")
    finally:
        for n, f in saved.items():
            setattr(cl, n, f)
        shutil.rmtree(d, ignore_errors=True)


def missing_phase(ctx):
    """Migrating, or measuring amplitudes, with a phase the table does not have."""
    import quakemigrate.util as util
    from quakemigrate.io.event import Event
    from quakemigrate.signal.local_mag import Amplitude
    from qmv.props.c06 import make_lut

    d = rig.scratch_dir("c41")
    try:
        has = ctx.choose("table", [["P"], ["S"], ["P", "S"]])
        asked = ctx.choose("asked", [["P"], ["S"], ["P", "S"]])
        lut = make_lut(["STA", "STB"], has)
        what = ctx.choose("what", ["migrate", "amplitudes"])
        if what == "migrate":
            s = make_scan(ctx, d, [])
            s.lut = lut
            s.onset = rig.make_onset(ctx, 10, (1.0, 1.0), lambda w, r, j: 1.0 + j, lambda w: {f"STA_{p}": 1 for p in asked}, plain=True)
            s.pre_pad, s.post_pad = 1.0, 20.0
            s.run.stage = "detect"
            off = ctx.real("start", 0, 100)
            data = rig.Archive().read_waveform_data(at(ctx, off), at(ctx, off) + 30.0)
            missing = not set(asked) <= set(has)
            run = lambda: s._compute(data)
        else:
            a = Amplitude({"signal_window": 1.0})
            a.pad = lambda *x: 1 / 0
            ev = Event(1.0)
            ev.get_hypocentre = lambda *x: np.array([10.005, 50.005, 0.5])
            missing = len(has) == 1

            def run():
                try:
                    a.get_amplitudes(ev, lut)
                except ZeroDivisionError:
                    return True
        refused(ctx, run, util.LUTPhasesException, missing, "a phase that the table does not have is refused")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def archive_settings(ctx):
    import quakemigrate.util as util
    from quakemigrate.io.data import Archive

    known = ["YEAR/JD/STATION", "YEAR/JD/*_STATION_*", "SeisComp3", "YEAR_JD/STATION*", "YEAR_JD/STATION_*"]
    d = rig.scratch_dir("c41")
    try:
        how = ctx.choose("structure", known + ["year/jd/station", "STATION/YEAR/JD", None])
        off = ctx.real("start", 0, 100)
        ok, a = refused(ctx, lambda: Archive(d, pd.DataFrame({"Name": ["STA"]}), **({} if how is None else {"archive_format": how})),
                        util.ArchivePathStructureError, how is not None and how not in known, "unknown archive structures are refused")
        if not ok:
            return
        e, _ = attempt(lambda: a.read_waveform_data(at(ctx, off), at(ctx, off) + 10.0))
        ctx.check(isinstance(e, util.ArchiveEmptyException if how else util.ArchiveFormatException),
                  "an archive whose structure is not known is not read")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(tier):
    return [{}]


HARNESSES = [
    dict(name="trigger_settings", fn=trigger_settings, env=env,
         cases=lambda tier: [dict(given=g) for g in (["mw", "min_event_interval"], ["mw", "minimum_repeat"], ["mw"], ["minimum_repeat"], [])],
         expect=["refused exactly when the interval is less than two marginal windows", "an interval that is refused changes nothing",
                 "the interval is the one given"],
         bounds="any marginal window (to 20 s) and intervals (to 60 s), given by the constructor and later, by either name"),
    dict(name="trigger_threshold", fn=trigger_threshold, cases=one, env=env,
         expect=["unknown threshold methods are refused", "the threshold method asked for"], bounds="the listed names"),
    dict(name="spans", fn=spans, cases=lambda tier: [dict(stage=s) for s in ("detect", "locate", "trigger")], env=env,
         expect=["refused exactly when the period ends before it starts", "nothing is done when the settings are refused"],
         bounds="any two times within 1000 s"),
    dict(name="locate_arguments", fn=locate_arguments, cases=one, env=env,
         expect=["incomplete arguments are refused", "the trigger file asked for", "the period asked for"],
         bounds="every combination of the three arguments, any period of 100 s"),
    dict(name="scan_settings", fn=scan_settings, cases=one, env=env,
         expect=["parts of the wrong kind are refused", "deprecated names set what their replacements set"],
         bounds="each part wrong in two ways, any timesteps"),
    dict(name="onset_settings", fn=onset_settings, cases=lambda tier: [dict(centred=c) for c in (True, False)], env=env,
         expect=["an onset function without a sampling rate, or with too small a smallest value, is refused",
                 "deprecated names set what their replacements set", "the expected half-width of a peak is half a short window"],
         bounds="any filters, windows and smallest values"),
    dict(name="nyquist_onset", fn=nyquist_onset, env=env,
         cases=lambda tier: [dict(rate=10, phases=["P", "S"]), dict(rate=20, phases=["S"]), dict(rate=5, phases=["P"])],
         expect=["a filter is refused exactly when it reaches the Nyquist frequency"], bounds="any corner frequencies, three rates"),
    dict(name="nyquist_amplitude", fn=nyquist_amplitude, cases=lambda tier: [dict(rate=r, by="_filter_trace") for r in (10.0, 100.0)], env=env,
         expect=["a high-pass exactly when the bandpass reaches the Nyquist frequency", "with the lower of the two frequencies",
                 "the filter whose gain is used is the one applied"],
         bounds="any corner frequencies (except the last ten-thousandth below Nyquist), two rates"),
    dict(name="amplitude_settings", fn=amplitude_settings, cases=one, env=env,
         expect=["filters without their frequencies, two filters and deprecated settings are refused", "with the frequencies asked for",
                 "magnitudes need an attenuation function"], bounds="any frequencies, every combination of the settings named"),
    dict(name="noise_measure", fn=noise_measure, cases=one, env=env, expect=["unknown noise measures are refused"], bounds="the listed names"),
    dict(name="picker_settings", fn=picker_settings, cases=one, env=env,
         expect=["unknown and deprecated pick thresholds are refused", "the pick threshold asked for"], bounds="any thresholds and fractions"),
    dict(name="grid_settings", fn=grid_settings, cases=one, env=env,
         expect=["a spacing that is not positive is refused", "a grid without nodes is refused", "deprecated names of the grid"],
         bounds="any spacing, the listed counts"),
    dict(name="tables", fn=tables, cases=one, env=env,
         expect=["unknown methods and missing arguments are refused", "with the velocities given"], bounds="any velocities, the listed methods"),
    dict(name="missing_phase", fn=missing_phase, cases=one, env=env,
         expect=["a phase that the table does not have is refused"], bounds="every choice of phases in the table and asked for"),
    dict(name="archive_settings", fn=archive_settings, cases=one, env=env,
         expect=["unknown archive structures are refused", "an archive whose structure is not known is not read"],
         bounds="the listed structures, any period of 10 s"),
]
