# -*- coding: utf-8 -*-
"""C42: settings hold what was given, and documented defaults otherwise."""

import contextlib
import io
import shutil

import pandas as pd

from qmv.props import rig
from qmv.props.common import Obj, time_env

ASSUMPTIONS = [
    "numbers are exact reals; settings that are text, flags, lists or objects are checked with values other than the default",
]
STUBS = ["Run.logger does nothing"]


class N:
    """A number between lo and hi."""

    def __init__(self, default, lo=0.0, hi=10000.0):
        self.default, self.lo, self.hi = default, lo, hi

    def make(self, ctx, name):
        return ctx.real(name, self.lo, self.hi)


class V:
    """One of some values."""

    def __init__(self, default, *others):
        self.default, self.others = default, others

    def make(self, ctx, name):
        return ctx.choose(name, list(self.others)) if len(self.others) > 1 else (self.others or (self.default,))[0]


def B(default):
    return V(default, not default)


TABLES = {
    "scan": dict(
        timestep=N(120.0, 0.01), marginal_window=N(2.0), threads=V(1, 3), log=B(False), mags=V(None, "MAGS"),
        plot_event_summary=B(True), plot_all_stns=B(True), plot_event_video=B(False), xy_files=V(None, "xy.csv"),
        continuous_scanmseed_write=B(False), write_cut_waveforms=B(False), write_real_waveforms=B(False),
        real_waveform_units=V("displacement", "velocity"), write_wa_waveforms=B(False),
        wa_waveform_units=V("displacement", "velocity"), cut_waveform_format=V("MSEED", "SAC"),
        write_marginal_coalescence=B(False), write_coalescence=B(False)),
    "trigger": dict(
        threshold_method=V("static", "mad", "median_ratio"), static_threshold=N(1.5), mad_window_length=N(3600.0),
        mad_multiplier=N(8.0), median_window_length=N(3600.0), median_multiplier=N(1.2), marginal_window=N(2.0, 0, 2),
        min_event_interval=N(4.0, 4), normalise_coalescence=B(False), pad=N(120.0), smooth_coa=B(False),
        smoothing_kernel_sigma=N(0.2), smoothing_kernel_width=N(4.0), plot_trigger_summary=B(True),
        xy_files=V(None, "xy.csv"), plot_all_stns=B(True), write_event_time_windows=B(False)),
    "onset": dict(
        position=V("classic", "centred"), use_python_backend=B(False),
        signal_transform=V("energy", "abs", "env", "env_squared"), min_onset_value=N(0.4, 0.01, 10),
        phases=V(["P", "S"], ["P"], ["S"]),
        bandpass_filters=V({"P": [2.0, 16.0, 2], "S": [2.0, 16.0, 2]}, {"P": [1.0, 3.0, 4], "S": [2.0, 5.0, 1]}),
        sta_lta_windows=V({"P": [0.2, 1.0], "S": [0.2, 1.0]}, {"P": [0.1, 3.0], "S": [0.3, 2.0]}),
        channel_maps=V({"P": "*Z", "S": "*[N,E,1,2]"}, {"P": "*3", "S": "*[4,5]"}),
        channel_counts=V({"P": 1, "S": 2}, {"P": 3, "S": 1}),
        all_channels=B(False), allow_gaps=B(False), full_timespan=B(True)),
    "picker": dict(
        threshold_method=V("MAD", "percentile"), mad_pick_threshold=N(8.0), percentile_pick_threshold=N(1.0, 0, 1),
        plot_picks=B(False), write_seed_ids=B(False)),
    "archive": dict(
        read_all_stations=B(False), resample=B(False), upfactor=V(None, 2, 5), interpolate=B(False),
        response_inv=V(None, "INV"), format=V(None, "{year}/*_{station}_*")),
    "removal": dict(water_level=N(60.0), pre_filt=V(None, (0.1, 0.2, 3.0, 4.0)), remove_full_response=B(False)),
    "amplitude": dict(
        signal_window=N(0.0), noise_window=N(5.0), noise_measure=V("RMS", "STD", "ENV"), prominence_multiplier=N(0.0),
        loc_method=V("spline", "gaussian", "covariance"), highpass_filter=V(False), bandpass_filter=V(False),
        filter_corners=V(4, 2)),
    "highpass": dict(highpass_filter=V(None), highpass_freq=V(None), noise_window=N(5.0), filter_corners=V(4, 2)),
    "bandpass": dict(bandpass_filter=V(None), bandpass_lowcut=V(None), bandpass_highcut=V(None), signal_window=N(0.0)),
    "magnitude": dict(
        use_hyp_dist=B(False), amp_feature=V("S_amp", "P_amp"), station_corrections=V({}, {"NW.STA..HHN": 0.5}),
        amp_multiplier=N(1.0), weighted_mean=B(False), trace_filter=V(None, ".*H[NE]$"), noise_filter=N(1.0),
        station_filter=V(None, ["AAA"], []), dist_filter=N(False), pick_filter=B(False), r2_only_used=B(True)),
    "local magnitude": dict(plot_amplitudes=B(True)),
}


def env():
    return rig.scan_env()




class Renamed:
    """An object some of whose settings are kept under other names."""

    def __init__(self, obj, **names):
        self.__dict__.update(obj=obj, names=names)

    def __getattr__(self, name):
        return getattr(self.obj, self.names[name])


class World:
    def __init__(self, ctx, scratch):
        from quakemigrate.io.core import Run
        from quakemigrate.signal.onsets import STALTAOnset

        self.ctx, self.scratch = ctx, scratch
        self.lut = rig.LUT(ctx, {}, 3.0)
        self.onset = STALTAOnset(sampling_rate=50)
        self.archive = rig.Archive()
        self.picker = rig.make_picker()
        self.stations = pd.DataFrame(dict(Name=["AAA", "BBB"]))

    def mags(self):
        from quakemigrate.signal.local_mag import LocalMag

        return LocalMag({}, {"A0": "Hutton-Boore"})

    def build(self, kind, **k):
        from quakemigrate.io.core import Run
        from quakemigrate.io.data import Archive
        from quakemigrate.signal.local_mag import LocalMag
        from quakemigrate.signal.onsets import STALTAOnset
        from quakemigrate.signal.pickers import GaussianPicker
        from quakemigrate.signal.scan import QuakeScan
        from quakemigrate.signal.trigger import Trigger

        saved = Run.logger
        Run.logger = lambda self, *a, **k: None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if kind == "scan":
                    return QuakeScan(self.archive, self.lut, k.pop("onset", self.onset), run_path=self.scratch, run_name="run", **k)
                if kind == "trigger":
                    return Trigger(self.lut, self.scratch, "run", **k)
                if kind == "onset":
                    return STALTAOnset(**{"sampling_rate": 50, **k})
                if kind == "picker":
                    return GaussianPicker(onset=self.onset, **k)
                if kind == "archive":
                    return Archive("/nonexistent/archive", self.stations, **k)
                if kind == "removal":
                    return Archive("/nonexistent/archive", self.stations, **(dict(response_removal_params=k) if k else {}))
                if kind in ("amplitude", "highpass", "bandpass"):
                    return LocalMag(k, {"A0": "Hutton-Boore"}).amp
                if kind == "local magnitude":
                    return Renamed(LocalMag({}, {"A0": "keir2006"}, **k), plot_amplitudes="plot")
                if kind == "magnitude":
                    return LocalMag({}, {"A0": "keir2006", **k}).mag
        finally:
            Run.logger = saved


def _same(ctx, a, b):
    if b is None or isinstance(b, (bool, str, list, dict, tuple)):
        return type(a) is type(b) and a == b or (isinstance(b, (list, tuple)) and list(a or []) == list(b))
    if isinstance(b, (int, float)) or hasattr(b, "z") or ctx.symbolic and type(b).__module__.startswith("qmv"):
        if a is None or isinstance(a, (bool, str)):
            return False
        return ctx.eq(a, b)
    return a is b


def _check(ctx, kind, obj, given, table, what):
    for n, spec in table.items():
        if kind == "picker" and n in ("mad_pick_threshold", "percentile_pick_threshold"):
            method = given.get("threshold_method", "MAD")
            if not n.startswith(method.lower()):
                continue
        want = given[n] if n in given else spec.default
        ctx.check(_same(ctx, getattr(obj, n), want), f"{kind}: {what}")


GIVEN, DEFAULT = "each setting is the one given, or else its default", "settings of one object are its own"


def settings(ctx, kind):
    scratch = rig.scratch_dir("c42")
    try:
        w = World(ctx, scratch)
        table = TABLES[kind]
        vals = {n: s.make(ctx, n) for n, s in table.items()}
        if kind == "scan":
            vals["mags"] = w.mags()
        if kind == "highpass":
            vals.update(highpass_filter=True, highpass_freq=ctx.real("freq", 0.01, 20))
        if kind == "bandpass":
            vals.update(bandpass_filter=True, bandpass_lowcut=ctx.real("low", 0.01, 20), bandpass_highcut=ctx.real("high", 20, 50))
        names = list(table)
        need = [n for n in names if kind == "highpass" and n.startswith("highpass")
                or kind == "bandpass" and n.startswith("bandpass")]
        subsets = [[]] if not need else [need]
        subsets += [[n] + need for n in names if n not in need] + [[m for m in names if m != n or m in need] for n in names]
        subsets += [names, need]
        made = []
        for sub in subsets:
            given = {n: vals[n] for n in names if n in sub}
            obj = w.build(kind, **given)
            _check(ctx, kind, obj, given, table, GIVEN)
            made.append((obj, given))
        if kind == "onset":
            # deprecated names set the object's own settings
            w.build(kind, p_bp_filter=[1.0, 2.0, 3], s_bp_filter=[1.0, 2.0, 3], p_onset_win=[0.1, 3.0],
                    s_onset_win=[0.1, 3.0], onset_centred=True)
            made.append((w.build(kind), {}))
        for obj, given in made:
            _check(ctx, kind, obj, given, table, DEFAULT)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def cases(tier):
    return [dict(kind=k) for k in TABLES]


HARNESSES = [
    dict(name="settings", fn=settings, cases=cases, env=env,
         expect=[f"{k}: {m}" for k in TABLES for m in (GIVEN, DEFAULT)],
         bounds="every documented setting of QuakeScan, Trigger, STALTAOnset, GaussianPicker, Archive, LocalMag, Amplitude and Magnitude: "
                "none, each alone, all but each, all; numbers are any reals in their range"),
]
