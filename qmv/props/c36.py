# -*- coding: utf-8 -*-
"""C36: outputs of locate, event by event."""

import pathlib
import shutil

import numpy as np
import pandas as pd

from qmv.props import lutrig, rig
from qmv.props.c10 import ctx_frac
from qmv.props.c16 import _frame
from qmv.props.c31 import moment
from qmv.props.c34 import Inventory, Marks
from qmv.props.common import csv_env
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "times are exact; marginal windows and pads are whole samples",
    "onset values are fixed tags with one clear peak per event, at a chosen time and node",
]
STUBS = ["archive, onset function, picker and magnitudes record / serve tags; summary plots are recorded; logging off",
         "real lookup table over an affine projection; real files in a scratch directory; miniSEED files are recorded",
         "instrument corrections mark the traces"]
DAY = 86400
GRID = (3, 3, 3)
ROWS = {0: "STA_P", 2: "STA_S"}


def env():
    return rig.scan_env() + csv_env()


def outputs(ctx, rate, mw, faults, peaks, flags, events=2, mags=False, cuts=None, fmt="MSEED", units=None, reuse=False, at_=None):
    """faults / peaks: what may happen to each event (chosen by the solver); flags: on, off or either."""
    import obspy
    from obspy import Stream, Trace

    import quakemigrate.io.triggered_events as te
    import quakemigrate.plot.event as pe
    import quakemigrate.signal.scan as scan
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.pickers.base import PhasePicker

    f = ctx_frac(rate) if ctx.symbolic else 1 / rate
    pre, post = 1, 4
    n = int(round(4 * mw * rate)) + 1
    half = int(round(mw * rate))
    scratch = pathlib.Path(rig.scratch_dir("c36"))
    names = ("write_coalescence", "write_marginal_coalescence", "plot_event_summary", "write_cut_waveforms",
             "write_real_waveforms", "write_wa_waveforms")
    log, store = [], {}
    ctx.plain_floats = True
    swrite = Stream.write
    splot = (getattr(scan, "event_summary", None), pe.event_summary)
    units = units or {}
    try:
        fault = [ctx.choose(f"fault{i}", faults) for i in range(events)]
        peak = [ctx.choose(f"peak{i}", peaks) if k in ("ok", None) else n // 2 for i, k in enumerate(fault)]
        node = [(1, 1, 1), (0, 2, 1), (2, 0, 0)]
        t = []
        for i in range(events):
            lo, hi = (DAY, 2 * DAY - 1) if at_ is None else (DAY + at_ + 100 * i, DAY + at_ + 100 * i + 90)
            x = ctx.real(f"trigger{i}", lo, hi)
            if t:
                ctx.assume(x > t[-1] + 1)
            t.append(x)

        class Archive(rig.Archive):
            def read_waveform_data(self, b, e, *pads, **kw):
                d = super().read_waveform_data(b, e, *pads, **kw)
                d.response_inv = Inventory([])
                d.raw_waveforms = Stream()
                for s, c in (("STA", "HHZ"), ("STB", "HHN")):
                    d.raw_waveforms += Trace(
                        data=np.array([1000 * d.qmv_index + k % 7 for k in range(n + 40)], dtype=np.int32),
                        header=dict(network="NW", station=s, channel=c, sampling_rate=rate,
                                    starttime=at(ctx, t[d.qmv_index]) - (n // 2 + 20) / rate))
                return d

        ar = Archive({i: k for i, k in enumerate(fault) if k != "ok"})

        tts = {}
        for r, k in ROWS.items():
            tts[k.split("_")[1]] = np.array([[[(a + 2 * b + c) % 3 * (1 + (r > 0)) / rate for c in range(3)]
                                              for b in range(3)] for a in range(3)])

        def tag(w, r, j):
            tt = tts[ROWS[r][-1]]
            top = pre + peak[w] + int(round(tt[node[w]] * rate))
            return 9.0 + r + w if j == top else 1.1 + 0.05 * ((j * 7 + 3 * r + w) % 5)

        onset = rig.make_onset(ctx, rate, lambda span: (pre / rate, post / rate) if abs(span - 4 * mw) < 1e-9
                               else ((pre + 2) / rate, (post + 3) / rate), tag,
                               lambda w: {"STA_P": 1, "STB_P": 0, "STA_S": 1, "STB_S": 0}, plain=True)

        class Picker(PhasePicker):
            def pick_phases(self, event, lut, run):
                log.append(("pick", str(event.uid), "spline" in event.locations, event.map4d.shape[-1], dict(event.localmag)))
                df = pd.DataFrame([["STA", "P", "-1", "-1", 0.1234, 5.4321]],
                                  columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR"])
                event.add_picks(df)
                self.write(run, event.uid, df)
                return event, None

        ap = [ctx.real("amp_pre", 0, 30), ctx.real("amp_post", 0, 30)] if mags else None

        class Mags(LocalMag):
            def __init__(self):
                class Amp:
                    def pad(self, window, longest, fraction):
                        log.append(("pad", window, longest, fraction))
                        return tuple(ap)

                self.amp = Amp()

            def __str__(self):
                return ""

            def calc_magnitude(self, event, lut, run):
                log.append(("mag", str(event.uid), "df" in event.picks))
                event.add_local_magnitude(1.5 + [x for x, c in enumerate(log) if c[0] == "mag"][-1] * 0.001, 0.25, 0.5)
                return event, 1.5

        def plot(run, event, marginalised_coa_map, lut, *a, **k):
            log.append(("plot", str(event.uid), np.array(marginalised_coa_map, dtype=float), k.get("xy_files")))

        pe.event_summary = plot
        if splot[0] is not None:
            scan.event_summary = plot

        def write(st, filename, format=None, **k):
            store[str(pathlib.Path(filename).relative_to(scratch / "run" / "locate" / "sub"))] = (st.copy(), format)
            if not ctx.symbolic:
                swrite(st, filename, format=format, **k)

        with lutrig.Projection(), Marks([]):
            lut = lutrig.make(ctx, [0.0, 0.0, 0.0], [1.75, 1.75, 3.5], [1.0, 1.0, 2.0])
            lut.station_data = lutrig.stations(["STA"])
            lut.traveltimes = {"STA": tts}
            lut.phases = ["P", "S"]
            opts = {k: flags.get(k, flags.get("*")) for k in names}
            opts = {k: ctx.bool(k) if v is None else v for k, v in opts.items()}
            qs = scan.QuakeScan(ar, lut, onset, run_path=scratch, run_name="run", run_subname="sub",
                                marginal_window=mw, threads=1, picker=Picker(), mags=Mags() if mags else None,
                                xy_files="lines.xy", cut_waveform_format=fmt, **units, **(opts if mags else {}))
            if not mags:
                for name in names:
                    setattr(qs, name, opts[name])
            if cuts:
                qs.pre_cut, qs.post_cut = [None if c is None else ctx.real(k, c[0], c[1]) for k, c in
                                           zip(("pre_cut", "post_cut"), cuts)]
            # a previous run of locate left nothing that matters
            te.write_triggered_events(qs.run, _frame(ctx, t, 0), at(ctx, DAY), False)
            Stream.write = write
            try:
                if reuse:  # the same object has been used before, with other settings
                    now = {k: getattr(qs, k) for k in names + ("pre_cut", "post_cut", "marginal_window", "cut_waveform_format",
                                                               "real_waveform_units", "wa_waveform_units")}
                    for k in names:
                        setattr(qs, k, not now[k])
                    qs.pre_cut, qs.post_cut, qs.marginal_window = 0.5, 0.75, 2 * mw
                    qs.cut_waveform_format = "SAC" if fmt == "MSEED" else "MSEED"
                    for k in ("real_waveform_units", "wa_waveform_units"):
                        setattr(qs, k, "velocity" if now[k] == "displacement" else "displacement")
                    qs.locate(at(ctx, DAY), at(ctx, 2 * DAY))
                    ctx.check(len(ar.requests) == events, "every triggered event is tried, once")
                    shutil.rmtree(scratch / "run" / "locate", ignore_errors=True)
                    store.clear()
                    ar.requests.clear()
                    log.clear()
                    for k, v in now.items():
                        setattr(qs, k, v)
                qs.locate(at(ctx, DAY), at(ctx, 2 * DAY))
            finally:
                Stream.write = swrite
            on = {k: bool(v) for k, v in opts.items()}
            _verify(ctx, qs, ar, scratch, log, store, on, t, fault, peak, node, tts, tag, n, half, f, rate, mw, pre, post,
                    mags, ap, fmt, units)
    finally:
        Stream.write = swrite
        pe.event_summary = splot[1]
        if splot[0] is not None:
            scan.event_summary = splot[0]
        shutil.rmtree(scratch, ignore_errors=True)


def _verify(ctx, qs, ar, scratch, log, store, on, t, fault, peak, node, tts, tag, n, half, f, rate, mw, pre, post, mags, ap,
            fmt, units):
    import quakemigrate.io.triggered_events as te

    events = len(t)
    ctx.check(len(ar.requests) == events, "every triggered event is tried, once")
    base = scratch / "run" / "locate" / "sub"
    uids = [str(x) for x in te.read_triggered_events(qs.run, starttime=at(ctx, DAY), endtime=at(ctx, 2 * DAY))["EventID"]]
    want = set()
    located = []
    for i, (b, e, pa, pb) in enumerate(ar.requests):
        ctx.check(ctx.all([ctx.eq(sec(b), t[i] - 2 * mw - pre * f), ctx.eq(sec(e), t[i] + 2 * mw + post * f)]),
                  "events are taken in order, each with its own window")
        if mags:
            ctx.check(ctx.all([pa >= ap[0] - mw - pre / rate - 1e-9, pb >= ap[1] - mw - post / rate - 1e-9]),
                      "raw data reach the amplitude windows")
        for c, p, pad in ((qs.pre_cut, pa, pre), (qs.post_cut, pb, post)):
            if c is not None:
                ctx.check(p >= c - mw - pad / rate - 1e-9, "raw data reach the cuts")
        if fault[i] != "ok":
            continue
        if on["write_coalescence"]:
            want.add(f"coalescence_maps/{uids[i]}.npy")
        if abs(peak[i] - n // 2) >= half:
            continue
        located.append(i)
        want |= {f"events/{uids[i]}.event", f"picks/{uids[i]}.picks"}
        if on["write_marginal_coalescence"]:
            want.add(f"marginalised_coalescence_maps/{uids[i]}.npy")
        ext = {"MSEED": "m", "SAC": "sac", "GSE2": "gse2"}[fmt]
        for k in ("raw", "real", "wa"):
            if on["write_cut_waveforms" if k == "raw" else f"write_{k}_waveforms"]:
                want.add(f"{k}_cut_waveforms/{uids[i]}.{ext}")
    have = {str(p.relative_to(base)) for p in base.rglob("*") if p.is_file()} if base.exists() else set()
    have = {h for h in have if not h.startswith("logs") and "_cut_waveforms" not in h} | set(store)
    ctx.check(have == want, "exactly the outputs asked for, of exactly the located events")
    if have != want:
        return
    order = [c[:2] for c in log if c[0] in ("pick", "mag", "plot")]
    asked = ["pick"] + (["mag"] if mags else []) + (["plot"] if on["plot_event_summary"] else [])
    ctx.check(order == [(k, uids[i]) for i in located for k in asked], "picks, then magnitude, then plot, once per located event")
    nmag = [j for j, c in enumerate(log) if c[0] == "mag"]
    for m, i in enumerate(located):
        lo, hi = max(0, peak[i] - half), min(n - 1, peak[i] + half)
        c = [x for x in log if x[:2] == ("pick", uids[i])][0]
        ctx.check(c[2] and c[3] == hi - lo + 1 and not c[4], "picking sees the located event, trimmed to its window")
        row = pd.read_csv(base / "events" / f"{uids[i]}.event", dtype={"EventID": str, "DT": str})
        ctx.check(len(row) == 1 and row["EventID"][0] == uids[i], "event file carries its EventID")
        dt = row["DT"][0]
        ctx.check(ctx.eq(moment(ctx, dt.split("T")[0], dt.split("T")[1].rstrip("Z")), t[i] + (peak[i] - n // 2) * f, 2e-6),
                  "event file carries the time of the peak")
        ctx.check(("ML" in row.columns) == mags, "magnitude columns only with magnitudes")
        if mags:
            ctx.check(abs(float(row["ML"][0]) - (1.5 + nmag[m] * 0.001)) < 6e-3 and float(row["ML_Err"][0]) == 0.25 and
                      float(row["ML_r2"][0]) == 0.5, "event file carries the event's magnitude")
        ctx.check(len(pd.read_csv(base / "picks" / f"{uids[i]}.picks")) == 1, "picks file")
    for i in range(events):
        if fault[i] != "ok":
            continue
        full = np.zeros(GRID + (n,))
        for idx in np.ndindex(*GRID):
            for j in range(n):
                v = [np.log(tag(i, r, pre + j + int(round(tts[k[-1]][idx] * rate)))) for r, k in ROWS.items()]
                full[idx + (j,)] = np.exp(sum(v) / 2)
        lo, hi = max(0, peak[i] - half), min(n - 1, peak[i] + half)
        if on["write_coalescence"]:
            got = np.load(base / "coalescence_maps" / f"{uids[i]}.npy", allow_pickle=True).astype(float)
            ctx.check(got.shape == full.shape and np.allclose(got, full), "full map covers the whole scanned window")
            from quakemigrate.io import read_coalescence

            path = base / "coalescence_maps" / f"{uids[i]}.npy"
            if np.load(path, allow_pickle=True).dtype != object:  # symbolic maps are saved as objects
                back = read_coalescence(str(path))
                ctx.check(np.array_equal(back, got), "maps are read back as written")
        if i not in located:
            continue
        marg = full[..., lo:hi + 1].sum(axis=-1)
        marg = marg / marg.max()
        if on["write_marginal_coalescence"]:
            got = np.load(base / "marginalised_coalescence_maps" / f"{uids[i]}.npy", allow_pickle=True).astype(float)
            ctx.check(got.shape == GRID and np.allclose(got, marg), "marginalised map sums the marginal window")
        if on["plot_event_summary"]:
            c = [x for x in log if x[:2] == ("plot", uids[i])][0]
            ctx.check(np.allclose(c[2], marg), "plot shows the marginalised map")
    for name, (st, form) in store.items():
        i = uids.index(pathlib.Path(name).name.split(".")[0])
        k = name.split("_")[0]
        u = dict(real=units.get("real_waveform_units"), wa=units.get("wa_waveform_units"), raw=None)[k]
        out = "VEL" if u == "velocity" else "DISP"
        mark = {"raw": [], "real": [f"removed to {out}"], "wa": [f"removed to {out}", "simulated"]}[k]
        ctx.check(form == fmt, "waveform format")
        ot = t[i] + (peak[i] - n // 2) * f
        for tr in st:
            ctx.check(len(tr.data) > 0 and int(tr.data[0]) // 1000 == i and list(tr.stats.get("qmv", [])) == mark,
                      "waveforms are the event's own, in the kind and units asked")
            a, b = sec(tr.stats.starttime), sec(tr.stats.starttime) + (len(tr.data) - 1) * f
            first, last = t[i] - (n // 2 + 20) * f, t[i] + (n - 1 - n // 2 + 20) * f
            if qs.pre_cut is not None and k != "x":
                first = ot - qs.pre_cut
            if qs.post_cut is not None:
                last = ot + qs.post_cut
            ctx.check(ctx.all([a - first <= 0.6 * f, first - a <= 0.6 * f, b - last <= 0.6 * f, last - b <= 0.6 * f]),
                      "waveforms span the cuts about the event's origin time")
        ctx.check(sorted(tr.stats.station for tr in st) == ["STA", "STB"], "all channels written")


def cases(tier):
    P = [4, 2, 3, 6, 5, 0, 8]  # n = 9, half = 2
    off = {"*": False}
    A = {k: True for k in ("write_coalescence", "plot_event_summary", "write_wa_waveforms")}
    B = {k: False for k in ("write_marginal_coalescence", "write_real_waveforms", "write_cut_waveforms")}
    out = [
        dict(rate=4, mw=0.5, events=1, faults=["ok"], peaks=[5], flags=A),
        dict(rate=4, mw=0.5, events=1, faults=["ok"], peaks=[4, 6], flags=B),
        dict(rate=4, mw=0.5, events=1, faults=["ok"], peaks=[3], flags=B, mags=True,
             units=dict(real_waveform_units="velocity")),
        dict(rate=4, mw=0.5, events=1, faults=["ok"], peaks=P, flags={"*": True}, mags=True),
        dict(rate=4, mw=0.5, events=2, faults=["ok", "empty", "gap", "availability"], peaks=[4], flags={"*": True}, at_=10),
        dict(rate=4, mw=0.5, events=3, faults=["ok", "gap"], peaks=[5, 0], flags={**off, "write_coalescence": True}, mags=True,
             at_=10),
        dict(rate=4, mw=0.5, events=2, faults=["ok"], peaks=[3, 5], flags={"*": True}, cuts=[[0.9, 1.1], [0.5, 0.6]],
             units=dict(wa_waveform_units="velocity"), mags=True, at_=20),
        dict(rate=4, mw=0.5, events=2, faults=["ok"], peaks=[3], flags={**off, "write_cut_waveforms": True},
             cuts=[None, [0.7, 0.9]], fmt="SAC", mags=True),
        dict(rate=4, mw=0.5, events=2, faults=["ok", "empty"], peaks=[4], flags={"*": True}, reuse=True),
        dict(rate=4, mw=0.5, events=2, faults=["ok"], peaks=[3], flags={"write_cut_waveforms": True, "write_coalescence": True,
                                                                     "*": False}, reuse=True, mags=True,
             cuts=[[0.9, 1.1], None], fmt="SAC", units=dict(wa_waveform_units="velocity"), at_=20),
    ]
    if tier == "thorough":
        out += [
            dict(rate=4, mw=0.5, events=1, faults=["ok"], peaks=[5, 6], flags={}),
            dict(rate=4, mw=0.5, events=1, faults=["ok"], peaks=[3], flags={}, mags=True,
                 units=dict(real_waveform_units="velocity")),
            dict(rate=4, mw=0.5, events=3, faults=["ok", "gap"], peaks=[5, 0], flags={**off, "write_coalescence": True},
                 mags=True),
            dict(rate=4, mw=0.5, events=2, faults=["ok", "empty", "gap", "availability"], peaks=[4, 6], flags={"*": True}),
            dict(rate=4, mw=0.5, events=3, faults=["ok", "empty", "gap", "availability"], peaks=[3, 5, 6, 0],
                 flags={"*": True}, mags=True),
            dict(rate=10, mw=0.3, events=2, faults=["ok"], peaks=[6, 4, 9, 3, 0, 12], flags={}, cuts=[[0.1, 2], [0.1, 2]]),
        ]
    return out


HARNESSES = [
    dict(name="outputs", fn=outputs, cases=cases, env=env, subproc=True,
         expect=["exactly the outputs asked for, of exactly the located events", "event file carries the time of the peak",
                 "picks, then magnitude, then plot, once per located event", "marginalised map sums the marginal window",
                 "waveforms span the cuts about the event's origin time", "raw data reach the amplitude windows",
                 "full map covers the whole scanned window"],
         bounds="1-3 events at any times of a day; any combination of missing data, gaps, no available station and peaks "
                "inside, at the edge of and outside the marginal window; any combination of output options; any amplitude "
                "pads up to 30 s and cuts of 0.5-1.5 s"),
]
