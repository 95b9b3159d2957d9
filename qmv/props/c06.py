# -*- coding: utf-8 -*-
"""C06: onset functions line up with their traveltime tables."""

import numpy as np
import pandas as pd

from qmv.props.c10 import ctx_frac
from qmv.props.common import core_env, time_env, values
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "data are on the sample grid, request start and end are whole samples apart",
    "the native STA/LTA kernels are those of C05 (executed from their LLVM IR)",
]
STUBS = [
    "detrend and taper leave the data alone; filter adds a pattern that depends on its parameters (its arithmetic "
    "is SciPy's)",
]
USES_IR = ["overlapping_sta_lta", "centred_sta_lta"]


def env():
    return time_env() + core_env()


def _pattern(freqmin, freqmax, j):
    return freqmin * (j % 3) + freqmax * ((j * j) % 5)


class Processing:
    def __enter__(self):
        import obspy.core.trace as ot

        self.T = ot.Trace
        self.saved = {n: getattr(ot.Trace, n) for n in ("detrend", "taper", "filter")}
        self.filters = []
        rec = self.filters

        def filt(tr, type, **k):
            rec.append((type, k.get("corners"), k.get("zerophase")))
            t0 = sec(tr.stats.starttime)
            if type == "bandpass":
                first = int(round(float(t0 - self.start) * tr.stats.sampling_rate))
                tr.data = tr.data + np.array([_pattern(k["freqmin"], k["freqmax"], first + j)
                                              for j in range(len(tr.data))], dtype=float)
            return tr

        self.T.detrend = self.T.taper = lambda tr, *a, **k: tr
        self.T.filter = filt
        return self

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(self.T, n, v)


def _value(s, c, j):
    return float((7 * j * (ord(s[-1]) - 60) + 13 * (ord(c[-1]) % 11) + j * j) % 23) + 1.0


def make_lut(stations, phases):
    """A real lookup table, traveltimes tagged by station and phase."""
    import pyproj

    from quakemigrate.lut.lut import LUT

    gp = pyproj.Proj(proj="lcc", units="km", lon_0=10, lat_0=50, lat_1=49.9, lat_2=50.1, datum="WGS84", ellps="WGS84")
    cp = pyproj.Proj(proj="longlat", ellps="WGS84", datum="WGS84")
    lut = LUT(ll_corner=[10.0, 50.0, 0.0], ur_corner=[10.01, 50.01, 1.0], node_spacing=[1.0, 1.0, 1.0],
              grid_proj=gp, coord_proj=cp)
    lut.phases = list(phases)
    lut.station_data = pd.DataFrame({"Longitude": 10.0, "Latitude": 50.0, "Elevation": 0.0,
                                     "Name": sorted(stations)})
    n = lut.node_count
    for i, s in enumerate(sorted(stations)):  # another order than that of the data
        lut.traveltimes[s] = {}
        for p in sorted(phases, reverse=True):
            lut.traveltimes[s][p] = np.full(n, 1.0 + i + 10.0 * (p == "S"))
    return lut


def tag(stations, key):
    s, p = key.split("_")
    return 1.0 + sorted(stations).index(s) + 10.0 * (p == "S")


STATES = ("ok", "missing", "flat", "short", "late", "gap", "rate", "double")


def onsets(ctx, states, stations=("STB", "STA"), phases=("P", "S"), rate=10, n=14, position="classic", backend=False,
           transform="abs", opts=None, min_onset=0.4, spike=None, extra=False, timespan=None, reuse=False):
    """states: {station.channel: [possible states]}; reuse: the onset function was used before, with other settings"""
    from obspy import Stream, Trace

    import quakemigrate.core as core
    import quakemigrate.util as util
    from quakemigrate.io.data import WaveformData
    from quakemigrate.signal.onsets import STALTAOnset

    opts = dict(opts or {})
    f = ctx_frac(rate) if ctx.symbolic else 1.0 / rate
    t0 = 3600
    d = WaveformData(at(ctx, t0), at(ctx, t0 + (n - 1) * f), stations=pd.Series(list(stations), name="Name"))
    st = Stream()
    filters = {"P": [1.0, 3.0, 2], "S": [0.5, 2.0, 3]}
    windows = {"P": [0.1, 0.3], "S": [0.2, 0.4]}
    usable = {}
    for i, (ch, poss) in enumerate(states.items()):
        s, c = ch.split(".")
        state = poss[0] if len(poss) == 1 else ctx.choose(f"state_{ch}", list(poss))
        vals = [_value(s, c, j) for j in range(n)]
        symb = bool(spike) and ch in spike
        if symb:
            for j in spike[ch]:
                vals[j] = ctx.real(f"{ch}_{j}", 1, 50) * 1
        segs, r = [(0, n)], rate
        if state == "missing":
            segs = []
        elif state == "flat":
            vals = None
        elif state == "short":
            segs = [(0, n - 2)]
        elif state == "gap":
            segs = [(0, 6), (8, n)]
        elif state == "rate":
            r = rate + 3
        elif state == "late":
            segs = [(1, n)]
        elif state == "double":
            r = 2 * rate
            segs = [(0, 2 * n - 1)]
        for a, b in segs:
            if state == "double":
                v = [vals[j // 2] if j % 2 == 0 else 99.0 for j in range(a, b)]
            else:
                v = [vals[j] for j in range(a, b)] if vals else None
            tr = Trace(data=values(ctx, v) if v and symb else
                       np.array(v if v else [-_pattern(*filters["P" if c.endswith("Z") else "S"][:2], j) + 4.0
                                             for j in range(a, b)]),
                       header=dict(network="NW", station=s, channel=c, sampling_rate=r,
                                   starttime=at(ctx, t0 + a * f)))
            st += tr
        good = state in ("ok", "double") or (state in ("short", "late") and not opts.get("full_timespan", True)) or \
            (state == "gap" and opts.get("allow_gaps") and not opts.get("full_timespan", True))
        usable[ch] = (good, state, vals)
    if extra:  # a station that was not asked for
        st += Trace(data=np.arange(n) * 1.0, header=dict(network="NW", station="STX", channel="HHZ", sampling_rate=rate,
                                                         starttime=at(ctx, t0)))
    d.waveforms = st
    if reuse:
        on = STALTAOnset(position="classic" if position == "centred" else "centred", sampling_rate=rate, phases=["S", "P"],
                         use_python_backend=not backend, signal_transform="energy" if transform == "abs" else "abs",
                         min_onset_value=0.05, bandpass_filters={p: [v[0] + 0.2, v[1] + 0.3, 4] for p, v in filters.items()},
                         sta_lta_windows={p: [0.3, 0.6] for p in windows}, all_channels=not opts.get("all_channels", False),
                         full_timespan=not opts.get("full_timespan", True), allow_gaps=not opts.get("allow_gaps", False))
        w = WaveformData(at(ctx, t0), at(ctx, t0 + (n - 1) * f), stations=pd.Series(list(stations) + ["STW"], name="Name"))
        w.waveforms = Stream([Trace(data=np.array([_value(s, c, j) + 3.0 for j in range(n)]),
                                    header=dict(network="NW", station=s, channel=c, sampling_rate=rate, starttime=at(ctx, t0)))
                              for s in list(stations) + ["STW"] for c in ("HHZ", "HHN", "HHE")])
        with Processing() as proc:
            proc.start = t0
            on.calculate_onsets(w)
        on.position, on.phases, on.use_python_backend, on.signal_transform = position, list(phases), backend, transform
        on.min_onset_value, on.bandpass_filters, on.sta_lta_windows = min_onset, filters, windows
        for k, v in dict(dict(all_channels=False, full_timespan=True, allow_gaps=False), **opts).items():
            setattr(on, k, v)
    else:
        on = STALTAOnset(position=position, sampling_rate=rate, phases=list(phases), use_python_backend=backend,
                         signal_transform=transform, min_onset_value=min_onset, bandpass_filters=filters,
                         sta_lta_windows=windows, **opts)
    lut = make_lut(stations, phases)
    counts = {"P": 1, "S": 2}
    want = {}
    for p in phases:
        for s in stations:
            chans = {c: u for c, u in usable.items() if c.split(".")[0] == s and
                     (c.endswith("Z") if p == "P" else c[-1] in "NE12") and u[1] != "missing"}
            good = [c for c in chans if chans[c][0]]
            ok = (len(good) == len(chans) == counts[p]) if opts.get("all_channels") else bool(good)
            want[f"{s}_{p}"] = good if ok else []
    kernel = core.overlapping_sta_lta if position == "classic" else core.centred_sta_lta
    tiny = float(np.sqrt(np.finfo(float).tiny))
    squares = {}
    for k in want:
        s, p = k.split("_")
        nsta, nlta = [int(round(w * rate)) + 1 for w in windows[p]]
        sq = None
        for c in want[k]:
            good, state, vals = usable[c]
            lo, hi, _ = filters[p]
            seg = {"short": range(n - 2), "gap": [j for j in range(n) if not 6 <= j < 8],
                   "late": range(1, n)}.get(state, range(n))
            x = [(vals[j] + _pattern(lo, hi, j)) if j in seg else tiny for j in range(n)]
            x = [v if transform == "abs" else v * v for v in x]
            o = kernel(values(ctx, x) if spike else np.array(x), nsta, nlta)
            sq = [o[j] * o[j] + (sq[j] if sq else 0) for j in range(n)]
        squares[k] = sq
    with Processing() as proc:
        proc.start = t0
        try:
            got, od = on.calculate_onsets(d, timespan) if timespan else on.calculate_onsets(d)
        except util.DataAvailabilityException:
            ctx.check(not any(want.values()), "no usable data at all when refused")
            return
    ctx.check(any(want.values()), "refused when there is no usable data")
    ctx.check(set(od.availability) == set(want), "one availability per station and phase")
    for k in want:
        ctx.check(od.availability[k] == (1 if want[k] else 0), "available exactly when its channels are usable")
    keys = [k for k, v in od.availability.items() if v == 1]
    ctx.check(len(got) == len(keys), "one onset function per available station and phase")
    tt = lut.serve_traveltimes(rate, od.availability)
    ctx.check(tt.shape[-1] == len(got), "one traveltime table per onset function")
    ctx.check(od.sampling_rate == rate, "sampling rate")
    ctx.check(ctx.all([ctx.eq(sec(od.starttime), sec(d.starttime)), ctx.eq(sec(od.endtime), sec(d.endtime))]),
              "the onset functions' span is that of the data")
    ctx.check(list(od.phases) == list(phases), "phases asked for")
    for r, k in enumerate(keys):
        s, p = k.split("_")
        ctx.check(bool(np.all(tt[..., r] == int(round(tag(stations, k) * rate)))), "row and table belong together")
        row = got[r]
        ctx.check(len(row) == n, "onset functions cover the window and both pads")
        sq = squares[k]
        for j in range(n):
            rms2 = sq[j] / len(want[k])
            v = row[j]
            ctx.check(v >= min_onset - 1e-12, "no onset value below the minimum")
            e = v * v - rms2
            ctx.check(ctx.any([ctx.all([e < 1e-9, e > -1e-9]), ctx.all([ctx.eq(v, min_onset), rms2 <= min_onset**2 + 1e-9])])
                      if ctx.symbolic else abs(v - max(min_onset, float(rms2) ** 0.5)) < 1e-7,
                      "root mean square of its components, at least the minimum")
        same = od.onsets[s][p]
        ctx.check(len(same) == n and ctx.all([ctx.eq(same[j], row[j]) for j in range(n)]), "stored onset is the migrated one")
        used = {tr.id for tr in od.filtered_waveforms if tr.stats.station == s and
                (tr.stats.channel.endswith("Z") == (p == "P"))}
        ctx.check(used == {f"NW.{c.split('.')[0]}..{c.split('.')[1]}" for c in want[k]}, "waveforms kept are those used")


def cases(tier):
    ok = ["ok"]
    some = ["ok", "missing", "flat"]
    A = {"STA.HHZ": some, "STA.HHN": ok, "STA.HHE": ok, "STB.HHZ": ok, "STB.HHN": some, "STB.HHE": ["ok", "short"]}
    G = {"STA.HHZ": ["ok", "gap"], "STA.HHN": ["gap", "missing"], "STA.HHE": ok, "STB.HHZ": ["short", "flat"], "STB.HHE": ["gap"]}
    F = dict(all_channels=True)
    out = [
        dict(states=A),
        dict(states=A, opts=F, position="centred"),
        dict(states=A, phases=("S", "P"), stations=("STA", "STB"), backend=True, transform="energy"),
        dict(states={"STA.HHZ": ["ok", "missing"], "STA.HHN": ok, "STA.HHE": ["ok", "gap"], "STB.HHZ": ok, "STB.HHE": ok},
             reuse=True),
        dict(states={"STA.HHZ": ["ok", "late"], "STB.HHZ": ["ok", "missing"], "STB.HHE": ok, "STB.HHN": ["gap"]}, reuse=True,
             opts=dict(allow_gaps=True, full_timespan=False), position="centred", backend=True, transform="energy", phases=("S", "P")),
        dict(states={"STA.HHZ": ["missing", "ok", "rate"], "STB.HHZ": ["missing", "rate", "gap"]}, phases=("P",), extra=True),
        dict(states=G, opts=dict(allow_gaps=True, full_timespan=False), min_onset=0.9),
        dict(states=G, opts=dict(allow_gaps=False, full_timespan=False), position="centred"),
        dict(states={"STA.HHN": ok, "STA.HHE": ok, "STB.HHN": ["flat"]}, phases=("S",), spike={"STA.HHN": [8], "STA.HHE": [8]}, min_onset=0.8),
        dict(states={"STA.HHZ": ok, "STB.HHZ": ok}, phases=("P",), spike={"STB.HHZ": [7, 9]}, min_onset=1.1, backend=True),
        dict(states={"STA.HHZ": ["double", "late"], "STA.HHE": ["ok", "double"], "STA.HHN": ["late", "double"]}, spike={"STA.HHE": [6]}),
        dict(states={"STA.HHZ": ["late", "ok"], "STA.HHE": ["gap"]}, opts=dict(full_timespan=False, allow_gaps=True), position="centred"),
        dict(states={"STA.HH1": ok, "STA.HH2": ok, "STA.HHZ": ok, "STB.HHZ": ["ok", "missing"]}, position="centred", min_onset=0.02),
    ]
    if tier == "thorough":
        out += [dict(states={"STA.HHZ": list(STATES), "STB.HHN": list(STATES), "STB.HHE": list(STATES)}, opts=o, position=q,
                     backend=b, stations=s) for o in ({}, F, dict(allow_gaps=True, full_timespan=False))
                for q in ("classic", "centred") for b in (False, True) for s in (("STA", "STB"), ("STB", "STA"))]
    return out


HARNESSES = [
    dict(name="onsets", fn=onsets, cases=cases, env=env, subproc=True,
         expect=["row and table belong together", "onset functions cover the window and both pads",
                 "root mean square of its components, at least the minimum", "no onset value below the minimum",
                 "available exactly when its channels are usable"],
         bounds="<=2 stations, 2 phases, 3 components; every combination of complete, missing, flat, short, gappy and "
                "wrongly sampled channels listed in the module; 14 samples; any value of one sample"),
]
