# -*- coding: utf-8 -*-
"""C31: event files and catalogue exports."""

import math
import pathlib
import re
import shutil
import warnings

import numpy as np
import pandas as pd

from qmv.props import lutrig, pickrig, rig
from qmv.props.c29 import isnan, near, table
from qmv.props.common import col, csv_env, event_env, time_env
from qmv.sym import is_sym
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "exact real arithmetic; numbers written with a fixed number of digits are within half a unit of the last digit",
    "event locations in the SAC harness are fixed values: great-circle distances are computed by geographiclib",
]
STUBS = [
    "real .event, .picks, .amps, .obs, marker, station, miniSEED and SAC files in a scratch directory; symbolic numbers appear "
    "in them as unique texts that convert back; SAC headers are recorded before they are packed as 32-bit floats",
]
DAY = 86400
KM_PER_DEG = 2 * math.pi * 6371.0 / 360


def env():
    return time_env() + csv_env() + event_env()


def within(ctx, a, b, tol):
    d = a - b
    return ctx.all([d <= tol, d >= -tol])


def rel(ctx, a, b, digits):
    """a was written with so many significant digits"""
    m = abs(b) * (0.5000001 * 10.0 ** (1 - digits)) + 1e-9
    return ctx.all([a - b <= m, b - a <= m])


def moment(ctx, date, clock, padded=True):
    """Instant given as YYYY-MM-DD and HH:MM:SS.FFFFFF texts (seconds since the base)."""
    from obspy import UTCDateTime

    from qmv import symtime

    if ctx.symbolic:
        t = symtime.untoken(f"{date}T{clock}Z")
        if t is not None:
            return sec(UTCDateTime(ns=t))
    h, m, s = clock.split(":")
    ctx.check(re.fullmatch(r"\d{4}-\d\d-\d\d", date) is not None and len(h) == len(m) == 2, "date, hour and minute are padded")
    if padded:
        ctx.check(ctx.two_digits(s), "seconds are padded")
    return sec(UTCDateTime(f"{date}T{h}:{m}:00Z")) + ctx.clock(s)


# ----------------------------------------------------------------- files -> ObsPy catalogue
UID = "20210101235950123"
BASE_LOC = dict(X=1.123456789, Y=-2.987654321, Z=12.3456789, GX=1.2233445566, GY=-2.8877665544, GZ=13.13579,
                gx=0.75319, gy=1.86420, gz=2.97531, cx=3.14159, cy=4.27182, cz=5.57721)


def decimals(units, spacing):
    """digits kept in the .event file: (geographic, depth and errors)"""
    out = []
    for axis, (a, s) in enumerate(zip(lutrig.A, spacing)):
        p = -math.floor(math.log10(s / a) + 1e-9)
        out.append(max(p + 2, (3 if units == "km" else 0) if axis == 2 else 6))
    return out


def catalogue(ctx, units, spacing, sym, ml=None, amps=False, lmph="S", sub="", decoys=0, picks=2, names=None):
    import quakemigrate.export.to_obspy as to
    from quakemigrate.io.amplitudes import write_amplitudes
    from quakemigrate.io.event import Event
    from quakemigrate.signal.pickers.base import PhasePicker

    class Picker(PhasePicker):
        def pick_phases(self):
            pass

    factor = {"km": 1e3, "m": 1.0}[units]
    v = dict(BASE_LOC)
    t = DAY - 3.25
    if "time" in sym:
        t = ctx.real("origin", DAY - 8, DAY + 8)
    for k in ("X", "Y", "Z", "GX", "GY", "GZ"):
        if k in sym:
            v[k] = ctx.real(k, -60, 60)
    for k in ("gx", "gy", "gz"):
        if k in sym:
            v[k] = ctx.real(k, 0.001, 900)
    coa = {k: ctx.real(k, 0.01, 500) if "coa" in sym else x for k, x in
           dict(COA=6.25175, COA_NORM=1.8763, TRIG=5.2344, DEC=4.26551, DECN=1.43212).items()}
    scratch = rig.scratch_dir("c31")
    try:
        run = pickrig.run_at(scratch)
        run.subname = sub
        with lutrig.Projection():
            lut = lutrig.make(ctx, (0.0, 0.0, 0.0), [3.8 * s for s in spacing], list(spacing), units)
            for d in range(decoys):
                other = Event(1.0, dict(EventID=f"2021010200000000{d}", CoaTime=at(ctx, DAY + 100 * d), TRIG_COA=1.0, COA=2.0,
                                        COA_NORM=3.0))
                other.add_compute_output([at(ctx, DAY + 100 * d)], np.array([2.0]), np.array([3.0]), np.array([[9.0, 9.0, 9.0]]),
                                         None, None)
                other.add_spline_location(np.array([9.5, 9.25, 9.0]))
                other.add_gaussian_location(np.array([9.5, 9.25, 9.0]), np.array([1.0, 2.0, 3.0]))
                other.add_covariance_location(np.array([9.5, 9.25, 9.0]), np.array([1.0, 2.0, 3.0]))
                other.write(run, lut)
                if d == 0:
                    Picker().write(run, other.uid, pd.DataFrame({
                        "Station": ["X"], "Phase": ["P"], "ModelledTime": [at(ctx, DAY + 1)], "PickTime": [-1], "PickError": [-1],
                        "SNR": [-1], "Residual": [-1]}))
            ev = Event(1.0, dict(EventID=UID, CoaTime=at(ctx, DAY - 9.877), TRIG_COA=coa["TRIG"], COA=coa["DEC"],
                                 COA_NORM=coa["DECN"]))
            ev.add_compute_output([at(ctx, DAY - 20), at(ctx, t), at(ctx, DAY + 20)], col(ctx, [0.001, coa["COA"], 0.002]),
                                  col(ctx, [0.1, coa["COA_NORM"], 0.2]),
                                  np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 9.0]]), None, None)
            ev.add_spline_location(col(ctx, [v["X"], v["Y"], v["Z"]]))
            ev.add_gaussian_location(col(ctx, [v["GX"], v["GY"], v["GZ"]]), col(ctx, [v["gx"], v["gy"], v["gz"]]))
            ev.add_covariance_location(np.array([1.5, 2.5, 3.5]), np.array([v["cx"], v["cy"], v["cz"]]))
            if ml is not None:
                mags = [1.2345, 0.23456, 0.87654]
                if ml == "sym":
                    mags = [ctx.real("ML", -3, 6), ctx.real("ML_Err", 0.001, 2), ctx.real("ML_r2", -1, 1)]
                elif ml == "nan":
                    mags = [np.nan, np.nan, np.nan]
                ev.add_local_magnitude(*mags)
            ev.write(run, lut)
        # picks: alternately picked and not
        rows, stations = [], names or ["STA", "STB", "9"]
        for k in range(picks):
            mt = ctx.real(f"modelled{k}", DAY - 8, DAY + 8) if "picks" in sym else DAY - 1.5 + 1.25 * k
            r = dict(Station=stations[k // 2], Phase="PS"[k % 2], ModelledTime=at(ctx, mt), PickTime=-1, PickError=-1, SNR=-1,
                     Residual=-1)
            p = None
            if k != 1:
                pt = ctx.real(f"pick{k}", DAY - 8, DAY + 8) if "picks" in sym else DAY - 1.25 + 1.5 * k
                err = ctx.real(f"err{k}", 0.001, 3) if "picks" in sym else 0.0123456 + k
                snr = ctx.real(f"snr{k}", 0.1, 3000) if "picks" in sym else 9.87654 + k
                r.update(PickTime=at(ctx, pt), PickError=err, SNR=snr, Residual=0.5)
                p = (pt, err, snr)
            rows.append((r, mt, p))
        df = pd.DataFrame({c: col(ctx, [r[c] for r, _, _ in rows]) if c not in ("Station", "Phase") else [r[c] for r, _, _ in rows]
                           for c in rows[0][0]})
        Picker().write(run, ev.uid, df)
        arows = []
        if amps:
            for k, i in enumerate(["NW.STA..HHE", "NW.STA.00.HHZ", "ST.STB..HHN"]):
                r = {"id": i, "epi_dist": 10.123456 + k, "z_dist": 5.65432 + k, "is_picked": k == 1, "ML": 1.23456 + k,
                     "ML_Err": 0.345678 + k, "Noise_amp": 0.0123456 * (k + 1)}
                for ph in "PS":
                    if ph == "P" and k == 1:
                        continue
                    q = f"{ph}{k}"
                    r[f"{ph}_amp"] = ctx.real(f"amp{q}", 0.001, 50) if "amps" in sym else 0.76543 + k + (ph == "P") * 7
                    r[f"{ph}_freq"] = 2.5 + 3 * k + (ph == "P") * 9
                    r[f"{ph}_time"] = at(ctx, ctx.real(f"atime{q}", DAY - 8, DAY + 8) if "amps" in sym else DAY + 2.5 * k)
                    r[f"{ph}_avg_amp"] = 0.54321 + k
                    r[f"{ph}_filter_gain"] = 0.87654
                if "amps" in sym:
                    r["Noise_amp"] = ctx.real(f"noise{k}", 0.001, 5)
                    r["ML"] = ctx.real(f"ML{k}", -2, 4)
                if k == 2:
                    r["ML"] = r["ML_Err"] = np.nan
                arows.append(r)
            ad = table(ctx, arows)
            for c in ("ML", "ML_Err"):
                ad[c] = col(ctx, [r[c] for r in arows])
            write_amplitudes(run, ad, ev)
        cat = to.read_quakemigrate(scratch, units, run_subname=sub, local_mag_ph=lmph)
        root = (pathlib.Path(scratch) / "locate" / sub).resolve()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.check(sorted(str(e.resource_id) for e in cat) == sorted([UID] + ["20210102000000000"] * (decoys > 0)),
              "one catalogue entry per event with picks")
    e = [x for x in cat if str(x.resource_id) == UID][0]
    ctx.check(str(e.extra.cut_waveforms_file.value) == str(root / "raw_cut_waveforms" / f"{UID}.m"), "points at its cut waveforms")
    dx, dy, dz = [0.50001 * 10.0 ** -d for d in decimals(units, spacing)]
    ctx.check(len(e.origins) == 2, "two origins")
    for o, g in zip(e.origins, ("", "G")):
        ctx.check(within(ctx, sec(o.time), t, 1e-6), "origin time")
        ctx.check(within(ctx, o.longitude, v[g + "X"], dx), "longitude")
        ctx.check(within(ctx, o.latitude, v[g + "Y"], dy), "latitude")
        ctx.check(within(ctx, o.depth / factor, v[g + "Z"], dz), "depth in metres")
        ctx.check(within(ctx, o.longitude_errors.uncertainty * KM_PER_DEG * 1e3 / factor, v["gx"], dz), "longitude error in degrees")
        ctx.check(within(ctx, o.latitude_errors.uncertainty * KM_PER_DEG * 1e3 / factor, v["gy"], dz), "latitude error in degrees")
        ctx.check(within(ctx, o.depth_errors.uncertainty / factor, v["gz"], dz), "depth error in metres")
        ce = o.origin_uncertainty.confidence_ellipsoid
        ctx.check(ctx.all([within(ctx, a / factor, v[k], dz) for a, k in (
            (ce.semi_major_axis_length, "cy"), (ce.semi_intermediate_axis_length, "cx"), (ce.semi_minor_axis_length, "cz"))]),
            "covariance ellipsoid in metres")
    ctx.check(e.preferred_origin() is e.origins[0], "the spline location is preferred")
    for k, n in dict(COA="coa", COA_NORM="coa_norm", TRIG="trig_coa", DEC="dec_coa", DECN="dec_coa_norm").items():
        ctx.check(rel(ctx, e.extra[n]["value"], coa[k], 4), "coalescence values")
    want = []
    for r, mt, p in rows:
        want.append((r, "modelled", mt, None))
        if p is not None:
            want.append((r, "autopick", p[0], p))
    ctx.check(len(e.picks) == len(want), "a modelled pick per row and an automatic pick per row picked")
    for r, method, when, p in want:
        got = [x for x in e.picks if x.method_id.id.split("/")[-1] == method and x.waveform_id.station_code == r["Station"]
               and x.phase_hint == r["Phase"]]
        ctx.check(len(got) == 1, "one pick for each row and method")
        ctx.check(within(ctx, sec(got[0].time), when, 1e-6), "pick time")
        if p is not None:
            ctx.check(rel(ctx, got[0].time_errors.uncertainty, p[1], 3), "pick error")
            ctx.check(rel(ctx, got[0].extra.snr["value"], p[2], 3), "pick signal-to-noise ratio")
    if not amps:
        ctx.check(not e.amplitudes and not e.magnitudes, "nothing invented without amplitudes")
        return
    n, stat = 0, 0
    for r in arows:
        for ph in "PS":
            if f"{ph}_amp" not in r:
                continue
            n += 1
            got = [a for a in e.amplitudes if a.waveform_id.get_seed_string() == r["id"] and
                   a.method_id.id.split("/")[-1] == f"{ph}_amp"]
            ctx.check(len(got) == 1, "one amplitude per measurement")
            a = got[0]
            ctx.check(rel(ctx, a.generic_amplitude * 1000, r[f"{ph}_amp"], 5), "amplitude in metres")
            ctx.check(rel(ctx, a.generic_amplitude_errors.uncertainty * 1000, r["Noise_amp"], 5), "noise in metres")
            ctx.check(rel(ctx, 1 / a.period, r[f"{ph}_freq"], 2), "period of the measurement")
            ctx.check(within(ctx, sec(a.time_window.reference), sec(r[f"{ph}_time"]), 1e-6), "time of the measurement")
            if ph == lmph and not isnan(r["ML"]):
                stat += 1
                ms = [m for m in e.station_magnitudes if m.amplitude_id == a.resource_id]
                ctx.check(len(ms) == 1, "a station magnitude for each amplitude with one")
                ctx.check(rel(ctx, ms[0].mag, r["ML"], 3), "station magnitude")
                ctx.check(rel(ctx, ms[0].mag_errors.uncertainty, r["ML_Err"], 3), "station magnitude error")
    ctx.check(len(e.amplitudes) == n and len(e.station_magnitudes) == stat, "nothing else is read")
    if ml == "nan":
        ctx.check(len(e.magnitudes) == 0, "no magnitude for an event without one")
        return
    ctx.check(len(e.magnitudes) == 1, "the event's magnitude")
    ctx.check(rel(ctx, e.magnitudes[0].mag, mags[0], 3), "network magnitude")
    ctx.check(rel(ctx, e.magnitudes[0].mag_errors.uncertainty, mags[1], 3), "network magnitude error")


def catalogue_cases(tier):
    K, F, M, C = (0.5, 0.5, 0.25), (0.002, 0.002, 0.0005), (50.0, 50.0, 20.0), (500.0, 500.0, 200.0)
    xyz, g = ["X", "Y", "Z", "time"], ["GX", "GY", "GZ", "gx", "gy", "gz"]
    out = [
        dict(units="km", spacing=K, sym=xyz),
        dict(units="km", spacing=F, sym=xyz, sub="s1"),
        dict(units="m", spacing=M, sym=xyz),
        dict(units="m", spacing=C, sym=["Z", "GZ"]),
        dict(units="km", spacing=(2.0, 2.0, 1.0), sym=["Z", "GZ", "gz"]),
        dict(units="km", spacing=K, sym=g),
        dict(units="m", spacing=M, sym=g),
        dict(units="km", spacing=K, sym=["coa"], decoys=1),
        dict(units="km", spacing=K, sym=["picks"], picks=3, sub="s2"),
        dict(units="m", spacing=M, sym=["time"], picks=5, decoys=2),
        dict(units="km", spacing=K, sym=["time"], picks=5, names=["007", "NA", "1e5"]),
        dict(units="km", spacing=K, sym=["amps"], amps=True, ml="sym"),
        dict(units="m", spacing=M, sym=["time"], amps=True, ml="value", lmph="P"),
        dict(units="km", spacing=K, sym=["time"], amps=True, ml="nan"),
    ]
    if tier == "thorough":
        for u, s in (("km", K), ("km", F), ("m", M), ("m", C)):
            out += [dict(units=u, spacing=s, sym=xyz + g + ["coa"], sub="x"), dict(units=u, spacing=s, sym=["picks"], picks=6),
                    dict(units=u, spacing=s, sym=["amps"], amps=True, ml="sym", lmph="P")]
    return out


# ----------------------------------------------------------------- ObsPy event -> other formats
def obspy_event(ctx, otime, picks, depth=5000.0, lat=64.5, lon=-17.25, other=None):
    """picks: (station, phase, method, time, error)"""
    from obspy.core import AttribDict
    from obspy.core.event import Event, Origin, Pick, WaveformStreamID

    ev = Event()
    ev.extra = AttribDict()
    ev.resource_id = UID
    o = Origin()
    o.latitude, o.longitude, o.depth, o.time = lat, lon, depth, at(ctx, otime)
    second = Origin()
    second.latitude, second.longitude, second.depth, second.time = 1.0, 2.0, 3.0, at(ctx, 0)
    ev.origins = [o, second]
    ev.preferred_origin_id = o.resource_id
    for st, ph, method, t, err in picks:
        p = Pick()
        p.waveform_id = WaveformStreamID(network_code="", station_code=st)
        p.method_id = method
        p.phase_hint = ph
        p.time = at(ctx, t)
        if err is not None:
            p.time_errors.uncertainty = err
        ev.picks.append(p)
    return ev


def picks_for(ctx, n, lo, hi, errs=False):
    out = []
    for k in range(n):
        st, ph = ["STA", "STB", "LONG1"][k // 2], "PS"[k % 2]
        out.append((st, ph, "modelled", ctx.real(f"m{k}", lo, hi), None))
        if k != 1:
            out.append((st, ph, "autopick", ctx.real(f"a{k}", lo, hi), ctx.real(f"e{k}", 0.001, 5) if errs else 0.0625))
    return out


def nlloc(ctx, n, auto, lo, hi):
    from quakemigrate.export.to_nlloc import nlloc_obs

    picks = picks_for(ctx, n, DAY + lo, DAY + hi, errs=True)
    scratch = rig.scratch_dir("c31")
    try:
        f = pathlib.Path(scratch) / "out.obs"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nlloc_obs(obspy_event(ctx, DAY + lo, picks), str(f), autopick=auto)
        lines = f.read_text().splitlines()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    want = [p for p in picks if p[2] == ("autopick" if auto else "modelled")]
    ctx.check(len(lines) == len(want), "one line per pick of the kind asked for")
    for st, ph, _, t, err in want:
        got = [x.split() for x in lines if x.split()[0] == st and x.split()[4] == ph]
        ctx.check(len(got) == 1, "one line for each station and phase")
        w = got[0]
        ctx.check(len(w) == 15 and w[9] == "GAU", "fields of a phase line")
        d, hm = w[6], w[7]
        ctx.check(len(d) == 8 and len(hm) == 4, "date and time fields")
        got_t = moment(ctx, f"{d[:4]}-{d[4:6]}-{d[6:]}", f"{hm[:2]}:{hm[2:]}:{w[8]}", padded=False)
        ctx.check(within(ctx, got_t, t, 0.00005 + 2e-6), "arrival time to the written precision")
        ctx.check([float(v) for v in w[11:]] == [-1, -1, -1, 1], "no coda, amplitude or period, full weight")
        if err is not None:
            ctx.check(rel(ctx, ctx.number(w[10]), err, 3), "time error")
        else:
            ctx.check(ctx.number(w[10]) == -1, "no time error")


def markers(ctx, n, lo, hi):
    from quakemigrate.export.to_snuffler import snuffler_markers

    picks = picks_for(ctx, n, DAY + lo, DAY + hi)
    t0 = ctx.real("origin", DAY + lo, DAY + hi)
    scratch = rig.scratch_dir("c31")
    try:
        snuffler_markers(obspy_event(ctx, t0, picks), scratch)
        files = [f for f in pathlib.Path(scratch).rglob("*") if f.is_file()]
        ctx.check([str(f.relative_to(scratch)) for f in files] == [f"{UID}/{UID}.markers"], "one marker file")
        lines = [x for x in files[0].read_text().splitlines() if not x.startswith("#")]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.check([x.split()[0] for x in lines] == ["event:"] + ["phase:"] * len(picks), "the event and each pick")
    w = lines[0].split()
    ctx.check(within(ctx, moment(ctx, w[1], w[2]), t0, 2e-6), "origin time to the microsecond")
    ctx.check(w[4] == UID, "event name")
    for line, (st, ph, _, t, _) in zip(lines[1:], picks):
        w = line.split()
        ctx.check(within(ctx, moment(ctx, w[1], w[2]), t, 2e-6), "pick time to the microsecond")
        ctx.check(w[4] == f".{st}..{'BHZ' if ph == 'P' else 'BHN'}" and w[8] == ph, "station, component and phase of the pick")


def snuffler_sta(ctx, network, given):
    from quakemigrate.export.to_snuffler import snuffler_stations

    n = 3
    v = [[ctx.real(f"{c}{k}", -80, 80) for c in ("lat", "lon", "elev")] for k in range(n)]
    d = {"Name": ["A1", "B", "CC"], "Latitude": col(ctx, [x[0] for x in v]), "Longitude": col(ctx, [x[1] for x in v]),
         "Elevation": col(ctx, [x[2] for x in v])}
    nets = ["", "", ""]
    if network:
        nets = d["Network"] = ["N1", "N2", "N1"] if network == "mixed" else ["N1"] * 3
    scratch = rig.scratch_dir("c31")
    try:
        kw = dict(network_code=given) if given is not None else {}
        snuffler_stations(pd.DataFrame(d), scratch, "st.txt", **kw)
        lines = (pathlib.Path(scratch) / "st.txt").read_text().splitlines()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.check(len(lines) == n, "one line per station")
    for k, line in enumerate(lines):
        w = line.split()
        ctx.check(w[0] == f"{given if given is not None else nets[k]}.{d['Name'][k]}.", "each station under its own network")
        ctx.check(ctx.all([near(ctx, ctx.number(x), y, 1e-9) for x, y in zip(w[1:4], v[k])]), "its coordinates")


STATIONS = pd.DataFrame({"Name": ["STA", "STB", "LONG1"], "Latitude": [64.5, 64.75, 63.9], "Longitude": [-17.0, -17.5, -16.8],
                         "Elevation": [0.5, 1.25, -0.75]})
DIST = {"STA": (12.014, 89.9), "STB": (30.362, 336.7), "LONG1": (70.321, 161.7)}  # km and degrees, to the digits given


def mfast(ctx, units, n, filename=None):
    import obspy

    from quakemigrate.export.to_mfast import sac_mfast

    sta = STATIONS.copy()
    sta["Elevation"] = sta["Elevation"] * (1.0 if units == "km" else 1000.0)
    start = {"STA": DAY - 30.0, "STB": DAY - 29.5, "LONG1": DAY - 31.25}
    t0 = ctx.real("origin", DAY - 20, DAY + 5)
    depth = ctx.real("depth", -2000, 50000)
    picks = picks_for(ctx, n, DAY - 15, DAY + 10)
    written = {}
    real = obspy.Trace.write

    def write(self, filename, format=None, **k):
        h = {a: b for a, b in dict(self.stats.get("sac", {})).items()}
        written[filename] = (self.stats.starttime, self.stats.npts, self.stats.sampling_rate, h, np.array(self.data))
        if any(is_sym(x) for x in h.values()):
            return None
        return real(self, filename, format=format, **k)

    scratch = rig.scratch_dir("c31")
    try:
        st = obspy.Stream()
        for k, s in enumerate(sta["Name"]):
            for j, c in enumerate("ENZ"):
                st += obspy.Trace(np.arange(100, dtype=np.int32) + 1000 * k + 100 * j, dict(
                    network="NW", station=s, channel=f"HH{c}", sampling_rate=20.0, starttime=at(ctx, start[s])))
        f = pathlib.Path(scratch) / "wave.m"
        st.write(str(f), format="MSEED")
        ev = obspy_event(ctx, t0, picks, depth=depth)
        ev.extra.cut_waveforms_file = {"value": str(f), "namespace": "x"}
        obspy.Trace.write = write
        try:
            kw = dict(filename=filename) if filename else {}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sac_mfast(ev, sta, pathlib.Path(scratch) / "out", units, **kw)
        finally:
            obspy.Trace.write = real
        if not ctx.symbolic:  # what is really in the files
            for name in written:
                tr = obspy.read(name)[0]
                written[name] = (tr.stats.starttime, tr.stats.npts, tr.stats.sampling_rate, dict(tr.stats.sac), tr.data)
        names = {str(pathlib.Path(x).relative_to(pathlib.Path(scratch).resolve() if pathlib.Path(x).is_relative_to(
            pathlib.Path(scratch).resolve()) else scratch)): x for x in written}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    have = {}
    for s, ph, method, t, _ in picks:
        if (s, ph) not in have or method == "autopick":
            have[s, ph] = t
    used = [s for s in sta["Name"] if (s, "S") in have]
    stem = filename or UID
    ctx.check(sorted(names) == sorted(f"out/{UID}/{stem}.{s}.{c}" for s in used for c in "zne"),
              "three files for each station with an S arrival")
    for k, s in enumerate(sta["Name"]):
        if s not in used:
            continue
        row = sta.iloc[k]
        for j, c in enumerate("ENZ"):
            b, npts, rate, h, data = written[names[f"out/{UID}/{stem}.{s}.{c.lower()}"]]
            ctx.check(abs(sec(b) - start[s]) < 1e-6 and npts == 100 and rate == 20.0 and
                      bool(np.array_equal(np.asarray(data, dtype=float), np.arange(100.0) + 1000 * k + 100 * j)),
                      "the station's own waveforms")
            tol = 1e-4 if ctx.symbolic else 2e-3
            ctx.check(within(ctx, h["o"], t0 - start[s], tol), "origin time from the start of the trace")
            ctx.check(within(ctx, h["t0"], have[s, "S"] - start[s], tol), "S arrival from the start of the trace")
            if (s, "P") in have:
                ctx.check(within(ctx, h["a"], have[s, "P"] - start[s], tol), "P arrival from the start of the trace")
            ctx.check(within(ctx, h["evdp"], depth / 1000, tol), "depth in kilometres")
            ctx.check(abs(h["evla"] - 64.5) < 1e-4 and abs(h["evlo"] + 17.25) < 1e-4, "epicentre")
            ctx.check(abs(h["stla"] - row.Latitude) < 1e-4 and abs(h["stlo"] - row.Longitude) < 1e-4, "station position")
            ctx.check(abs(h["stel"] - [500.0, 1250.0, -750.0][k]) < 1e-2, "station elevation in metres")
            ctx.check(abs(h["dist"] - DIST[s][0]) < 0.1 and abs(h["az"] - DIST[s][1]) < 0.5, "distance in kilometres and azimuth")
            ctx.check(float(h["cmpaz"]) == (90 if c == "E" else 0) and float(h["cmpinc"]) == (0 if c == "Z" else 90),
                      "component orientation")


def times(tier):
    out = [dict(lo=-2.0, hi=2.0), dict(lo=-70.0, hi=-50.0)]
    if tier == "thorough":
        out += [dict(lo=-200.0, hi=-100.0), dict(lo=3590.0, hi=3610.0)]
    return out


HARNESSES = [
    dict(name="catalogue", fn=catalogue, cases=catalogue_cases, env=env, subproc=True,
         expect=["origin time", "depth in metres", "longitude error in degrees", "pick time", "pick error", "amplitude in metres",
                 "network magnitude", "no magnitude for an event without one", "covariance ellipsoid in metres"],
         bounds="one event (and up to two others) with any location, uncertainty, time within 8 s of a midnight, coalescence, up "
                "to five picks and three amplitude rows; both units and four node spacings"),
    dict(name="nlloc", fn=nlloc, env=env,
         cases=lambda tier: [dict(n=2 if tier == "quick" else 4, auto=a, **t) for a in (True, False) for t in times(tier)],
         expect=["arrival time to the written precision", "time error", "no time error"],
         bounds="two rows of picks (four thorough) at any time within seconds of a midnight or a minute"),
    dict(name="markers", fn=markers, env=env,
         cases=lambda tier: [dict(n=2 if tier == "quick" else 4, **t) for t in times(tier)],
         expect=["origin time to the microsecond", "pick time to the microsecond"],
         bounds="an origin and up to three picks (seven thorough) at any time within seconds of a midnight or a minute"),
    dict(name="stations", fn=snuffler_sta, env=env,
         cases=lambda tier: [dict(network=n, given=g) for n in (None, "one", "mixed") for g in (None, "ZZ")],
         expect=["each station under its own network", "its coordinates"],
         bounds="three stations anywhere, with and without network codes"),
    dict(name="mfast", fn=mfast, env=env,
         cases=lambda tier: [dict(units="km", n=2), dict(units="m", n=3), dict(units="km", n=6, filename="custom")],
         expect=["S arrival from the start of the trace", "P arrival from the start of the trace", "depth in kilometres",
                 "station elevation in metres"],
         bounds="three stations, up to six rows of picks at any time, any origin time and depth"),
]
