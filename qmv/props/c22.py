# -*- coding: utf-8 -*-
"""C22: what the archive returns for a data request."""

import pathlib
import shutil

import numpy as np
import pandas as pd

from qmv.props import rig
from qmv.props.c10 import ctx_frac
from qmv.props.common import time_env
from qmv.symtime import BASE, at, sec

ASSUMPTIONS = [
    "times are exact reals; pads are zero or at least one sample",
    "data recorded off the sample grid are requested on the grid (any request for data on the grid)",
    "sample values are fixed distinct tags",
]
STUBS = ["obspy.read = the real reader without its time selection, followed by the trimming ObsPy applies; "
         "the replay uses the real reader with real files"]

# archive_format -> file name of (year, jday, month, day, station, tag)
NAMES = {
    "YEAR/JD/STATION": "{y}/{j:03d}/{s}_{c}.m",
    "YEAR/JD/*_STATION_*": "{y}/{j:03d}/NW_{s}_{c}.m",
    "STATION.YEAR.JULIANDAY": "NW.{s}.{c}.{y}.{j:03d}",
    "/STATION/STATION.YearMonthDay": "{s}/{s}.{y}{m:02d}{d:02d}",
    "YEAR_JD/STATION*": "{y}_{j:03d}/{s}{c}",
    "YEAR_JD/STATION_*": "{y}_{j:03d}/{s}_{c}.m",
    "SeisComp3": "{y}/NW/{s}/{c}.D/NW.{s}..{c}.D.{y}.{j:03d}",
}


def _value(s, c, k):
    return 1000 * (ord(s[-1]) - 64) + 100 * (ord(c[-1]) - 64) + (k * 7) % 31 - 15


def _write(root, fmt, layout, rate, off, midnight):
    """layout: {(station, channel): [sample numbers, relative to midnight]} -> day files"""
    from obspy import Stream, Trace, UTCDateTime

    files = {}
    for (s, c), ks in layout.items():
        for day in (-1, 0):
            part = [k for k in ks if (k + off < 0) == (day < 0)]
            runs = []
            for k in part:
                if runs and runs[-1][-1] == k - 1:
                    runs[-1].append(k)
                else:
                    runs.append([k])
            if not runs:
                continue
            t = UTCDateTime(BASE + midnight + day * 86400)
            name = NAMES[fmt].format(y=t.year, j=t.julday, m=t.month, d=t.day, s=s, c=c)
            for r in runs:
                files.setdefault(name, Stream()).append(Trace(
                    data=np.array([_value(s, c, k) for k in r], dtype=np.int32),
                    header=dict(network="NW", station=s, channel=c, sampling_rate=rate,
                                starttime=UTCDateTime(BASE + midnight) + (r[0] + off) / rate)))
    for name, st in files.items():
        f = root / name
        f.parent.mkdir(parents=True, exist_ok=True)
        st.write(str(f), format="MSEED", encoding="STEIM2")


def _near(ctx, t, lo, hi, half, ends):
    """(certainly inside, certainly outside) the period, to the nearest sample.

    ends: first and last sample of the recorded segment, which has to overlap the period."""
    e = 0.001 * half
    return (ctx.all([t >= lo - half + e, t <= hi + half - e, ends[0] <= hi, ends[1] >= lo]),
            ctx.any([t <= lo - half - e, t >= hi + half + e]))


def _ends(ks, k, off):
    """the run of consecutive samples in the same day file that contains k"""
    a = b = k
    while a - 1 in ks and (a - 1 + off < 0) == (k + off < 0):
        a -= 1
    while b + 1 in ks and (b + 1 + off < 0) == (k + off < 0):
        b += 1
    return a, b


def request(ctx, fmt, rate, layout, stations, pads, off=0.0, grid=False, span=(1, 2), window=2, midnight=0,
            read_all=False, junk=False, used=False):
    import quakemigrate.io.data as qd
    import quakemigrate.util as util

    f = ctx_frac(rate) if ctx.symbolic else 1.0 / rate
    layout = {tuple(k.split(".")): list(range(*v)) if isinstance(v, (list, tuple)) and len(v) == 2
              else v for k, v in layout.items()}
    root = pathlib.Path(rig.scratch_dir("c22"))
    saved = qd.read
    opened = []
    try:
        _write(root, fmt, layout, rate, off, midnight)
        if junk:  # a file ObsPy cannot read, in the same place
            some = [p for p in sorted(root.rglob("*")) if p.is_file()][0]
            (some.parent / (some.name + "x")).write_text("not a waveform file\n")

        def read(name, starttime=None, endtime=None, nearest_sample=True, **k):
            opened.append(pathlib.Path(name).name)
            st = saved(name, **k)
            if starttime is not None:
                st._ltrim(starttime, nearest_sample=nearest_sample)
            if endtime is not None:
                st._rtrim(endtime, nearest_sample=nearest_sample)
            return st

        if ctx.symbolic:
            qd.read = read
        if grid:
            s = f * ctx.int("start", -window, window)
            e = s + f * ctx.int("length", span[0], span[1])
        else:
            s = ctx.real("start", -window / rate, window / rate)
            e = s + ctx.real("length", span[0] / rate, span[1] / rate)
        pre, post = [p if isinstance(p, (int, float)) else ctx.real(f"{n}_pad", p[0] / rate, p[1] / rate)
                     for n, p in zip(("pre", "post"), pads)]
        arch = qd.Archive(str(root), pd.DataFrame({"Name": stations}), archive_format=fmt,
                          read_all_stations=read_all, resample=bool(pads[0]), upfactor=3 if rate == 4 else None)
        t0 = midnight
        outcome, data = "data", None

        def other(a, b, *pads):
            try:
                arch.read_waveform_data(at(ctx, t0 + a / rate), at(ctx, t0 + b / rate), *pads)
            except (util.ArchiveEmptyException, util.DataGapException):
                pass

        if used:  # the archive has been read before, on the day of this request and another
            other(0, 1)
            other(-1, 0, 0, 1 / rate)
            other(20 * 86400 * rate, 20 * 86400 * rate + 4)
        try:
            data = arch.read_waveform_data(at(ctx, t0 + s), at(ctx, t0 + e), pre, post)
        except util.ArchiveEmptyException:
            outcome = "empty"
        except util.DataGapException:
            outcome = "gap"
        if used:  # and after
            other(-1, 1, 1 / rate, 1 / rate)
        seen = {k: v for k, v in layout.items() if read_all or k[0] in stations}
        days = set()  # days on which there are files to be read
        for v in seen.values():
            days |= {-1 if k + off < 0 else 0 for k in v}
        cond = [ctx.all([s - pre < 0]) if d < 0 else ctx.all([e + post >= 0]) for d in days]
        cond = [ctx.all([c, (e + post >= -86400) if d < 0 else (s - pre < 86400)]) for c, d in zip(cond, days)]
        have_files = ctx.any(cond)
        ctx.check(ctx.iff(outcome == "empty", ctx.not_(have_files)), "empty archive exactly when no file matches")
        half = f / 2
        # waveforms used for detection: un-padded period, requested stations
        inside, maybe = [], []
        for (st, c), ks in layout.items():
            if st not in stations:
                continue
            for k in ks:
                o = 0 if grid else off
                a, b = _near(ctx, (k + o) * f, s, e, half, [(x + o) * f for x in _ends(ks, k, off)])
                inside.append(a)
                maybe.append(ctx.not_(b))
        if outcome != "data":
            ctx.check(ctx.not_(ctx.all([ctx.any(inside), have_files])), "data are returned when there are any")
            return
        ctx.check(ctx.any(maybe), "a data gap is reported when there are none")
        ctx.check(data.starttime == at(ctx, t0 + s), "starttime")
        ctx.check(data.endtime == at(ctx, t0 + e), "endtime")
        ctx.check(list(data.stations) == list(stations) and data.resample == bool(pads[0]) and
                  data.upfactor == (3 if rate == 4 else None), "stations and resampling options go with the data")
        ctx.check(all(tr.stats.npts > 0 and len(tr.data) == tr.stats.npts for tr in data.waveforms),
                  "no empty channels")
        ctx.check({tr.stats.station for tr in data.waveforms} <= set(stations), "other stations are excluded")
        for what, stream, lo, hi, names, eps in (
            ("raw", data.raw_waveforms, s - pre, e + post, seen, 0.0),
            ("waveforms", data.waveforms, s, e, {k: v for k, v in seen.items() if k[0] in stations}, off),
        ):
            got = {}
            for tr in stream:
                key = (tr.stats.station, tr.stats.channel)
                ctx.check(key in names, "only channels of the archive")
                ctx.check(tr.stats.sampling_rate == rate, "sampling rate")
                first = sec(tr.stats.starttime) - t0
                for j in range(len(tr.data)):
                    v = int(tr.data[j])
                    ks = [k for k in names[key] if _value(*key, k) == v]
                    ctx.check(len(ks) == 1, "known sample")
                    k = ks[0]
                    want = (k + off) * f if what == "raw" else k * f
                    d = first + j * f - want
                    ctx.check(ctx.all([d < 1e-5, d > -1e-5]), f"{what}: sample keeps its time")
                    got.setdefault(key, []).append(k)
            for key, ks in names.items():
                have = got.get(key, [])
                ctx.check(len(set(have)) == len(have), f"{what}: no sample twice")
                for k in ks:
                    o = 0 if grid and what != "raw" else off
                    t = (k + o) * f
                    a, b = _near(ctx, t, lo, hi, half, [(x + o) * f for x in _ends(ks, k, off)])
                    if k in have:
                        ctx.check(ctx.not_(b), f"{what}: nothing outside the period")
                    else:
                        # only the files of the touched days are searched
                        day_in = (lo < 0) if k + off < 0 else (hi >= 0)
                        ctx.check(ctx.not_(ctx.all([a, day_in])), f"{what}: every sample of the period")
        runs = {}
        for tr in data.raw_waveforms:
            runs[(tr.stats.station, tr.stats.channel)] = runs.get((tr.stats.station, tr.stats.channel), 0) + 1
        for key, n in runs.items():
            ks = layout[key]
            gaps = sum(1 for a, b in zip(ks, ks[1:]) if b != a + 1)
            ctx.check(n <= 1 + gaps, "day files are joined")
    finally:
        qd.read = saved
        shutil.rmtree(root, ignore_errors=True)


def cases(tier):
    L = {"STA.HHZ": [-5, 5], "STB.HHZ": [-5, 5]}
    P = [[1, 3], [1, 3]]
    O = {"STA.HHZ": [-5, 5]}
    out = [
        dict(fmt="YEAR/JD/STATION", rate=1, layout=L, stations=["STA", "STB"], pads=P),
        dict(fmt="YEAR/JD/*_STATION_*", rate=4, layout=L, stations=["STA"], pads=[0, 0]),
        dict(fmt="STATION.YEAR.JULIANDAY", rate=1, layout=O, stations=["STA"], pads=[[1, 2], 0]),
        dict(fmt="/STATION/STATION.YearMonthDay", rate=1, layout=O, stations=["STA"], pads=[0, [1, 2]], midnight=86400 * 31),
        dict(fmt="YEAR_JD/STATION*", rate=4, layout=L, stations=["STA"], pads=P, read_all=True),
        dict(fmt="YEAR_JD/STATION_*", rate=4, layout=O, stations=["STA"], pads=[0, 0], midnight=86400 * 9, junk=True),
        dict(fmt="SeisComp3", rate=1, layout=L, stations=["STB"], pads=[[1, 2], [1, 2]], read_all=True),
        # off the sample grid
        dict(fmt="YEAR/JD/STATION", rate=4, layout={"STA.HHZ": [-6, 6], "STA.HHN": [-6, 6]}, stations=["STA"],
             pads=P, off=0.3, grid=True),
        dict(fmt="YEAR/JD/STATION", rate=4, layout={"STA.HHZ": [-6, 6]}, stations=["STA"], pads=[0, 0], off=-0.4, grid=True),
        # gaps, missing days, empty channels
        dict(fmt="YEAR/JD/STATION", rate=1, layout={"STA.HHZ": [-5, -2], "STA.HHN": [2, 5], "STB.HHZ": [-5, 5]},
             stations=["STA", "STB"], pads=P),
        dict(fmt="YEAR/JD/STATION", rate=1, layout={"STA.HHZ": [-5, -3, -2, 1, 2, 4]}, stations=["STA"], pads=P),
        dict(fmt="YEAR/JD/STATION", rate=1, layout={"STB.HHZ": [-5, 5]}, stations=["STA"], pads=P),
        dict(fmt="YEAR/JD/STATION", rate=1, layout={"STB.HHZ": [-5, 5]}, stations=["STA"], pads=P, read_all=True),
        dict(fmt="YEAR/JD/STATION", rate=1, layout={"STA.HHZ": [-5, 0]}, stations=["STA"], pads=P, window=4),
        dict(fmt="YEAR/JD/STATION", rate=1, layout={"STA.HHZ": [0, 5]}, stations=["STA"], pads=[0, 0], window=4),
        dict(fmt="YEAR/JD/STATION", rate=4, layout={"STA.HHZ": [-5, 5]}, stations=["STA"], pads=P, used=True),
        dict(fmt="SeisComp3", rate=1, layout=L, stations=["STB"], pads=[0, 0], read_all=True, used=True),
    ]
    if tier == "thorough":
        out += [dict(fmt=m, rate=r, layout=L, stations=["STA", "STB"], pads=P, span=(1, 3), window=3,
                     midnight=86400 * n) for m in NAMES for r in (1, 4) for n in (0, 90)]
    return out


HARNESSES = [
    dict(name="request", fn=request, cases=cases, env=time_env, subproc=True,
         expect=["empty archive exactly when no file matches", "data are returned when there are any",
                 "other stations are excluded", "raw: sample keeps its time", "waveforms: sample keeps its time",
                 "raw: every sample of the period", "waveforms: every sample of the period",
                 "raw: nothing outside the period", "waveforms: nothing outside the period", "day files are joined"],
         bounds="the seven built-in archive formats; 1 and 4 Hz data within 6 samples of a midnight (including a "
                "year end), <=3 channels with gaps and missing days; any start and pads (0 or 1-3 samples) and "
                "durations of 1-2 samples (3 thorough)"),
]
