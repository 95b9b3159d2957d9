# -*- coding: utf-8 -*-
"""C33: station availability files."""

import pathlib
import shutil
import tempfile

import numpy as np
import pandas as pd

from qmv.props import rig
from qmv.props.c07 import detect
from qmv.props.common import Obj, time_env
from qmv.symtime import at, sec

ASSUMPTIONS = ["window times are exact and have different text at microsecond resolution"]
STUBS = ["real .csv files in a scratch directory"]
DAY = 86400


def files(ctx, rows, days, whole=False, old=None):
    import quakemigrate.io.availability as av
    from obspy import UTCDateTime

    scratch = tempfile.mkdtemp(prefix="c33_")
    try:
        run = Obj(path=pathlib.Path(scratch), subname="", name="run")
        s = ctx.real("start", 0, DAY * days)
        step = ctx.real("timestep", 1, DAY * days)
        ctx.assume(s + rows * step <= DAY * days)
        if whole:  # all windows on whole seconds: mixed text widths
            ctx.assume(ctx.all([s == 0, step == 3600]))
        cols = ["A_P", "B_P", "A_S", "B_S"]
        # distinct availability pattern per window and column
        pat = [[(3 * i + 5 * j + i * j) % 2 for j in range(4)] for i in range(rows)]
        if old:  # both phases of a station have the same value
            pat = [r[:2] * 2 for r in pat]
        times = [at(ctx, s + i * step) for i in range(rows)]
        df = pd.DataFrame(pat, index=[str(t) for t in times], columns=cols)
        av.write_availability(run, df)
        found = sorted(pathlib.Path(scratch).rglob("*StationAvailability*"))
        total = 0
        seen = [0] * rows
        for f in found:
            got = pd.read_csv(f, index_col=0)
            ctx.check(list(got.columns) == cols, "one column per station and phase")
            year, jd = f.name.split("_")[:2]
            lo = UTCDateTime(year=int(year), julday=int(jd))
            last = None
            for txt, row in got.iterrows():
                t = UTCDateTime(txt)
                total += 1
                hit = [i for i in range(rows) if bool(ctx.eq(sec(t), s + i * step))]
                ctx.check(len(hit) == 1, "row belongs to a scanned window")
                seen[hit[0]] += 1
                ctx.check(list(row.values) == pat[hit[0]], "row holds the values used")
                ctx.check((t >= lo) & (t < lo + DAY) if ctx.symbolic else lo <= t < lo + DAY,
                          "row is in the file of its own day")
                ctx.check(last is None or hit[0] > last, "rows in order")
                last = hit[0]
        ctx.check(total == rows and seen == [1] * rows, "exactly one row per window")
        for k, f in enumerate(found):  # the format of earlier versions: a column per station
            if old and (old == "all" or k == 0):
                txt = pd.read_csv(f, index_col=0, dtype=str)[["A_P", "B_P"]]
                txt.columns = ["A", "B"]
                txt.to_csv(f)
        # read a period back
        a = ctx.real("read_start", 0, DAY * days)
        b = ctx.real("read_end", 0, DAY * days)
        ctx.assume(ctx.all([a <= b, b < DAY * days]))
        have = sorted({int(sec(UTCDateTime(year=int(f.name[:4]), julday=int(f.name[5:8]))) // DAY) for f in found})
        wanted = [d for d in have if bool(ctx.all([a < (d + 1) * DAY, b >= d * DAY]))]
        if not wanted:
            import quakemigrate.util as util

            try:
                av.read_availability(run, at(ctx, a), at(ctx, b))
                ctx.check(False, "no data is reported when no file covers the period")
            except util.NoStationAvailabilityDataException:
                ctx.check(True, "no data is reported when no file covers the period")
            return
        got = av.read_availability(run, at(ctx, a), at(ctx, b))
        want = [i for i in range(rows) if any(
            bool(ctx.all([s + i * step >= d * DAY, s + i * step < (d + 1) * DAY])) for d in wanted)]
        ctx.check(len(got) == len(want), "reading returns every row of the days of the period")
        for i, (txt, row) in zip(want, got.iterrows()):
            ctx.check(ctx.eq(sec(UTCDateTime(txt)), s + i * step) if ctx.symbolic else
                      abs(sec(UTCDateTime(txt)) - (s + i * step)) < 1e-5, "rows read in order")
            ctx.check(list(row.index) == cols and list(row.values) == pat[i], "values read as written")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def cases(tier):
    out = [dict(rows=1, days=2), dict(rows=2, days=2), dict(rows=3, days=2), dict(rows=2, days=3),
           dict(rows=3, days=1, whole=True), dict(rows=2, days=2, old="first"), dict(rows=2, days=2, old="all")]
    if tier == "thorough":
        out += [dict(rows=4, days=2), dict(rows=3, days=3)]
    return out


def scanned(tier):
    return [dict(rate=4, n=2, pads=[1, 2], fail={"0": "availability", "2": "gap"}, tts=1),
            dict(rate=1, n=3, pads=[3, 2], midnight=True, fail={"1": "empty"}, tts=2)]


HARNESSES = [
    dict(name="detect", fn=detect, cases=scanned, env=rig.scan_env, subproc=True,
         expect=["one availability row per window", "availability row holds what was used"],
         bounds="<=3 windows of a real scan (as in C07) around midnight, some without data"),
    dict(name="files", fn=files, cases=cases, env=time_env, subproc=True,
         expect=["exactly one row per window", "row is in the file of its own day",
                 "reading returns every row of the days of the period"],
         bounds="<=3 windows (4 thorough) of any length from any start within <=3 days; any read period; files per station and phase or "
                "per station (as written by earlier versions)"),
]
