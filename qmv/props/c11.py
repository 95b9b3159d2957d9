# -*- coding: utf-8 -*-
"""C11: reading the continuous scan returns every sample of the padded period."""

import numpy as np

from qmv.props.c09 import FilesRW
from qmv.props.common import time_env
from qmv.symtime import at, sec

ASSUMPTIONS = ["times are exact; sample values are fixed distinct tags",
               "the stored stretches lie on one sample grid"]
STUBS = ["obspy.read returns the stored traces trimmed to the requested times (nearest sample), as "
         "ObsPy does; the replay uses real miniSEED files"]
DAY = 86400


def period(ctx, days, delta, npads=False, ucf=1000.0, gap=()):
    """`gap`: numbers of samples that are not stored."""
    from obspy import Stream, Trace

    from quakemigrate.io.scanmseed import read_scanmseed

    per_day = DAY // delta
    n = per_day * days
    rate = 1 / delta
    off = ctx.real("offset", 0, delta)
    ctx.assume(off < delta)
    s = ctx.real("start", 0, DAY * days)
    e = ctx.real("end", 0, DAY * days)
    pad = ctx.real("pad", 0, DAY) if not npads else 0
    ctx.assume(s <= e)
    lo, hi = s - pad, e + pad
    ctx.assume(hi <= DAY * days)
    ctx.assume(lo >= 0)
    chans = ("COA", 10), ("COA_N", 1000), ("X", 100000), ("Y", 10000000), ("Z", 50000000)
    with FilesRW(ctx) as files:
        d = files.run.path / "detect" / "scanmseed"
        d.mkdir(parents=True)
        for day in range(days):
            st = Stream()
            for c, base in chans:
                run = []
                for i in range(day * per_day, (day + 1) * per_day + 1):
                    if i < (day + 1) * per_day and i not in gap:
                        run.append(i)
                    elif run:
                        st += Trace(
                            data=np.array([base + j for j in run], dtype=np.int32),
                            header=dict(network="NW", station=c, sampling_rate=rate,
                                        starttime=at(ctx, off + run[0] * delta)))
                        run = []
            if not st:
                continue
            name = "2021_%03d.scanmseed" % (day + 1)
            st.write(str(d / name), format="MSEED", encoding="STEIM2")
        # at least one stored sample lies in the padded period
        ctx.assume(ctx.any([ctx.all([off + i * delta >= lo, off + i * delta <= hi]) for i in range(n) if i not in gap]))
        data, stats = read_scanmseed(files.run, at(ctx, s), at(ctx, e), pad, ucf)
        ids = []
        for i in range(len(data)):
            row = data.iloc[i]
            k = int(round(row["COA"] * 1e5)) - 10
            if k == -10 and ids and ids[-1] + 1 in gap:
                k = ids[-1] + 1
                ctx.check(ctx.all([row[c] == 0 for c in ("COA", "COA_N", "X", "Y", "Z")]), "samples that were not stored are zero")
                ids.append(k)
                ctx.check(ctx.all([sec(row["DT"]) - (off + k * delta) < 0.001, sec(row["DT"]) - (off + k * delta) > -0.001]),
                          "sample keeps its own time")
                continue
            ctx.check(0 <= k < n and k not in gap, "known sample")
            ids.append(k)
            d_ = sec(row["DT"]) - (off + k * delta)
            ctx.check(ctx.all([d_ < 0.001, d_ > -0.001]), "sample keeps its own time")
            same = [int(round(row["COA_N"] * 1e5)) - 1000, int(round(row["X"] * 1e6)) - 100000,
                    int(round(row["Y"] * 1e6)) - 10000000, int(round(row["Z"] * 1e3 * ucf)) - 50000000]
            ctx.check(same == [k] * 4, "sample keeps its own values in every channel")
        ctx.check(ids == list(range(ids[0], ids[0] + len(ids))), "no sample is missing or repeated")
        tol = 0 if ctx.symbolic else 1e-3
        if any(i not in gap for i in range(ids[0])):
            ctx.check(off + max(i for i in range(ids[0]) if i not in gap) * delta < lo + tol, "no sample of the period is missing at the start")
        if any(i not in gap for i in range(ids[-1] + 1, n)):
            ctx.check(off + min(i for i in range(ids[-1] + 1, n) if i not in gap) * delta > hi - tol, "no sample of the period is missing at the end")
        ctx.check(ctx.all([off + ids[0] * delta >= lo - 0.5 * delta - 0.01,
                           off + ids[-1] * delta <= hi + 0.5 * delta + 0.01]),
                  "nothing outside the period (to the nearest sample)")
        ctx.check(stats.npts == len(data), "returned header describes the data")


def cases(tier):
    out = [dict(days=1, delta=21600, npads=True), dict(days=2, delta=43200),
           dict(days=2, delta=21600, npads=True), dict(days=3, delta=43200, ucf=1.0),
           dict(days=2, delta=21600, gap=[3], npads=True), dict(days=2, delta=28800, gap=[1]),
           dict(days=3, delta=43200, gap=[2, 3]), dict(days=2, delta=21600, gap=[3, 4, 5], npads=True)]
    if tier == "thorough":
        out += [dict(days=3, delta=21600), dict(days=4, delta=43200)]
    return out


HARNESSES = [
    dict(name="period", fn=period, cases=cases, env=time_env, subproc=True,
         expect=["sample keeps its own time", "no sample is missing or repeated", "samples that were not stored are zero",
                 "no sample of the period is missing at the start",
                 "no sample of the period is missing at the end"],
         bounds="<=3 stored days (4 thorough), 2-4 samples per day, with or without stretches that are not stored, any sample offset, any start, end and pad"),
]
