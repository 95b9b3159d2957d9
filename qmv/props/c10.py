# -*- coding: utf-8 -*-
"""C10: every scanned sample ends up in exactly the file of its own day."""

import pathlib
import shutil
import tempfile

import numpy as np

from qmv.props.common import Obj, time_env
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "times are exact; sample values are fixed distinct tags (the code does not branch on them)",
]
STUBS = ["Stream.write records the traces given for each file (last write of a file wins), and refuses STEIM2 for differences of 2^29 or more; "
         "the replay writes and reads real miniSEED files"]
DAY = 86400


class Files:
    """Captures what is written per file name."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.scratch = tempfile.mkdtemp(prefix="c10_")
        self.run = Obj(path=pathlib.Path(self.scratch), subname="", name="run")
        self.store = {}

    def __enter__(self):
        import obspy

        self.saved = obspy.Stream.write
        if self.ctx.symbolic:
            from obspy.io.mseed import InternalMSEEDError
            from qmv.npsym import has_sym

            def write(st, filename, format=None, encoding=None, **k):
                if encoding == "STEIM2" and any(abs(int(b) - int(a)) >= 2**29 for tr in st
                                                  if not has_sym(tr.data) for a, b in zip(tr.data, tr.data[1:])):
                    raise InternalMSEEDError("msr_encode_steim2: unable to represent difference in <= 30 bits")
                self.store[pathlib.Path(filename).name] = [
                    (tr.stats.station, tr.stats.starttime, tr.stats.delta, list(tr.data)) for tr in st]

            obspy.Stream.write = write
        return self

    def collect(self):
        import obspy

        if not self.ctx.symbolic:
            for f in pathlib.Path(self.scratch).rglob("*.scanmseed"):
                self.store[f.name] = [
                    (tr.stats.station, tr.stats.starttime, tr.stats.delta, list(tr.data))
                    for tr in obspy.read(str(f), format="MSEED")]
        return self.store

    def __exit__(self, *a):
        import obspy

        obspy.Stream.write = self.saved
        shutil.rmtree(self.scratch, ignore_errors=True)


def days(ctx, steps, n, rate, cont, grid, fail=(), tall=False):
    """tall: values whose differences do not fit the first choice of compression"""
    def second(q):
        return (20001 if tall and q % 2 else 101) + q

    from obspy import UTCDateTime

    from quakemigrate.io.scanmseed import ScanmSEED

    delta = 1 / rate
    span = steps * n * delta
    lo = float(DAY - (steps * n + 1) * ctx_frac(rate))
    if grid:
        k = ctx.int("start_sample", 0, steps * n + 2)
        s = lo + k * (delta if not ctx.symbolic else ctx_frac(rate))
    else:
        s = ctx.real("start", lo, DAY + delta)
    if ctx.symbolic and not grid:
        # stay away from the 1e-7-sample rounding window of ObsPy's trim
        f = (DAY - s) * rate
        for j in range(-1, steps * n + 3):
            ctx.assume((f == j) | (f <= j - 0.000001) | (f >= j + 0.000001))
    def on_disk(i):
        """what a scan that dies after timestep i leaves behind"""
        have = {(tr[0], int(v)) for traces in files.collect().values() for tr in traces for v in tr[3]}
        step = ctx_frac(rate) if ctx.symbolic else delta
        last = s + ((i + 1) * n - 1) * step
        for q in range((i + 1) * n):
            if q // n in fail:
                continue
            if cont or bool(ctx.all([s + q * step < DAY - (0 if ctx.symbolic else 1e-6), last >= DAY - (0 if ctx.symbolic else 1e-6)])):
                ctx.check(all((c, int(v)) in have for c, v in (("COA", (1 + q) * 100000), ("COA_N", second(q) * 100000), ("X", 100000 * q),
                                                               ("Y", 200000 * q), ("Z", 300000 * q))),
                          "all is on disk after every timestep" if cont else "a day that is over is on disk")

    with Files(ctx) as files:
        sm = ScanmSEED(files.run, cont, rate)
        for i in range(steps):
            t = at(ctx, s + i * n * (ctx_frac(rate) if ctx.symbolic else delta))
            if i in fail:
                sm.empty(at(ctx, s), n * delta, i, "no data", 1000.0)
                on_disk(i)
                continue
            base = i * n
            coord = np.array([[0.1 * (base + j), 0.2 * (base + j), 0.3 * (base + j)] for j in range(n)])
            sm.append(t, np.array([1.0 + base + j for j in range(n)]),
                      np.array([float(second(base + j)) for j in range(n)]), coord, 1000.0)
            on_disk(i)
        if not sm.written:
            sm.write()
        store = files.collect()
    got = {}
    for name, traces in sorted(store.items()):
        year, jd = name.split(".")[0].split("_")
        d0 = int(sec(UTCDateTime(year=int(year), julday=int(jd))))
        for station, t0, dt, data in traces:
            ctx.check(ctx.eq(dt, delta), "sampling interval kept")
            for j, v in enumerate(data):
                t = sec(t0) + j * (ctx_frac(rate) if ctx.symbolic else delta)
                if ctx.symbolic:
                    inday = ctx.all([t >= d0, t < d0 + DAY])
                else:
                    inday = t >= d0 - 1e-4 and t < d0 + DAY - 1e-4
                ctx.check(inday, "a file holds samples of its own day only")
                got.setdefault((station, int(v)), []).append(t)
    want = {}
    for q in range(steps * n):
        t = s + q * (ctx_frac(rate) if ctx.symbolic else delta)
        z = 0 if q // n in fail else 1
        for station, v in (("COA", (1 + q) * 100000), ("COA_N", second(q) * 100000),
                           ("X", 100000 * q), ("Y", 200000 * q), ("Z", 300000 * q)):
            want.setdefault((station, int(v) * z), []).append(t)
    ctx.check(sorted(got) == sorted(want), "every sample is stored with its own value")
    for key, ts in want.items():
        ctx.check(len(got[key]) == len(ts), "every sample is stored exactly once")
        for t in ts:
            near = [ctx.eq(g, t) if ctx.symbolic else abs(g - t) < 2e-4 for g in got[key]]
            ctx.check(ctx.any(near), "every sample keeps its time")


def ctx_frac(rate):
    from fractions import Fraction

    return 1 / Fraction(rate)


def cases(tier):
    out = []
    for grid in (True, False):
        for cont in (False, True):
            out.append(dict(steps=1, n=3, rate=10, cont=cont, grid=grid))
            out.append(dict(steps=3, n=2, rate=4, cont=cont, grid=grid))
    out.append(dict(steps=2, n=3, rate=1, cont=False, grid=True, fail=[1]))
    out.append(dict(steps=3, n=1, rate=50, cont=False, grid=False))
    out.append(dict(steps=2, n=3, rate=4, cont=False, grid=True, tall=True))
    out.append(dict(steps=2, n=2, rate=4, cont=True, grid=False, tall=True))
    if tier == "thorough":
        out += [dict(steps=4, n=3, rate=r, cont=c, grid=g, fail=f)
                for r in (1, 100) for c in (False, True) for g in (False, True) for f in ([], [0, 2])]
    return out


HARNESSES = [
    dict(name="days", fn=days, cases=cases, env=time_env, subproc=True,
         expect=["every sample is stored exactly once", "a file holds samples of its own day only",
                 "every sample keeps its time", "all is on disk after every timestep", "a day that is over is on disk"],
         bounds="<=3 timesteps of <=3 samples (4x3 thorough) from any start around a day boundary, on or off "
                "the sample grid, rates 1-50 Hz, both write settings, failed windows, values too far apart for STEIM2"),
]
