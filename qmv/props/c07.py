# -*- coding: utf-8 -*-
"""C07: a continuous scan covers the requested period exactly once."""

import pathlib
import shutil

import numpy as np
import pandas as pd

from qmv.props import rig
from qmv.props.c10 import ctx_frac
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "times are exact; timestep and pads are whole samples",
    "onset values are fixed distinct tags (their arithmetic is the subject of C01/C02)",
]
STUBS = ["archive, lookup table and onset function record / serve tags", "logging off",
         "Stream.write records the traces of each file; availability goes to real .csv files; "
         "the replay writes and reads real files"]
DAY = 86400
NAMES = ["STA_P", "STB_P", "STA_S", "STB_S"]


def _tag(w, r, j):
    return 1.5 + 0.25 * w + 0.01 * j + 0.002 * r * (j % 3)


def _av(w):
    # STALTA gives one entry per station and phase, in phase-major order
    return {"STA_P": 1, "STB_P": int(w % 2 == 0), "STA_S": int(w % 3 != 1), "STB_S": 0}


def detect(ctx, rate, n, pads, fail=(), max_steps=3, cont=False, midnight=False, tts=None, again=False):
    """again: the same scan was used before, with another timestep (and so other pads), on another day."""
    import obspy
    from quakemigrate.signal.scan import QuakeScan

    f = ctx_frac(rate) if ctx.symbolic else 1 / rate
    ts = n / rate
    pre, post = pads
    base = DAY * 3
    if midnight:
        k = ctx.int("start_back", 2, max_steps * n)
        s = base - k * f
        e = base
    else:
        s = ctx.real("start", base - max_steps * ts, base + 1)
        d = ctx.real("duration", 0, max_steps * ts)
        ctx.assume(d > f)
        e = s + d
        # `end at midnight` is the other case; stay off the rounding window of the file writer
        ctx.assume(ctx.not_(ctx.eq(e, base)) if ctx.symbolic else abs(e - base) > 1e-5)
        if ctx.symbolic:
            g = (base - s) * rate
            for j in range(-1, (max_steps + 1) * n + 3):
                ctx.assume((g == j) | (g <= j - 0.000001) | (g >= j + 0.000001))
    last = e - f if midnight else e
    scratch = rig.scratch_dir("c07")
    saved = obspy.Stream.write
    store = {}
    try:
        if ctx.symbolic:
            def write(st, filename, format=None, **k):
                store[pathlib.Path(filename).name] = [
                    (tr.stats.station, tr.stats.starttime, tr.stats.delta, list(tr.data)) for tr in st]

            obspy.Stream.write = write
        ar = rig.Archive(fail)
        onset = rig.make_onset(ctx, rate, lambda span: ((pre + (span != ts)) / rate, (post + 2 * (span != ts)) / rate), _tag, _av)
        m = ctx.choose("traveltime", list(range(post + 1))) if tts is None else tts
        tt = {k: [m, (m + i) % (post + 1)] for i, k in enumerate(NAMES)}
        lut = rig.LUT(ctx, tt, post / rate)
        qs = QuakeScan(ar, lut, onset, run_path=scratch, run_name="run", timestep=ts, threads=1,
                       picker=rig.make_picker(), continuous_scanmseed_write=cont)
        if again:
            qs.timestep = 3 * ts
            qs.detect(str(at(ctx, base + 10 * DAY)), str(at(ctx, base + 10 * DAY + 6 * ts)))  # times may be text
            qs.timestep = ts
            ctx.check(len(ar.requests) == 2, "as many windows as needed to cover the period")
            ar.requests.clear()
            store.clear()
            shutil.rmtree(scratch)
        qs.detect(at(ctx, s), at(ctx, e))
        if not ctx.symbolic:
            for p in pathlib.Path(scratch).rglob("*.scanmseed"):
                store[p.name] = [(tr.stats.station, tr.stats.starttime, tr.stats.delta, list(tr.data))
                                 for tr in obspy.read(str(p), format="MSEED")]
        steps = len(ar.requests)
        ctx.check(steps >= 1, "at least one window is scanned")
        ctx.check(ctx.all([s + steps * ts >= last, s + (steps - 1) * ts < last]) if ctx.symbolic else
                  (s + steps * ts >= last - 1e-6 and s + (steps - 1) * ts < last + 1e-6),
                  "as many windows as needed to cover the period")
        for i, (b, x, a1, a2) in enumerate(ar.requests):
            ctx.check(ctx.all([ctx.eq(sec(b), s + i * n * f - pre * f), ctx.eq(sec(x), s + (i + 1) * n * f - f + post * f),
                               a1 == 0, a2 == 0]),
                      "request = window extended by the pads")
        # files
        got = {}
        for name, traces in store.items():
            for station, t0, dt, data in traces:
                for j, v in enumerate(data):
                    got.setdefault(station, []).append((sec(t0) + j * f, int(v)))
        kinds = {int(k): v for k, v in dict(fail).items()}
        for station in ("COA", "COA_N", "X", "Y", "Z"):
            have = got.get(station, [])
            ctx.check(len(have) == steps * n, "exactly one stored sample per scanned sample")
        exp = []
        for i in range(steps):
            av = _av(i)
            rows = [(r, k) for r, k in enumerate(av) if av[k] == 1]
            for j in range(n):
                t = s + (i * n + j) * f
                if i in kinds:
                    exp.append((t, 0, 0, 0, 0, 0))
                    continue
                nodes = [float(np.exp(sum(np.log(_tag(i, r, pre + j + tt[k][q])) for r, k in rows) / len(rows)))
                         for q in range(2)]
                b = max(nodes)
                q = nodes.index(b)
                exp.append((t, b * 1e5, b * 2 / sum(nodes) * 1e5, (10.0 + q) * 1e6, (-5.0 - q) * 1e6, 0.5 * q * 1e6))
        for c, station in enumerate(("COA", "COA_N", "X", "Y", "Z")):
            left = list(got.get(station, []))
            for row in exp:
                hit = [k for k, (t, v) in enumerate(left)
                       if abs(v - row[c + 1]) <= 1.001 and
                       (bool(ctx.eq(t, row[0])) if ctx.symbolic else abs(t - row[0]) < 2e-4)]
                ctx.check(len(hit) >= 1, "every sample of every window is stored with its value on its time")
                left.pop(hit[0])
        # availability rows
        rows = []
        for p in sorted(pathlib.Path(scratch).rglob("*StationAvailability*")):
            df = pd.read_csv(p, index_col=0)
            for txt, r in df.iterrows():
                rows.append((txt, {k: r[k] for k in df.columns}))
        ctx.check(len(rows) == steps, "one availability row per window")
        for i, (txt, r) in enumerate(rows):
            want = {k: 0 for k in NAMES} if i in kinds else _av(i)
            t = sec(obspy.UTCDateTime(txt))
            ctx.check(ctx.eq(t, s + i * n * f) if ctx.symbolic else abs(t - s - i * n * f) < 1e-5,
                      "availability row names its window")
            ctx.check(r == want, "availability row holds what was used")
    finally:
        obspy.Stream.write = saved
        shutil.rmtree(scratch, ignore_errors=True)


def cases(tier):
    out = [
        dict(rate=4, n=2, pads=[1, 2]),
        dict(rate=10, n=3, pads=[2, 1], fail={"0": "empty", "2": "gap"}, tts=1),
        dict(rate=50, n=2, pads=[0, 1], fail={"1": "availability"}),
        dict(rate=1, n=3, pads=[3, 2], midnight=True, tts=2),
        dict(rate=4, n=2, pads=[1, 2], midnight=True, fail={"0": "availability", "1": "empty"}, tts=0),
        dict(rate=4, n=4, pads=[1, 1], cont=True, tts=1, max_steps=2),
        dict(rate=4, n=2, pads=[1, 2], fail={"1": "gap"}, tts=1, again=True),
        dict(rate=4, n=1, pads=[1, 2], max_steps=4, tts=2),
    ]
    if tier == "thorough":
        for r in (1, 20, 100):
            for mid in (False, True):
                for fail in ({}, {"0": "gap", "3": "empty"}, {"1": "availability", "2": "gap"}):
                    out.append(dict(rate=r, n=3, pads=[2, 3], max_steps=4, midnight=mid, fail=fail, cont=mid))
    return out


HARNESSES = [
    dict(name="detect", fn=detect, cases=cases, env=rig.scan_env, subproc=True,
         expect=["as many windows as needed to cover the period", "request = window extended by the pads",
                 "exactly one stored sample per scanned sample",
                 "every sample of every window is stored with its value on its time",
                 "availability row holds what was used"],
         bounds="<=3-4 windows of 1-4 samples, any start and duration around a day boundary, rates 1-50 Hz, pads "
                "<=3 samples, 2 stations x 2 phases, 2 nodes, the failing windows listed in the module"),
]
