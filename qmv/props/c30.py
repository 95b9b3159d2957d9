# -*- coding: utf-8 -*-
"""C30: network-averaged magnitude."""

import csv
import math
import pathlib
import shutil

import numpy as np

from qmv.props import pickrig, rig
from qmv.props.c29 import COLUMNS, attenuation, isnan, near, table
from qmv.props.common import col, time_env
from qmv.sym import is_sym
from qmv.symtime import at

ASSUMPTIONS = ["exact real arithmetic; amplitudes, predictions and distances keep 1e-4 away from the filter limits"]
STUBS = ["in the whole-calculation harness the amplitudes are given (C28) and plotting is off"]

IDS = ["NW.STA..HHE", "NW.STA..HHZ", "NW.STB..HHN", "ST.KVE..HHZ", "NW.KVEX..HHE"]


def rows_for(ctx, sym, feature, gains, special):
    """five observations; `sym` maps (row, column) to a range"""
    rows = []
    for k, i in enumerate(IDS):
        r = {"id": i, "epi_dist": 10.0 + 7.5 * k, "z_dist": 5.0 + k, f"{feature}_amp": [2.0, 0.5, 1.25, 0.75, 3.0][k],
             ("P" if feature == "S" else "S") + "_amp": 40.0, "Noise_amp": [0.25, 0.125, 0.5, 0.1, 0.4][k],
             f"{feature}_filter_gain": [0.5, 0.8, 0.4, 0.625, 0.25][k] if gains else np.nan, "is_picked": k != 2,
             "ML": [1.5, 1.25, 2.0, 1.0, 0.5][k], "ML_Err": [0.25, 0.5, 0.125, 0.2, 0.4][k],
             ("P" if feature == "S" else "S") + "_filter_gain": 0.3 if gains else np.nan}
        rows.append(r)
    for (k, c), (lo, hi) in sym.items():
        rows[k][c] = ctx.real(f"{c}{k}", lo, hi)
    if special == "missing":
        rows[1][f"{feature}_amp"] = np.nan
        rows[3]["Noise_amp"] = np.nan
    elif special == "no magnitude":
        rows[0].update(epi_dist=0.0, ML=np.nan, ML_Err=np.nan)
    elif special == "below noise":
        rows[3].update({f"{feature}_amp": 0.05, "ML": np.nan, "ML_Err": np.nan})
    return rows


def mean(ctx, sym, filters, feature="S", gains=False, special=None, weighted=False, hyp=False, only_used=True, mult=1.0,
         corr=False, drop=0, a0="UK", shift=0.0):
    from quakemigrate.signal.local_mag.magnitude import Magnitude

    sym = {tuple(k): v for k, v in sym}
    rows = rows_for(ctx, sym, feature, gains, special)
    if drop:
        rows = rows[:-drop]
    for r in rows:
        r["ML"] = r["ML"] + shift
    df = table(ctx, rows)
    for c in ("ML", "ML_Err"):
        v = [r[c] for r in rows]
        df[c] = col(ctx, v) if any(is_sym(x) for x in v) else np.array(v, dtype=float)
    corrs = {IDS[0]: 0.3, IDS[4]: -0.1} if corr else {}
    par = dict(A0=a0, amp_feature=f"{feature}_amp", amp_multiplier=mult, use_hyp_dist=hyp, weighted_mean=weighted,
               r2_only_used=only_used, **filters)
    if corr:
        par["station_corrections"] = corrs
    nf = filters.get("noise_filter", 1.0)
    # the oracle's selection
    keep, used = [], []
    dists, noise = {}, {}
    passes = {}
    for k, r in enumerate(rows):
        a, n = r[f"{feature}_amp"], r["Noise_amp"]
        if isnan(a) or isnan(n):
            continue
        keep.append(k)
        if gains:
            n = n / r[f"{feature}_filter_gain"]
        noise[k] = n
        d = r["epi_dist"]
        if hyp:
            d2 = r["epi_dist"] * r["epi_dist"] + r["z_dist"] * r["z_dist"]
            d = ctx.f("sqrt", d2) if is_sym(d2) else math.sqrt(d2)
        dists[k] = d
        ok = dict(trace=True, station=True, dist=True, pick=True, noise=True)
        if filters.get("trace_filter"):
            ok["trace"] = r["id"][-1] in filters["trace_filter"][3:]
        if filters.get("station_filter"):
            ok["station"] = r["id"].split(".")[1] not in filters["station_filter"]
        if filters.get("dist_filter"):
            e = d - filters["dist_filter"]
            ctx.assume(ctx.any([e >= 1e-4, e <= -1e-4]))
            ok["dist"] = bool(e <= 0)
        if filters.get("pick_filter"):
            ok["pick"] = bool(r["is_picked"])
        if nf:
            e = a - n * nf
            ctx.assume(ctx.any([e >= 1e-4, e <= -1e-4]))
            ok["noise"] = bool(e >= 0)
        passes[k] = ok
        if all(ok.values()) and not isnan(r["ML"]):
            used.append(k)
    mag = Magnitude(par)
    # the object has been used for another event, with the same and with other channels
    old = rows_for(ctx, {}, feature, gains, None)[::-1]
    for k, r in enumerate(old):
        r.update(epi_dist=14.0 + 3 * k, ML=0.75 + k / 4, ML_Err=0.3, is_picked=k != 3, **{f"{feature}_amp": 1.0 + k})
    df0 = table(ctx, old)
    for c in ("ML", "ML_Err"):
        df0[c] = np.array([r[c] for r in old])
    mag.mean_magnitude(df0)
    m, err, r2, out = mag.mean_magnitude(df)
    ctx.check(list(out.index) == [rows[k]["id"] for k in keep], "observations without signal or noise are left out")
    for j, k in enumerate(keep):
        ctx.check(bool(out["Used"].iloc[j]) == (k in used), "used exactly when every filter is passed")
        ctx.check(near(ctx, out["Noise_amp"].iloc[j], noise[k]), "noise corrected for the filter gain")
        ctx.check(abs(out["Station_Correction"].iloc[j] - corrs.get(rows[k]["id"], 0.0)) < 1e-12, "station correction")
        if is_sym(dists[k]) or dists[k] != 0:
            ctx.check(near(ctx, out["Dist"].iloc[j], dists[k]), "distance used")
        ctx.check(near(ctx, out["epi_dist"].iloc[j], rows[k]["epi_dist"]), "the distances are kept")
    if not used:
        ctx.check(isnan(m) and isnan(err) and isnan(r2), "no magnitude when nothing passes")
        return
    w = {k: (1.0 / rows[k]["ML_Err"]) ** 2 if weighted else 1.0 for k in used}
    W = sum(w.values())
    want = sum(rows[k]["ML"] * w[k] for k in used) / W
    ctx.check(not isnan(m), "a magnitude when anything passes")
    ctx.check(near(ctx, m, want), "weighted mean of the magnitudes" if weighted else "mean of the magnitudes")
    if len(used) == 1:
        ctx.check(near(ctx, err, rows[used[0]]["ML_Err"]), "error of the single observation")
    else:
        ctx.check(err >= 0, "not negative")
        ctx.check(near(ctx, err * err * W, sum(w[k] * (rows[k]["ML"] - want) ** 2 for k in used), 1e-5),
                  "weighted standard deviation" if weighted else "standard deviation")
    # r squared
    sel = used
    if not only_used:
        sel = []
        for k in keep:
            ok = passes[k]
            if not (ok["trace"] and ok["station"] and ok["dist"]):
                continue
            if not ok["noise"]:
                ratio = 10.0 ** (float(want) - att(ctx, a0, dists[k])) / (mult * 10.0 ** corrs.get(rows[k]["id"], 0.0))
                e = ratio - 5 * noise[k]
                ctx.assume(ctx.any([e >= 1e-4, e <= -1e-4]))
                if bool(e <= 0):
                    continue
            sel.append(k)
    logs = {k: math.log10(rows[k][f"{feature}_amp"] * mult) + corrs.get(rows[k]["id"], 0.0) for k in sel
            if not is_sym(rows[k][f"{feature}_amp"])}
    if len(logs) < len(sel):
        return
    if len(sel) < 2:
        ctx.check(isnan(r2), "no r-squared for less than two observations")
        return
    mu = sum(logs.values()) / len(sel)
    var = sum((logs[k] - mu) ** 2 for k in sel)
    mod = sum((logs[k] - (want - att(ctx, a0, dists[k]))) ** 2 for k in sel)
    ctx.check(not isnan(r2), "an r-squared for two or more observations")
    ctx.check(near(ctx, r2 * var, var - mod, 1e-5), "r-squared over the observations selected for it")


def att(ctx, a0, d):
    if is_sym(d):
        for x, lo, hi in ((ctx.f("log10", d), -1, 3), (ctx.f("exp", d * -0.2), 0, 1)):
            ctx.assume(ctx.all([x >= lo, x <= hi]))  # true of distances from 0.1 to 1000
        return attenuation(ctx, a0, d)

    class C:
        def f(self, n, x):
            return getattr(np, n)(x)

    return float(attenuation(C(), a0, d))


def whole(ctx, sym, filters, special=None, empty=False):
    """calc_magnitude: the amplitude file and the event"""
    from quakemigrate.io.event import Event
    from quakemigrate.signal.local_mag import LocalMag

    sym = {tuple(k): v for k, v in sym}
    rows = rows_for(ctx, sym, "S", False, special)
    rows[2] = {"id": IDS[2], "epi_dist": 20.0, "z_dist": 4.0}
    if empty:
        for r in rows:
            r["S_amp"] = np.nan
    rows[0]["P_freq"] = 3.25
    for k, r in enumerate(rows):
        if "P_amp" in r and r["P_amp"] == r["P_amp"]:
            r["P_time"], r["S_time"] = at(ctx, 100 + k), at(ctx, 200 + k)
    df = table(ctx, rows)
    lm = LocalMag(dict(signal_window=1.0), dict(A0="own" if False else "UK", **filters), plot_amplitudes=False)
    first = table(ctx, rows_for(ctx, {}, "S", False, None)[1:4])
    lm.amp.get_amplitudes = lambda event, lut: df if event.uid.startswith("20210101") else first
    nf = filters.get("noise_filter", 1.0)
    for r in rows:
        a, n = r.get("S_amp", np.nan), r.get("Noise_amp", np.nan)
        if not isnan(a) and (is_sym(a) or is_sym(n)):
            for f in (1.0, nf):
                ctx.assume(ctx.any([a >= f * n + 1e-4, a <= f * n - 1e-4]))
    scratch = rig.scratch_dir("c30")
    try:
        run = pickrig.run_at(scratch)
        # another event first
        lm.calc_magnitude(pickrig.event(ctx, 2.0, at(ctx, 10), uid="20201231000000000"), pickrig.LUT({}), run)
        for p in pathlib.Path(scratch).rglob("20201231*"):
            p.unlink()
        ev = pickrig.event(ctx, 1.0, at(ctx, 50))
        ev, mag = lm.calc_magnitude(ev, pickrig.LUT({}), run)
        files = sorted(p.relative_to(scratch) for p in scratch.rglob("*.amps")) if hasattr(scratch, "rglob") else None
        got = sorted(pathlib.Path(scratch).rglob("*.amps"))
        ctx.check([str(p.relative_to(scratch)) for p in got] == [f"locate/{ev.uid}.amps"] or
                  [str(p.relative_to(scratch)) for p in got] == [f"locate/amplitudes/{ev.uid}.amps"], "one amplitude file")
        with open(got[0]) as f:
            lines = list(csv.DictReader(f))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.check([x["id"] for x in lines] == [r["id"] for r in rows], "a line per observation")

    def written(text, v, digits):
        if isnan(v):
            ctx.check(text == "", "nothing written for missing values")
            return
        ctx.check(text != "", "values are written")
        e = ctx.number(text) - v
        big = abs(v) * (0.5000001 * 10 ** (1 - digits)) + 1e-9
        ctx.check(ctx.all([e <= big, e >= -big]), "amplitude file holds the values")

    mls, errs = [], []
    for line, r in zip(lines, rows):
        for c in ("epi_dist", "z_dist", "P_amp", "S_amp", "Noise_amp"):
            written(line[c], r.get(c, np.nan), 5)
        written(line["P_freq"], r.get("P_freq", np.nan), 2)
        ctx.check(line["S_time"] == ("" if r.get("S_time") is None else str(r["S_time"])), "times are written")
        ctx.check(line["is_picked"] == str(bool(r.get("is_picked", False))), "picked flag is written")
        a, n = r.get("S_amp", np.nan), r.get("Noise_amp", np.nan)
        if empty:
            continue
        if isnan(a) or bool(a < n):
            mls.append(None)
            ctx.check(line["ML"] == "", "no magnitude below the noise")
            continue
        ml = ctx.f("log10", a) + att(ctx, "UK", r["epi_dist"])
        mls.append(ml)
        written(line["ML"], ml, 3)
    lmag = ev.localmag
    if empty:
        ctx.check(isnan(mag) and all(isnan(lmag[c]) for c in ("ML", "ML_Err", "ML_r2")), "no magnitude without amplitudes")
        return
    used = [ml for ml, r in zip(mls, rows) if ml is not None and (not nf or bool(r["S_amp"] > nf * r["Noise_amp"]))]
    if not used:
        ctx.check(isnan(mag) and all(isnan(lmag[c]) for c in ("ML", "ML_Err", "ML_r2")), "no magnitude when nothing passes")
        return
    ctx.check(ctx.all([near(ctx, mag, sum(used) / len(used)), near(ctx, lmag["ML"], sum(used) / len(used))]),
              "the event carries the mean magnitude")
    ctx.check(not isnan(lmag["ML_Err"]), "and its error")


def cases(tier):
    S = "S_amp"
    noise = [[(k, "Noise_amp"), (0.01, 4)] for k in (0, 1, 2)]
    ml = [[(k, "ML"), (-2, 5)] for k in range(4)]
    dist = [[(k, "epi_dist"), (1, 100)] for k in (1, 3)]
    H, K = ".*H[NE]$", ["KVE"]  # ends with one of the letters
    out = [
        dict(sym=ml[:3], filters={}),
        dict(sym=ml[:3], filters={}, weighted=True),
        dict(sym=noise, filters=dict(noise_filter=3.0), corr=True),
        dict(sym=noise, filters=dict(noise_filter=3.0), gains=True, feature="P", weighted=True),
        dict(sym=noise, filters=dict(noise_filter=0.0)),
        dict(sym=noise + ml[:1], filters=dict(noise_filter=1.0, trace_filter=H), corr=True, mult=10.0),
        dict(sym=noise + dist[:1], filters=dict(dist_filter=30.0, station_filter=K), feature="P"),
        dict(sym=dist, filters=dict(dist_filter=25.0, station_filter=["STB", "ST"], pick_filter=True), hyp=True),
        dict(sym=noise[:2] + ml[2:4], filters=dict(trace_filter=H, station_filter=K, pick_filter=True, noise_filter=2.0), drop=1),
        dict(sym=noise[2:], filters=dict(trace_filter=H, pick_filter=False, noise_filter=5.0), drop=2),
        dict(sym=ml[:2], filters={}, special="missing"),
        dict(sym=ml[1:3], filters={}, special="no magnitude"),
        dict(sym=ml[:2], filters=dict(noise_filter=0.0), special="below noise"),
        dict(sym=noise[:1] + ml[1:2], filters=dict(noise_filter=0.25), special="below noise", only_used=True),
        dict(sym=noise, filters=dict(noise_filter=4.0), only_used=False, a0="Hutton-Boore"),
        dict(sym=noise[:2], filters=dict(noise_filter=4.0, dist_filter=33.0, trace_filter=H, pick_filter=True), only_used=False,
             corr=True, mult=2.0, gains=True, a0="keir2006"),
        dict(sym=noise[:2], filters=dict(noise_filter=1.5, pick_filter=True), only_used=False, corr=True, mult=2.0, gains=True,
             shift=1.5, a0="Danakil2017"),
        dict(sym=noise[:1], filters=dict(noise_filter=2.0), only_used=False, corr=True, shift=-1.0),
        dict(sym=[[(4, "Noise_amp"), (0.01, 8)]], filters=dict(noise_filter=2.0), only_used=False, corr=True, mult=3.0),
        dict(sym=noise[1:] + [[(3, "Noise_amp"), (0.01, 4)]], filters=dict(noise_filter=2.0, station_filter=["STA"]), only_used=False,
             a0="Langston1998", hyp=True),
        dict(sym=[[(k, "Noise_amp"), (0.6, 20)] for k in range(4)], filters=dict(noise_filter=1.0, trace_filter=".*H[Z]$")),
    ]
    if tier == "thorough":
        for f in (0.0, 1.0, 3.0):
            for t in (None, H):
                for st in (None, K):
                    for d in (False, 30.0):
                        for pk in (False, True):
                            for ou in (True, False):
                                if not ou and f == 0.0:
                                    continue
                                out.append(dict(sym=noise[:2] + dist[:1] if ou else noise, only_used=ou, weighted=pk, gains=bool(d), filters=dict(
                                    noise_filter=f, trace_filter=t, station_filter=st, dist_filter=d, pick_filter=pk)))
    return out


def whole_cases(tier):
    A = [[(0, "S_amp"), (0.01, 50)], [(3, "Noise_amp"), (0.01, 5)]]
    out = [dict(sym=A, filters={}), dict(sym=A, filters=dict(noise_filter=0.0)),
           dict(sym=[[(k, "Noise_amp"), (0.01, 5)] for k in (0, 1, 3)], filters=dict(noise_filter=2.0)),
           dict(sym=A[1:], filters={}, empty=True)]
    return out


HARNESSES = [
    dict(name="mean", fn=mean, cases=cases, env=time_env,
         expect=["used exactly when every filter is passed", "mean of the magnitudes", "weighted mean of the magnitudes",
                 "standard deviation", "weighted standard deviation", "error of the single observation",
                 "no magnitude when nothing passes", "r-squared over the observations selected for it",
                 "observations without signal or noise are left out"],
         bounds="five observations on four stations, up to four of them with any noise level, distance or magnitude"),
    dict(name="whole", fn=whole, cases=whole_cases, env=time_env,
         expect=["the event carries the mean magnitude", "amplitude file holds the values", "no magnitude without amplitudes"],
         bounds="five observations, up to three with any noise or signal amplitude"),
]
