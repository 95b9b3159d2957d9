# -*- coding: utf-8 -*-
"""C29: station magnitudes."""

import math

import numpy as np

from qmv.props.common import col, time_env
from qmv.sym import is_sym

ASSUMPTIONS = ["exact real arithmetic; amplitudes and noise levels differ"]
STUBS = ["log10, exp and sqrt are uninterpreted, with log10(c x) = log10(c) + log10(x) for constants c, "
         "exp > 0 and sqrt(x)^2 = x"]

# factor of log10(distance / reference), linear term, offset, from the publications cited
CURVES = {
    "keir2006": (1.196997, 0.001066, 17.0, 2.0),
    "Danakil2017": (1.274336, -0.000273, 17.0, 2.0),
    "Greenfield2018_askja": (1.4406, 0.003, 17.0, 2.0),
    "Greenfield2018_bardarbunga": (1.2534, 0.0032, 17.0, 2.0),
    "Greenfield2018_comb": (1.1999, 0.0016, 17.0, 2.0),
    "Hutton-Boore": (1.11, 0.00189, 100.0, 3.0),
    "Langston1998": (0.776, 0.000902, 17.0, 2.0),
}
COLUMNS = ["epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain", "S_amp", "S_freq", "S_time",
           "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]


def near(ctx, a, b, tol=1e-6):
    d = a - b
    return ctx.all([d <= tol, d >= -tol])


def isnan(x):
    return x is None or (not is_sym(x) and x != x)


def attenuation(ctx, a0, d):
    if a0 == "UK":
        return 1.11 * ctx.f("log10", d) + 0.00189 * d - 1.16 * ctx.f("exp", d * -0.2) - 2.09
    if callable(a0):
        return a0(d)
    a, b, r, c = CURVES[a0]
    return a * ctx.f("log10", d / r) + b * (d - r) + c


def table(ctx, rows):
    """rows: dicts of the columns that matter"""
    import pandas as pd

    out = {}
    for c in COLUMNS:
        v = [r.get(c, {"P_time": None, "S_time": None, "is_picked": False}.get(c, np.nan)) for r in rows]
        if c in ("P_time", "S_time"):
            a = np.empty(len(v), dtype=object)
            a[:] = v
            out[c] = a
        elif c == "is_picked":
            out[c] = np.array(v, dtype=bool)
        else:
            out[c] = col(ctx, v) if any(is_sym(x) for x in v) else np.array(v, dtype=float)
    df = pd.DataFrame(out, columns=COLUMNS)
    df.index = pd.Index([r["id"] for r in rows], name="id")
    return df


def same(a, b):
    if is_sym(a) or is_sym(b):
        return is_sym(a) and is_sym(b) and a.e.eq(b.e)
    return a is b or (isnan(a) and isnan(b)) or a == b


def station(ctx, a0, kind, feature="S", mult=1.0, hyp=False, corr=False, gains=False):
    """kind: 'normal', 'noisy' (amplitude below noise), or a special row"""
    from quakemigrate.signal.local_mag.magnitude import Magnitude

    if a0 == "own":
        def a0(d):
            return d * 0.01 - 1.5
    rows = []
    amp, noise = ctx.real("amp", 0.01, 100), ctx.real("noise", 0.001, 100)
    d, z = ctx.real("dist", 0.5, 300), ctx.real("depth", -3, 30)
    other = "P" if feature == "S" else "S"
    g = 0.5 if gains else np.nan
    cor = ctx.real("correction", -1, 1)
    rows.append({"id": "NW.STA..HHE", "epi_dist": d, "z_dist": z, f"{feature}_amp": amp, f"{other}_amp": 77.0,
                 "Noise_amp": noise, f"{feature}_filter_gain": g, f"{other}_filter_gain": 0.25 if gains else np.nan})
    rows.append({"id": "NW.STB..HHE", "epi_dist": 10.0, "z_dist": 4.0, f"{feature}_amp": 2.0, f"{other}_amp": 9.0,
                 "Noise_amp": 0.25, f"{feature}_filter_gain": g * 1.6, f"{other}_filter_gain": 0.3 if gains else np.nan})
    rows.append({"id": ".STC..Z", "epi_dist": 12.0, "z_dist": 5.0})
    if kind == "zero amplitude":
        rows[1][f"{feature}_amp"] = 0.0
        rows[1]["Noise_amp"] = 0.0
    elif kind == "zero distance":
        rows[1]["epi_dist"] = 0.0
        rows[1]["z_dist"] = 0.0
    elif kind == "no noise":
        rows[1]["Noise_amp"] = 0.0
    df = table(ctx, rows)
    before = {c: list(df[c].values) for c in df.columns}
    par = dict(A0=a0, amp_feature=f"{feature}_amp", amp_multiplier=mult, use_hyp_dist=hyp)
    corrs = {"NW.STA..HHE": cor, "NW.STB..HHE": -0.2, "NW.STB..HHZ": 0.9} if corr else {}
    if corr:
        par["station_corrections"] = corrs
    eff = noise / (g if gains else 1.0)
    ctx.assume(ctx.any([amp >= eff + 1e-4, amp <= eff - 1e-4]))
    mag = Magnitude(par)
    # the object has been used for another event, with the same and with other channels
    old = [dict(r, epi_dist=30.0 + k, z_dist=8.0 + k, Noise_amp=0.01, **{f"{feature}_amp": 3.0 + k, f"{feature}_filter_gain": 0.8 if gains else np.nan})
           for k, r in enumerate(rows)] + [{"id": "NW.STB..HHZ", "epi_dist": 3.0, "z_dist": 1.0, f"{feature}_amp": 4.0, "Noise_amp": 0.5}]
    mag.calculate_magnitudes(table(ctx, old))
    out = mag.calculate_magnitudes(df)
    ctx.check(list(out.index) == [r["id"] for r in rows] and list(out.columns) == COLUMNS + ["ML", "ML_Err"],
              "the amplitude table with two columns more")
    for c in COLUMNS:
        ctx.check(list(df.columns) == COLUMNS and all(same(a, b) for a, b in zip(before[c], df[c].values)),
                  "the amplitudes passed in are not altered")
        ctx.check(all(same(a, b) for a, b in zip(before[c], out[c].values)), "the amplitudes are kept")
    for k, r in enumerate(rows):
        ml, err = out["ML"].iloc[k], out["ML_Err"].iloc[k]
        a, n = r.get(f"{feature}_amp"), r.get("Noise_amp")
        if a is None:
            ctx.check(isnan(ml), "no magnitude without an amplitude")
            continue
        if gains:
            n = n / r[f"{feature}_filter_gain"]
        e, zz = r["epi_dist"], r["z_dist"]
        dist = e
        if hyp:
            dist = ctx.f("sqrt", e * e + zz * zz) if is_sym(e) else math.sqrt(e * e + zz * zz)
        if (not is_sym(a) and a == 0) or (not is_sym(dist) and dist == 0) or bool(a < n):
            ctx.check(isnan(ml), "no magnitude below the noise, or at zero amplitude or distance")
            continue
        ctx.check(not isnan(ml) and not isnan(err), "a magnitude for every other observation")
        s = corrs.get(r["id"], 0.0)
        want = ctx.f("log10", a * mult) + attenuation(ctx, a0, dist) + s
        ctx.check(near(ctx, ml, want), "log10 of the amplitude plus attenuation plus correction")
        ctx.check(near(ctx, err, ctx.f("log10", (a + n) * mult) - ctx.f("log10", (a - n) * mult)),
                  "difference of the magnitudes of amplitude plus and minus noise")


def cases(tier):
    out = [dict(a0=a, kind="normal") for a in list(CURVES) + ["UK", "own"]]
    out += [dict(a0="UK", kind="normal", hyp=True, feature="P", mult=1000.0),
            dict(a0="Hutton-Boore", kind="zero amplitude", corr=True, mult=2.5),
            dict(a0="keir2006", kind="zero distance", hyp=True, corr=True),
            dict(a0="own", kind="zero distance", corr=True, gains=True),
            dict(a0="Langston1998", kind="no noise", gains=True, feature="P"),
            dict(a0="UK", kind="normal", gains=True, mult=0.5, corr=True)]
    if tier == "thorough":
        out += [dict(a0=a, kind=k, hyp=h, gains=g, corr=True, mult=m, feature=f) for a in list(CURVES) + ["UK", "own"]
                for k in ("normal", "zero distance", "zero amplitude", "no noise") for h in (False, True)
                for g, m, f in ((False, 3.0, "P"), (True, 0.7, "S"))]
    return out


HARNESSES = [
    dict(name="station", fn=station, cases=cases, env=time_env,
         expect=["log10 of the amplitude plus attenuation plus correction", "the amplitudes passed in are not altered",
                 "difference of the magnitudes of amplitude plus and minus noise", "no magnitude without an amplitude",
                 "no magnitude below the noise, or at zero amplitude or distance"],
         bounds="three observations, one of them with any amplitude, noise, distance up to 300 km, depth and correction; "
         "all built-in attenuation curves and one of the user's"),
]
