# -*- coding: utf-8 -*-
"""C05: STA/LTA onsets are ratios of window means; native and Python backends agree."""

from qmv.props.common import core_env, values

USES_IR = ["overlapping_sta_lta", "centred_sta_lta", "recursive_sta_lta"]
ASSUMPTIONS = [
    "doubles are modelled as exact reals (rounding of the running sums is outside the claim)",
    "characteristic function values are 0 or at least 1e-6",
    "STA window shorter than the LTA window",
]
STUBS = ["ctypes call boundary"]


def _signal(ctx, n):
    sig = [ctx.real(f"s{t}", 0, 100) for t in range(n)]
    for s in sig:
        ctx.assume(ctx.any([s == 0, s >= 1e-6]))
    return sig


def _sum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def _expected(ctx, position, sig, i, nsta, nlta):
    """(numerator mean, denominator mean) or None when a window does not fit."""
    n = len(sig)
    if position == "classic":
        if i < nlta - 1:
            return None
        return sig[i - nsta + 1 : i + 1], sig[i - nlta + 1 : i + 1]
    if i < nlta - 1 or i + nsta > n - 1:
        return None
    return sig[i + 1 : i + 1 + nsta], sig[i - nlta + 1 : i + 1]


def onset(ctx, position, backend, n, nsta, nlta):
    from quakemigrate.core import lib
    from quakemigrate.signal.onsets import stalta

    fn = {
        ("classic", "c"): lib.overlapping_sta_lta,
        ("centred", "c"): lib.centred_sta_lta,
        ("classic", "py"): stalta.overlapping_sta_lta_py,
        ("centred", "py"): stalta.centred_sta_lta_py,
    }[position, backend]
    sig = _signal(ctx, n)
    arr = values(ctx, [sig])[0]
    out = fn(arr, nsta, nlta)
    ctx.check(len(out) == n, "one onset value per sample")
    conds, neutral = [], []
    for i in range(n):
        w = _expected(ctx, position, sig, i, nsta, nlta)
        if w is None:
            neutral.append(ctx.eq(out[i], 1))
            continue
        s, l = _sum(w[0]), _sum(w[1])
        # onset = (s / nsta) / (l / nlta) where the LTA window has energy, else 1
        good = ctx.any([
            ctx.all([l > 0, ctx.eq(out[i] * l * nsta, s * nlta)]),
            ctx.all([l == 0, ctx.eq(out[i], 1)]),
        ])
        conds.append(good)
    if conds:
        ctx.check(ctx.all(conds), "onset = STA mean / LTA mean")
    if neutral:
        ctx.check(ctx.all(neutral), "neutral value 1 where a window does not fit")
    ctx.check(ctx.all([ctx.eq(arr[i], sig[i]) for i in range(n)]), "signal not modified")


def recursive(ctx, n, nsta, nlta):
    from quakemigrate.core import lib

    sig = [ctx.real(f"s{t}", 1, 100) for t in range(n)]
    out = lib.recursive_sta_lta(values(ctx, [sig])[0], nsta, nlta)
    ctx.check(len(out) == n, "one onset value per sample")
    s = l = 0
    for i in range(1, n):
        s = sig[i] / nsta + s * (nsta - 1) / nsta
        l = sig[i] / nlta + l * (nlta - 1) / nlta
        if nlta < n and i < nlta:
            ctx.check(ctx.eq(out[i], 1), "start of the recursive onset is neutral")
        else:
            ctx.check(ctx.eq(out[i] * l, s), "recursive onset follows its recurrence")


def cases(tier):
    out = []
    top = 7 if tier == "quick" else 10
    for position in ("classic", "centred"):
        for backend in ("c", "py"):
            for n in range(2, top):
                for nlta in range(2, n + 1):
                    for nsta in range(1, nlta):
                        if position == "centred" and nlta + nsta > n:
                            continue
                        if tier == "quick" and n == 6 and (nsta == 2) == (nlta == 4):
                            continue
                        out.append(dict(position=position, backend=backend, n=n, nsta=nsta, nlta=nlta))
    return out


HARNESSES = [
    dict(name="onset", fn=onset, cases=cases, env=core_env,
         expect=["onset = STA mean / LTA mean", "neutral value 1 where a window does not fit"],
         bounds="signal length 2-6 (9 thorough), every STA < LTA <= length, any signal values"),
    dict(name="recursive", fn=recursive, env=core_env,
         cases=[dict(n=n, nsta=a, nlta=b) for n, a, b in ((2, 1, 2), (3, 1, 2), (4, 1, 3), (5, 2, 3), (5, 2, 6))],
         expect=["recursive onset follows its recurrence", "start of the recursive onset is neutral"],
         bounds="signal length 2-5"),
]
