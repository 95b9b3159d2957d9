# -*- coding: utf-8 -*-
"""C12: the trigger threshold trace."""

import inspect

import numpy as np
import pandas as pd

from qmv.props.common import Obj, make_trigger, time_env
from qmv.symtime import at

ASSUMPTIONS = [
    "coalescence values are exact reals",
    "window length x sampling rate is a whole number of samples (up to floating-point rounding)",
]




def _median(ctx, xs):
    """Median by a min/max exchange network (no assumption on the order)."""
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = ctx.min([a, b]), ctx.max([a, b])
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


def _series(ctx, v, index=0):
    idx = np.arange(index, index + len(v))
    if ctx.symbolic:
        a = np.empty(len(v), dtype=object)
        a[:] = v
        return pd.Series(a, index=idx, name="COA")
    return pd.Series(np.array(v, dtype=float), index=idx, name="COA")


def threshold(ctx, method, n, win, rate, free=None):
    """`free`: the samples with arbitrary values (default: all); the others are fixed and distinct."""
    v = [ctx.real(f"v{i}", 0, 1000) if free is None or i in free else 10.0 + (i * 37) % 101 for i in range(n)]
    mult = ctx.real("multiplier", 0, 100)
    level = ctx.real("level", 0, 100)
    wl = win / rate
    t = make_trigger(
        mad_window_length=wl, median_window_length=wl,
        mad_multiplier=mult, median_multiplier=mult, static_threshold=level,
    )
    t.threshold_method = method
    other = wl * 3 + 7  # the other method's window must not matter
    if method == "mad":
        t.median_window_length = other
        t.median_multiplier = 77.0
    else:
        t.mad_window_length = other
        t.mad_multiplier = 77.0
    if method == "dynamic":
        t.mad_window_length, t.mad_multiplier = wl, mult
    data = _series(ctx, v)
    # the trigger has been used before: another batch, with other settings
    now = (t.mad_window_length, t.median_window_length)
    t.mad_multiplier, t.median_multiplier, t.static_threshold = 3.0, 2.0, 4.0
    t._get_threshold(_series(ctx, [1.0 + i for i in range(n)], n), rate)
    t.mad_window_length, t.median_window_length = 3 * wl, 3 * wl
    t._get_threshold(_series(ctx, [7.0 - i % 2 for i in range(n)]), rate)
    t.mad_window_length, t.median_window_length = now
    mid = []
    for i in range(n if method != "static" else 0):
        if i % win:
            mid.append(mid[-1])
            continue
        chunk = v[i: i + win]
        if free is not None:
            order = sorted(chunk)  # one case per order: few values are free
            med = order[len(chunk) // 2] if len(chunk) % 2 else (order[len(chunk) // 2 - 1] + order[len(chunk) // 2]) / 2
        else:
            med = _median(ctx, chunk)
        mid.append((med, None if method == "median_ratio" else _median(ctx, [abs(x - med) for x in chunk])))
    # then for this one, and again with another multiplier
    for mult, level in ((mult, level), (2.5, 6.25)):
        if method == "median_ratio":
            t.median_multiplier = mult
        elif method != "static":
            t.mad_multiplier = mult
        t.static_threshold = level
        th = np.asarray(t._get_threshold(data, rate))
        ctx.check(len(th) == n, "one threshold value per sample")
        for i in range(n):
            if method == "static":
                ctx.check(ctx.eq(th[i], level), "static threshold")
                continue
            med, mad = mid[i]
            want = med * mult if method == "median_ratio" else med + 1.4826 * mad * mult
            ctx.check(ctx.eq(th[i], want, 1e-6), "windowed threshold")
        ctx.check(ctx.all([ctx.eq(data.iloc[i], v[i]) for i in range(n)]), "data not modified")


def smoothing(ctx, n, rate, sigma, width, on=True):
    """What the threshold and the candidates are made from: both traces, each smoothed by itself."""
    import scipy.ndimage as nd

    import quakemigrate.signal.trigger as tm

    v = {c: [ctx.real(f"{c}{i}", 0, 1000) for i in range(n)] for c in ("COA", "COA_N")}
    normalise = ctx.choose("normalise", [False, True])
    t = make_trigger(smooth_coa=on, smoothing_kernel_sigma=sigma, smoothing_kernel_width=width, normalise_coalescence=normalise)
    start = at(ctx, 0)
    df = pd.DataFrame({"DT": [start + i / rate for i in range(n)], "COA": _series(ctx, v["COA"]), "COA_N": _series(ctx, v["COA_N"]),
                       "X": [1.0] * n, "Y": [2.0] * n, "Z": [3.0] * n})
    real = nd.gaussian_filter1d

    def smooth(x, *a, **k):
        m = real(np.eye(n), a[0] if a else k["sigma"], axis=0, **{q: w for q, w in k.items() if q not in ("sigma", "axis")})
        x = list(np.asarray(x, dtype=object))
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = sum((float(w) * y for w, y in zip(m[i], x) if w), 0.0)
        return out

    seen = []
    saved = [(m, m.gaussian_filter1d) for m in (tm, nd) if hasattr(m, "gaussian_filter1d")]
    io = tm.read_scanmseed, tm.write_triggered_events
    tm.read_scanmseed = lambda *a, **k: (df.copy(), Obj(delta=1 / rate, sampling_rate=rate))
    tm.write_triggered_events = lambda *a, **k: None
    thr, cand = inspect.signature(t._get_threshold), inspect.signature(t._identify_candidates)

    def get_threshold(*a, **k):
        x, r = list(thr.bind(*a, **k).arguments.values())[:2]
        seen.append(("threshold", list(x), r))
        return np.full(n, 5.0)

    def candidates(*a, **k):
        data, trigger_on, threshold = list(cand.bind(*a, **k).arguments.values())[:3]
        seen.append(("candidates", {c: list(data[c]) for c in data.columns}, trigger_on, threshold))
        return pd.DataFrame(columns=["EventNum"])

    t._get_threshold = get_threshold
    t._identify_candidates = candidates
    try:
        if ctx.symbolic:
            for m, _ in saved:
                m.gaussian_filter1d = smooth
        t._trigger_batch(start, start + 60.0, None, False)
    finally:
        for m, f in saved:
            m.gaussian_filter1d = f
        tm.read_scanmseed, tm.write_triggered_events = io
    m = real(np.eye(n), sigma * rate, axis=0, truncate=width)
    want = {c: [sum((float(w) * y for w, y in zip(m[i], v[c]) if w), 0.0) for i in range(n)] if on else v[c] for c in v}
    ctx.check([x[0] for x in seen] == ["threshold", "candidates"], "one threshold, then the candidates")
    name = "COA_N" if normalise else "COA"
    (_, x, r), (_, data, trig, th) = seen
    ctx.check(trig == name and r == rate and list(th) == [5.0] * n, "triggers on the trace asked for")
    ctx.check(ctx.all([ctx.eq(a, b, 1e-6) for a, b in zip(x, want[name])]) if len(x) == n else False,
              "the threshold is made from the smoothed trace" if on else "nothing is smoothed unless asked for")
    for c in v:
        ctx.check(ctx.all([ctx.eq(a, b, 1e-6) for a, b in zip(data[c], want[c])]) if len(data[c]) == n else False,
                  "both traces are smoothed, each by itself" if on else "nothing is smoothed unless asked for")
    ctx.check(data["X"] == [1.0] * n and data["Z"] == [3.0] * n and data["DT"] == list(df["DT"]), "times and positions are kept")


def cases_s(tier):
    out = [dict(n=7, rate=5, sigma=0.2, width=4.0), dict(n=6, rate=10, sigma=0.15, width=1.0), dict(n=5, rate=50, sigma=0.2, width=4.0, on=False)]
    if tier == "thorough":
        out += [dict(n=14, rate=20, sigma=0.1, width=3.0), dict(n=11, rate=50, sigma=0.2, width=4.0)]
    return out


def cases(tier):
    out = [dict(method="static", n=n, win=2, rate=10) for n in (1, 3)]
    shapes = [(1, 1, 10), (2, 1, 50), (3, 2, 10), (4, 2, 20), (3, 3, 1), (3, 5, 8),
              (5, 2, 10), (4, 3, 4), (5, 3, 10), (5, 4, 50)]
    if tier == "thorough":
        shapes += [(7, 2, 10), (7, 3, 10), (6, 4, 10), (5, 5, 20), (6, 5, 10)]
    for m in ("mad", "median_ratio", "dynamic"):
        for n, w, r in shapes:
            if m == "dynamic" and n > 3:
                continue
            if m != "median_ratio" and min(n, w) > 4:
                continue
            out.append(dict(method=m, n=n, win=w, rate=r))
    # whole numbers of samples whose product with the sampling rate is not exact (0.58 s x 50 Hz)
    out += [dict(method="median_ratio", n=31, win=29, rate=50, free=[3]), dict(method="mad", n=5, win=2, rate=49)]
    if tier == "thorough":
        out += [dict(method="median_ratio", n=60, win=57, rate=100, free=[0])]
    return out


HARNESSES = [
    dict(name="threshold", fn=threshold, cases=cases,
         expect=["one threshold value per sample", "static threshold", "windowed threshold"],
         bounds="traces of <=5 samples (7 thorough), windows of <=5 samples (and one of 29), rates 1-50 Hz, any values"),
    dict(name="smoothing", fn=smoothing, cases=cases_s, env=time_env,
         expect=["both traces are smoothed, each by itself", "the threshold is made from the smoothed trace",
                 "nothing is smoothed unless asked for"],
         bounds="traces of <=7 samples (14 thorough), the listed kernels, any values; SciPy's kernel is applied as a matrix"),
]
