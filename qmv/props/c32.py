# -*- coding: utf-8 -*-
"""C32: times <-> whole numbers of samples, in floating point."""

from qmv.props.common import time_env

ASSUMPTIONS = [
    "IEEE-754 double arithmetic, round to nearest even, modelled bit for bit",
    "times are decimal fractions (k/100, k/1000 s) held in doubles; sampling rates are the integers listed in the bounds",
]


def to_samples(ctx, rate, lo, hi, den):
    from quakemigrate.util import time2sample

    t = ctx.decimal("k", lo, hi, den)
    n = time2sample(t, rate)
    d = n - t * float(rate)
    ctx.check(ctx.all([d <= 0.5 + 1e-6, d >= -0.5 - 1e-6]), "nearest number of samples")
    ctx.check(n.is_integer() if ctx.symbolic else n == int(n), "a whole number")


def span(ctx, rate, lo, hi, den):
    from quakemigrate.util import trim2sample

    t = ctx.decimal("k", lo, hi, den)
    out = trim2sample(t, rate)
    v = out * float(rate)
    r = v.rint() if ctx.symbolic else round(v)
    d = v - r
    ctx.check(ctx.all([d <= 1e-6, d >= -1e-6]), "a whole number of samples")
    ctx.check(out >= t - 1e-9, "never shorter than requested")
    ctx.check(out <= t + 1.0 / rate + 1e-9, "at most one sample longer")


def _chunks(top, den, floor=16):
    """Ranges that keep the value within one or two binades (keeps the solver fast)."""
    out, lo = [(0, floor)], floor
    while lo < top:
        hi = min(2 * lo, lo + 640, top)
        out.append((lo + 1, hi))
        lo = hi
    return out


def cases_n(tier):
    out = []
    rates = (50, 100) if tier == "quick" else (20, 25, 40, 50, 100, 125, 200, 250, 500)
    top = 1000 if tier == "quick" else 12000
    for r in rates:
        out += [dict(rate=r, lo=a, hi=b, den=100) for a, b in _chunks(top, 100)]
    return out


def cases_s(tier):
    out = []
    rates = (50, 100) if tier == "quick" else (20, 25, 40, 50, 80, 100, 125, 200, 250, 500)
    top = 1000 if tier == "quick" else 12000
    for r in rates:
        out += [dict(rate=r, lo=a, hi=b, den=100) for a, b in _chunks(top, 100)]
    return out


HARNESSES = [
    dict(name="to_samples", fn=to_samples, cases=cases_n,
         expect=["nearest number of samples"],
         bounds="every time 0-10 s in steps of 10 ms (0-120 s thorough) as a double, sampling rates 50 and 100 Hz "
                "(20-500 Hz thorough)"),
    dict(name="span", fn=span, cases=cases_s,
         expect=["a whole number of samples", "never shorter than requested"],
         bounds="every time 0-10 s in steps of 10 ms (0-120 s thorough), 50 and 100 Hz (20-500 Hz thorough)"),
]
