# -*- coding: utf-8 -*-
"""C39: the Gaussian location is the centre of the Gaussian fitted to the smoothed map."""

from fractions import Fraction

import numpy as np

from qmv.props.c18 import Stubs
from qmv.props.c24 import near
from qmv.props.common import time_env, values
from qmv.props.lutrig import A, B, Projection, make
from qmv.sym import const_of, is_sym

ASSUMPTIONS = [
    "the smoothed map less its mean is a Gaussian at the nodes within three nodes of its peak, with any centre; "
    "anything elsewhere",
    "exact real arithmetic; the projection is an affine map, different on each axis",
]
STUBS = [
    "the convolution is a shift by one node on each axis (its kernel is checked, so is that the second one undoes it)",
    "the map holds tags that stand for the exponentials, the logarithm of a tag is the quadratic; the replay has the "
    "exponentials themselves", "pseudo-inverse and inverse are exact (rational)", "the covariance and spline locations are C18's",
]
SIGMA = 0.8


def exact(x):
    if is_sym(x):
        c = const_of(x.e)
        if c is None:
            raise NotImplementedError("matrix with unknowns")
        return Fraction(str(c))
    return Fraction(float(x))


def solve(m, rhs):
    """Gauss-Jordan elimination over the rationals."""
    n = len(m)
    m = [list(r) + list(b) for r, b in zip(m, rhs)]
    for i in range(n):
        p = next(r for r in range(i, n) if m[r][i] != 0)
        m[i], m[p] = m[p], m[i]
        q = m[i][i]
        m[i] = [v / q for v in m[i]]
        for r in range(n):
            if r != i and m[r][i] != 0:
                f = m[r][i]
                m[r] = [a - f * b for a, b in zip(m[r], m[i])]
    return [r[n:] for r in m]


class Linear:
    """np.linalg over the rationals, scipy's convolution as a shift."""

    def __init__(self, ctx, logs):
        self.ctx, self.kernels, self.logs = ctx, [], logs

    def __enter__(self):
        import quakemigrate.signal.scan as S
        import scipy.signal as ss

        ctx = self.ctx

        def rows(x):
            return [[exact(v) for v in r] for r in np.asarray(x, dtype=object)]

        def arr(x):
            return values(ctx, [v for r in x for v in r]).reshape(len(x), len(x[0]))

        def inv(x, *a, **k):
            m = rows(x)
            return arr(solve(m, [[Fraction(int(i == j)) for j in range(len(m))] for i in range(len(m))]))

        def pinv(x, *a, **k):
            m = rows(x)
            if len(m) > len(m[0]):
                return pinv(np.array(x, dtype=object).T).T
            gram = [[sum(a * b for a, b in zip(r, s)) for s in m] for r in m]
            t = solve(gram, m)  # (X X^T)^-1 X, transposed
            return arr([list(c) for c in zip(*t)])

        def floats(f):
            return lambda x, *a, **k: f(np.array([[float(v) for v in r] for r in rows(x)]), *a, **k)

        def convolve(a, b, mode="full", *x, **k):
            self.kernels.append((np.array(b, dtype=float), mode))
            return a[tuple(np.meshgrid(*[(np.arange(n) - 1) % n for n in a.shape], indexing="ij"))]

        def log(x, *a, **k):
            v = np.asarray(x, dtype=float)
            return values(ctx, [self.logs[t] for t in v.flatten()]).reshape(v.shape)

        self.saved = [(np.linalg, n, getattr(np.linalg, n)) for n in ("inv", "pinv", "eig", "eigh", "solve", "lstsq")]
        self.saved.append((np, "log", np.log))
        self.saved += [(m, "fftconvolve", m.fftconvolve) for m in (S, ss) if hasattr(m, "fftconvolve")]
        if ctx.symbolic:
            np.log = log
            np.linalg.inv, np.linalg.pinv = inv, pinv
            np.linalg.solve = lambda a, b: np.matmul(inv(a), b)
            np.linalg.lstsq = lambda a, b, *x, **k: (np.matmul(pinv(a), b), None, None, None)
            np.linalg.eig, np.linalg.eigh = floats(np.linalg.eig), floats(np.linalg.eigh)
        for m, n, _ in self.saved[7:]:
            setattr(m, n, convolve)
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


def kernel_ok(k, mode, shape):
    if mode != "same":
        return False
    r2 = sum((g - (n - 1) / 2) ** 2 for g, n in zip(np.meshgrid(*[np.arange(n) for n in k.shape], indexing="ij"), k.shape))
    w = np.exp(-r2 / (2 * SIGMA**2))
    return k.shape == tuple(shape) and bool(np.allclose(k / k.max(), w / w.max(), atol=1e-12))


def gaussian(ctx, count, peak, form, spacing=(1.0, 0.5, 2.0), loose=0.45):
    """form: the matrix of the quadratic (xx, yy, zz, xy, xz, yz), known; its centre is anywhere near the peak."""
    from quakemigrate.io.event import Event
    from quakemigrate.signal.scan import QuakeScan

    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    ur = [a + (c - 1.25) * s for a, c, s in zip(ll, count, spacing)]
    off = [ctx.real(f"offset{k}", -loose, loose) for k in range(3)]
    fr = [Fraction(str(v)) for v in form]
    quad = [[fr[0], fr[3], fr[4]], [fr[3], fr[1], fr[5]], [fr[4], fr[5], fr[2]]]

    def q(node):  # relative to the peak node: linear in the centre
        d = [a - b for a, b in zip(node, peak)]
        out = sum(quad[i][j] * d[i] * d[j] for i in range(3) for j in range(3))
        for i in range(3):
            k = -2 * sum(quad[i][j] * d[j] for j in range(3))
            out = out + off[i] * (k if ctx.symbolic else float(k))
        return out if ctx.symbolic else float(out)

    inside = [n for n in np.ndindex(*count) if all(abs(a - b) <= 3 for a, b in zip(n, peak))]
    outside = [n for n in np.ndindex(*count) if n not in set(inside)]
    m, total, logs = {}, 0, {1.0: 0.0}
    for n in inside:
        if n == tuple(peak):
            m[n] = 1.0
        elif ctx.symbolic:
            m[n] = (len(m) % 512 + 1) / 1024  # stands for exp(-q)
            logs[m[n]] = -q(n)
        else:
            v = float(np.exp(-q(n)))
            ctx.assume(v < 1)
            m[n] = v
        total = total + m[n]
    for i, n in enumerate(outside[1:]):
        m[n] = [0.75, -0.5, 0.25, 0.0][i % 4]
        total = total + m[n]
    m[outside[0]] = -total  # the mean is nil
    m4 = np.array([m[n] for n in np.ndindex(*count)], dtype=float).reshape(tuple(count) + (1,))
    with Projection(), Stubs(), Linear(ctx, logs) as lin:
        scan = QuakeScan.__new__(QuakeScan)
        scan.lut = make(ctx, ll, ur, list(spacing))
        scan._splineloc = lambda *a, **k: np.array([0.5, 0.5, 0.5])
        scan._covfit3d = lambda *a, **k: (np.array([0.25] * 3), np.array([0.125] * 3))
        ev = Event(1.0)
        ev.map4d = m4
        scan._calculate_location(ev)
    ctx.check(len(lin.kernels) == 2 and all(kernel_ok(k, o, count) for k, o in lin.kernels),
              "smoothed twice with a Gaussian of 0.8 nodes")
    ga = ev.locations["gaussian"]
    for k in range(3):
        got = ga["XYZ"[k]] * A[k] + B[k] - ll[k]
        ctx.check(near(ctx, got, (peak[k] + off[k]) * spacing[k], 1e-6), "centre of the Gaussian")
    err = [ga[f"Err{k}"] / s for k, s in zip("XYZ", spacing)]
    ctx.check(ctx.all([e > 0 for e in err]), "uncertainties are positive")
    # along its principal axes the widths are known, whatever their order
    w = sorted(v ** -0.5 for v in np.linalg.eigvalsh(np.array(quad, dtype=float)))
    if not any(form[3:]):
        w = [float(v) ** -0.5 for v in form[:3]]
    else:
        for a, b in ((0, 1), (1, 2), (0, 1)):
            if bool(err[a] > err[b]):
                err[a], err[b] = err[b], err[a]
    for k in (1, 2):
        ctx.check(near(ctx, err[k] * w[0], err[0] * w[k], 1e-6), "uncertainties in proportion to the widths")


def cases(tier):
    out = [
        dict(count=[4, 3, 7], peak=[1, 1, 2], form=[0.5, 0.75, 1.0, 0, 0, 0]),
        dict(count=[3, 7, 3], peak=[2, 2, 1], form=[1.0, 0.5, 2.0, 0.25, 0.125, -0.25]),
        dict(count=[8, 3, 3], peak=[4, 1, 1], form=[0.25, 1.0, 0.5, -0.125, 0.0625, 0.25], spacing=[0.5, 2.0, 1.0]),
        dict(count=[5, 3, 3], peak=[0, 1, 2], form=[2.0, 0.5, 0.5, 0, 0, 0], spacing=[2.0, 2.0, 2.0]),
    ]
    if tier == "thorough":
        out += [dict(count=c, peak=p, form=f) for c, p in (([5, 5, 9], [2, 2, 5]), ([9, 4, 4], [1, 2, 1]), ([5, 9, 5], [2, 3, 3]))
                for f in ([0.5, 0.75, 1.0, 0, 0, 0], [1.0, 0.5, 2.0, 0.25, 0.125, -0.25])]
    return out


HARNESSES = [
    dict(name="gaussian", fn=gaussian, cases=cases, env=time_env,
         expect=["centre of the Gaussian", "smoothed twice with a Gaussian of 0.8 nodes",
                 "uncertainties in proportion to the widths"],
         bounds="grids of up to 8 nodes per axis (9 thorough), Gaussians of the widths and orientations listed in the module "
                "with their centre anywhere within 0.45 nodes of the peak on each axis, any corner of the grid"),
]
