# -*- coding: utf-8 -*-
"""
numpy / pandas / builtins support for symbolic values.

`SymArray` is an object-dtype ndarray whose elements may be `Sym`.  `sym_env` swaps, for
the duration of a symbolic run, the names `np`, `int`, `float`, ... in the loaded
quakemigrate modules for versions that accept symbolic values; the code itself is the
code in /repo, untouched.
"""

import builtins
import contextlib
import math
import sys
import types

import numpy as np
import pandas as pd

from qmv import sym
from qmv.sym import Sym, SymBool, Inconclusive, is_sym, lb, special, lift, z3

_HANDLED_UFUNC = {}
_HANDLED_FUNC = {}


def symarray(x):
    a = np.empty(len(x), dtype=object) if isinstance(x, list) and not any(
        isinstance(i, (list, tuple, np.ndarray)) for i in x
    ) else None
    if a is not None:
        for i, v in enumerate(x):
            a[i] = v
    else:
        a = np.array(x, dtype=object)
    return a.view(SymArray)


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SymArray):
        return x.view(SymArray)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(i) for i in x)
    if isinstance(x, list) and any(isinstance(i, np.ndarray) for i in x):
        return [wrap(i) for i in x]
    return x


def plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(plain(i) for i in x)
    if isinstance(x, list):
        return [plain(i) for i in x]
    return x


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(i) for i in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return False


def as_float_if_concrete(a):
    """An object array without symbols becomes an ordinary float array."""
    if isinstance(a, np.ndarray) and a.dtype == object and not has_sym(a):
        try:
            return np.asarray(plain(a), dtype=float)
        except (TypeError, ValueError):
            return a
    return a


def emap(f, *arrs):
    arrs = np.broadcast_arrays(*[np.asarray(plain(a), dtype=object) for a in arrs])
    out = np.empty(arrs[0].shape, dtype=object)
    for idx in np.ndindex(*arrs[0].shape):
        out[idx] = f(*[a[idx] for a in arrs])
    if out.ndim == 0:
        return out.item()
    return out.view(SymArray)


def s_isnan(x):
    if is_sym(x):
        return False
    return x != x if isinstance(x, (float, np.floating)) else False


def _pybool(a):
    return np.asarray(a, dtype=bool)


def _boolmap(f):
    def g(*xs):
        arrs = np.broadcast_arrays(
            *[np.asarray(plain(a), dtype=object) for a in xs]
        )
        out = np.empty(arrs[0].shape, dtype=bool)
        for idx in np.ndindex(*arrs[0].shape):
            out[idx] = bool(f(*[a[idx] for a in arrs]))
        return out if out.ndim else bool(out)

    return g


def _unary(name):
    def f(x):
        if is_sym(x):
            return getattr(x, name)()
        return getattr(np, name)(float(x) if not isinstance(x, (int,)) else x)

    return f


def s_sign(x):
    if is_sym(x):
        e = x.e if isinstance(x, Sym) else lift(x)
        return Sym(z3.If(e > 0, z3.IntVal(1), z3.If(e < 0, z3.IntVal(-1), z3.IntVal(0))))
    return np.sign(x)


def s_min2(a, b):
    if s_isnan(a) or s_isnan(b):
        return float("nan")
    if not is_sym(a) and not is_sym(b):
        return a if a < b else b
    if special(a) is not None or special(b) is not None:
        return a if a < b else b
    return sym.CTX.ite(a < b, a, b)


def s_max2(a, b):
    if s_isnan(a) or s_isnan(b):
        return float("nan")
    if not is_sym(a) and not is_sym(b):
        return a if a > b else b
    if special(a) is not None or special(b) is not None:
        return a if a > b else b
    return sym.CTX.ite(a > b, a, b)


for _n in ("exp", "log", "log10", "log1p", "sqrt", "floor", "ceil", "rint", "trunc", "sin", "cos", "cbrt"):
    _HANDLED_UFUNC[_n] = (lambda f: lambda *a: emap(f, *a))(_unary(_n))
_HANDLED_UFUNC["isnan"] = _boolmap(s_isnan)
_HANDLED_UFUNC["isfinite"] = _boolmap(
    lambda x: True if is_sym(x) else np.isfinite(float(x))
)
_HANDLED_UFUNC["isinf"] = _boolmap(lambda x: False if is_sym(x) else np.isinf(float(x)))
_HANDLED_UFUNC["sign"] = lambda a: emap(s_sign, a)
_HANDLED_UFUNC["minimum"] = lambda a, b: emap(s_min2, a, b)
_HANDLED_UFUNC["maximum"] = lambda a, b: emap(s_max2, a, b)
_HANDLED_UFUNC["fabs"] = lambda a: emap(abs, a)
_HANDLED_UFUNC["square"] = lambda a: emap(lambda x: x * x, a)
_HANDLED_UFUNC["logical_not"] = _boolmap(lambda x: not bool(x))
_HANDLED_UFUNC["logical_and"] = _boolmap(lambda x, y: bool(x) and bool(y))
_HANDLED_UFUNC["logical_or"] = _boolmap(lambda x, y: bool(x) or bool(y))


class SymArray(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop("out", None)
        ins = [plain(i) for i in inputs]
        if method == "__call__" and ufunc.__name__ in _HANDLED_UFUNC:
            kw.pop("where", None)
            kw.pop("casting", None)
            kw.pop("dtype", None)
            r = _HANDLED_UFUNC[ufunc.__name__](*ins)
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        if method == "reduce" and ufunc.__name__ in ("minimum", "maximum"):
            r = _reduce_minmax(ins[0], kw.get("axis", 0), ufunc.__name__ == "maximum",
                               kw.get("keepdims", False))
            return r
        if out is not None:
            o = tuple(plain(x) for x in out)
            if any(x.dtype != object and has_sym(list(ins)) for x in o):
                raise Inconclusive("symbolic value written to a numeric array")
            kw["out"] = o
        if kw.get("dtype") is not None and kw["dtype"] != object:
            kw.pop("dtype")
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0]
        return wrap(r)

    def __array_function__(self, func, types_, args, kwargs):
        h = _HANDLED_FUNC.get(func.__name__)
        if h is not None:
            return wrap(h(*args, **kwargs))
        a = plain(args)
        k = {n: plain(v) for n, v in kwargs.items()}
        if k.get("dtype") is not None and k["dtype"] != object:
            k.pop("dtype")
        # numpy functions dispatch on the original implementation
        r = func(*_deep_plain(a), **{n: _deep_plain(v) for n, v in k.items()})
        return wrap(r)

    def astype(self, dtype, *a, **k):
        return to_dtype(self, dtype)

    def __setitem__(self, idx, val):
        if isinstance(idx, np.ndarray) and idx.dtype == object and idx.shape == self.shape \
                and idx.size and any(is_sym(v) for v in idx.flat) \
                and all(isinstance(v, (SymBool, bool, np.bool_)) for v in idx.flat) \
                and np.ndim(val) == 0:
            for i in np.ndindex(*self.shape):
                self._set_if(i, plain(idx)[i], val)
            return
        idx = _idx(idx) if not isinstance(idx, tuple) else idx
        super().__setitem__(plain(idx) if not isinstance(idx, tuple) else tuple(_idx(i) for i in idx), plain(val))

    def _set_if(self, i, cond, val):
        old = np.ndarray.__getitem__(self, i)
        if is_sym(cond) and special(val) is None and special(old) is None and (
            lift(val) is not None and lift(old) is not None
        ):
            new = sym.CTX.ite(cond, val, old)
        elif bool(cond):
            new = val
        else:
            return
        np.ndarray.__setitem__(self, i, new)

    def __getitem__(self, idx):
        if isinstance(idx, tuple):
            idx = tuple(_idx(i) for i in idx)
        else:
            idx = _idx(idx)
        return super().__getitem__(idx)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_minmax(plain(self), axis, True, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_minmax(plain(self), axis, False, keepdims)

    def mean(self, axis=None, *a, **k):
        return s_mean(self, axis)

    def std(self, axis=None, ddof=0, **k):
        return s_std(self, axis, ddof=ddof)

    def argmax(self, axis=None, out=None, **k):
        return s_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return s_argmin(self, axis)

    def round(self, decimals=0, out=None):
        return emap(lambda x: s_round(x, decimals), self)

    def any(self, axis=None, *a, **k):
        return np.any(_forkbool(self), axis=axis)

    def all(self, axis=None, *a, **k):
        return np.all(_forkbool(self), axis=axis)

    def item(self, *a):
        return plain(self).item(*a)

    def sum(self, axis=None, *a, **k):
        return wrap(plain(self).sum(axis=axis))


def _forkbool(a):
    a = np.asarray(plain(a), dtype=object)
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        out[i] = bool(a[i])
    return out


def _idx(i):
    """Index arrays of symbols: fork to concrete bool / int index arrays."""
    if isinstance(i, Sym):
        return i.__index__()
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, np.ndarray) and i.dtype == object:
        flat = list(i.flat)
        if flat and all(isinstance(v, (SymBool, bool, np.bool_)) for v in flat):
            return _forkbool(i)
        return np.array([int(v) for v in flat], dtype=int).reshape(i.shape)
    if isinstance(i, list) and has_sym(i):
        return _idx(np.array(i, dtype=object))
    return i


def _deep_plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(_deep_plain(i) for i in x)
    if isinstance(x, list):
        return [_deep_plain(i) for i in x]
    return x


def s_round(x, decimals=0):
    if isinstance(x, sym.Fp):
        return x.rint() if not decimals else x.__round__(decimals)
    if is_sym(x):
        return Sym(lift(x)).__round__(decimals) if decimals else Sym(lift(x)).rint()
    return np.round(float(x), decimals)


def _fold(vals, mx):
    """max / min without forking; nan propagates like numpy."""
    f = s_max2 if mx else s_min2
    syms = [v for v in vals if type(v) is Sym and special(v) is None and not s_isnan(v)]
    if 0 < len(syms) <= 6 and len(vals) > len(syms) == sum(map(is_sym, vals)) and not sym.CTX.fp:
        # values that cannot (or must) exceed the rest are left out of (or become) the result
        conc = [v for v in vals if not is_sym(v)]
        if all(isinstance(v, (int, float, np.integer, np.floating)) and not s_isnan(v) for v in conc):
            m = max(conc) if mx else min(conc)
            for v in syms:
                over = lb(v > m) if mx else lb(v < m)
                if not sym.CTX._check(over):
                    continue
                m = v if not sym.CTX._check(z3.Not(over)) else f(m, v)
            return m
    m = vals[0]
    for v in vals[1:]:
        m = f(m, v)
    return m


def _reduce_minmax(a, axis, mx, keepdims=False):
    a = np.asarray(plain(a), dtype=object)
    if axis is None:
        if a.size == 0:
            raise ValueError("zero-size array to reduction operation")
        r = _fold(list(a.flat), mx)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.flat[0] = r
            return o.view(SymArray)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = _reduce_minmax(a, ax, mx, keepdims)
            a = np.asarray(plain(a), dtype=object)
        return a.view(SymArray) if a.ndim else a.item()
    np.empty(a.shape).sum(axis=axis)  # refuses an axis that is not there
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, 0)
    if b.shape[0] == 0:
        raise ValueError("zero-size array to reduction operation")
    out = np.empty(b.shape[1:], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = _fold([b[(j,) + i] for j in range(b.shape[0])], mx)
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out.item()
    return out.view(SymArray)


def s_mean(a, axis=None, dtype=None, **k):
    a = np.asarray(plain(a), dtype=object)
    if axis is None:
        if a.size == 0:
            return float("nan")
        t = 0
        for v in a.flat:
            t = t + v
        return t / a.size
    n = a.shape[axis]
    return wrap(np.add.reduce(a, axis=axis) / n)


def s_var(a, axis=None, ddof=0, **k):
    a = np.asarray(plain(a), dtype=object)
    if axis is not None:
        raise Inconclusive("symbolic var with axis")
    m = s_mean(a)
    t = 0
    for v in a.flat:
        t = t + (v - m) * (v - m)
    return t / (a.size - ddof)


def s_std(a, axis=None, ddof=0, **k):
    v = s_var(a, axis, ddof=ddof)
    return v.sqrt() if is_sym(v) else math.sqrt(v)


def _s_argext(a, axis, mx):
    a = np.asarray(plain(a), dtype=object)
    if axis is not None:
        np.empty(a.shape).sum(axis=axis)  # refuses an axis that is not there
    if axis is not None and a.ndim > 1:
        b = np.moveaxis(a, axis, -1)
        out = np.empty(b.shape[:-1], dtype=int)
        for i in np.ndindex(*out.shape):
            out[i] = _s_argext(b[i], None, mx)
        return out
    vals = list(a.flat)
    if not vals:
        raise ValueError("attempt to get argmax of an empty sequence")
    best, bi = vals[0], 0
    if s_isnan(best):
        return 0
    for i, v in enumerate(vals[1:], 1):
        if s_isnan(v):
            return i
        if bool(v > best) if mx else bool(v < best):
            best, bi = v, i
    return bi


def s_argmax(a, axis=None, **k):
    return _s_argext(a, axis, True)


def s_argmin(a, axis=None, **k):
    return _s_argext(a, axis, False)


def _nan_filter(a):
    return [v for v in np.asarray(plain(a), dtype=object).flat if not s_isnan(v)]


def s_sorted(vals):
    out = []
    for v in vals:
        i = 0
        while i < len(out) and bool(out[i] <= v):
            i += 1
        out.insert(i, v)
    return out


def s_median(a, axis=None, **k):
    a = np.asarray(plain(a), dtype=object)
    if axis is not None:
        np.empty(a.shape).sum(axis=axis)  # refuses an axis that is not there
    if axis is not None and a.ndim > 1:
        b = np.moveaxis(a, axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = s_median(b[i])
        return out.view(SymArray)
    vals = list(a.flat)
    if not vals:
        return float("nan")
    if any(s_isnan(v) for v in vals):
        return float("nan")
    s = s_sorted(vals)
    n = len(s)
    if n % 2:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / 2


def s_percentile(a, q, axis=None, **k):
    vals = list(np.asarray(plain(a), dtype=object).flat)
    if axis is not None:
        raise Inconclusive("symbolic percentile with axis")
    if not vals:
        raise IndexError("percentile of empty array")
    s = s_sorted(vals)
    if is_sym(q):
        raise Inconclusive("symbolic percentile rank")
    from fractions import Fraction

    pos = Fraction(repr(float(q))) / 100 * (len(s) - 1)
    i = int(pos)
    fr = pos - i
    if fr == 0 or i + 1 >= len(s):
        return s[i]
    return s[i] * (1 - fr) + s[i + 1] * fr


def s_quantile(a, q, **k):
    return s_percentile(a, q * 100, **k)


def s_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = a
    if a_min is not None:
        r = emap(s_max2, r, a_min)
    if a_max is not None:
        r = emap(s_min2, r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def s_interp(x, xp, fp, left=None, right=None, period=None):
    xs = np.atleast_1d(np.asarray(plain(x), dtype=object))
    xp = list(np.asarray(plain(xp), dtype=object))
    fp = list(np.asarray(plain(fp), dtype=object))
    out = np.empty(xs.shape, dtype=object)
    for n, v in enumerate(xs):
        if bool(v < xp[0]):
            out[n] = fp[0] if left is None else left
            continue
        if bool(v > xp[-1]):
            out[n] = fp[-1] if right is None else right
            continue
        j = 0
        while j < len(xp) - 1 and not bool(v <= xp[j + 1]):
            j += 1
        if j >= len(xp) - 1:
            out[n] = fp[-1]
        else:
            out[n] = fp[j] + (fp[j + 1] - fp[j]) * (v - xp[j]) / (xp[j + 1] - xp[j])
    if np.ndim(x) == 0:
        return out[0]
    return out.view(SymArray)


def s_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    div = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    step = (stop - start) / div if div > 0 else float("nan")
    for i in range(num):
        out[i] = start + (stop - start) * i / div if div > 0 else start
    if endpoint and num > 1:
        out[-1] = stop
    out = out.view(SymArray)
    if dtype is not None:
        out = to_dtype(out, dtype)
    return (out, step) if retstep else out


def s_arange(*a, dtype=None, **k):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    n = Sym(lift(stop - start)) / step
    n = int(sym_ceil(n))
    return symarray([start + i * step for i in range(max(0, n))])


def sym_ceil(x):
    return Sym(lift(x)).ceil()


def s_histogram(*a, **k):
    raise Inconclusive("np.histogram of symbols")


def s_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(np.asarray(plain(a), object), np.asarray(plain(b), object))
    return all(bool(abs(x - y) <= atol + rtol * abs(y)) for x, y in zip(a.flat, b.flat))


def s_where(cond, *xy):
    if not xy:
        return np.where(_forkbool(cond) if has_sym(cond) else plain(cond))
    c, x, y = np.broadcast_arrays(
        *[np.asarray(plain(v), dtype=object) for v in (cond,) + xy]
    )
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        if is_sym(c[i]):
            if special(x[i]) is not None or special(y[i]) is not None or not (
                lift(x[i]) is not None and lift(y[i]) is not None
            ):
                out[i] = x[i] if bool(c[i]) else y[i]
            else:
                out[i] = sym.CTX.ite(c[i], x[i], y[i])
        else:
            out[i] = x[i] if c[i] else y[i]
    return out.view(SymArray)


def s_nonzero(a):
    return np.nonzero(_forkbool(a))


def s_average(a, axis=None, weights=None, returned=False, **k):
    a = np.asarray(plain(a), dtype=object)
    if weights is None:
        return s_mean(a, axis)
    w = np.asarray(plain(weights), dtype=object)
    scl = w.sum(axis=axis)
    return wrap((a * w).sum(axis=axis) / scl)


def s_unique(a, *args, **k):
    raise Inconclusive("np.unique of symbols")


def s_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _boolmap(lambda x, y: abs(x - y) <= atol + rtol * abs(y))(a, b)


def s_trapz(y, x=None, dx=1.0, axis=-1):
    y = list(np.asarray(plain(y), dtype=object))
    t = 0
    for i in range(len(y) - 1):
        d = dx if x is None else x[i + 1] - x[i]
        t = t + (y[i] + y[i + 1]) / 2 * d
    return t


def s_nanmax(a, axis=None, **k):
    return _fold(_nan_filter(a), True)


def s_nanmin(a, axis=None, **k):
    return _fold(_nan_filter(a), False)


def s_apply_over_axes(func, a, axes):
    val = np.asarray(plain(a), dtype=object)
    nd = val.ndim
    for axis in np.atleast_1d(axes):
        axis = int(axis) % nd
        res = np.asarray(plain(func(val.view(SymArray), axis)), dtype=object)
        val = res if res.ndim == nd else np.expand_dims(res, axis)
    return val.view(SymArray)


_HANDLED_FUNC["apply_over_axes"] = s_apply_over_axes
_HANDLED_FUNC.update(
    mean=s_mean,
    var=s_var,
    std=s_std,
    median=s_median,
    percentile=s_percentile,
    quantile=s_quantile,
    clip=s_clip,
    interp=s_interp,
    allclose=s_allclose,
    isclose=s_isclose,
    where=s_where,
    nonzero=s_nonzero,
    average=s_average,
    argmax=s_argmax,
    argmin=s_argmin,
    unique=s_unique,
    histogram=s_histogram,
    linspace=s_linspace,
    nanmax=s_nanmax,
    nanmin=s_nanmin,
    nanmean=lambda a, axis=None, **k: s_mean(np.array(_nan_filter(a), dtype=object)),
    nanmedian=lambda a, axis=None, **k: s_median(np.array(_nan_filter(a) + [0], dtype=object)[:-1]),
    nanargmax=lambda a, axis=None, **k: s_argmax(a),
    nansum=lambda a, axis=None, **k: sum(_nan_filter(a)),
    nanstd=lambda a, axis=None, **k: s_std(np.array(_nan_filter(a), dtype=object)),
    amax=lambda a, axis=None, **k: _reduce_minmax(a, axis, True, k.get("keepdims", False)),
    amin=lambda a, axis=None, **k: _reduce_minmax(a, axis, False, k.get("keepdims", False)),
    max=lambda a, axis=None, **k: _reduce_minmax(a, axis, True, k.get("keepdims", False)),
    min=lambda a, axis=None, **k: _reduce_minmax(a, axis, False, k.get("keepdims", False)),
    round=lambda a, decimals=0, out=None: emap(lambda x: s_round(x, decimals), a),
    around=lambda a, decimals=0, out=None: emap(lambda x: s_round(x, decimals), a),
    trapz=s_trapz,
    trapezoid=s_trapz,
    any=lambda a, axis=None, **k: np.any(_forkbool(a), axis=axis),
    all=lambda a, axis=None, **k: np.all(_forkbool(a), axis=axis),
    sort=lambda a, axis=-1, **k: symarray(s_sorted(list(np.asarray(plain(a), object).flat))),
    count_nonzero=lambda a, **k: np.count_nonzero(_forkbool(a)),
    flatnonzero=lambda a: np.flatnonzero(_forkbool(a)),
    argwhere=lambda a: np.argwhere(_forkbool(a)),
    real_if_close=lambda a, **k: a,
)


def to_dtype(a, dtype):
    """astype on a symbolic array."""
    dt = np.dtype(dtype) if not (isinstance(dtype, type) and issubclass(dtype, (_FakeInt, _FakeFloat))) else (
        np.dtype(int) if issubclass(dtype, _FakeInt) else np.dtype(float)
    )
    if dt.kind in "iu":
        bits = dt.itemsize * 8

        def conv(x):
            if is_sym(x):
                t = Sym(lift(x)).trunc()
                lo, hi = -(2 ** (bits - 1)), 2 ** (bits - 1) - 1
                # Wrap-around on overflow, as the C cast is not defined: record it
                inside = (t >= lo) & (t <= hi)
                if isinstance(inside, SymBool) and not sym.CTX._check(z3.Not(inside.e)):
                    return t
                if inside is True:
                    return t
                return Sym((t.e - lo) % (2**bits) + lo)
            return np.asarray(float(x) if not isinstance(x, int) else x).astype(dt).item()

        r = emap(conv, a)
        if not has_sym(r):
            return np.asarray(plain(r)).astype(dt)
        return r
    if dt.kind == "f":
        return emap(lambda x: x if is_sym(x) else float(x), a)
    if dt.kind == "b":
        return _forkbool(a)
    if dt.kind == "O":
        return a.copy()
    raise Inconclusive(f"astype({dtype}) of symbols")


# --------------------------------------------------------------------------- facades
class _CastMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._base)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._base)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)


class _FakeInt(int, metaclass=_CastMeta):
    _base = int

    @staticmethod
    def _conv(x=0, *a, **k):
        if isinstance(x, Sym):
            return x.trunc()
        if isinstance(x, SymBool):
            return Sym(lift(x))
        if isinstance(x, str) and sym.CTX is not None and x.strip() in sym.CTX._fmt:
            return sym.CTX.number(x)
        return int(x, *a, **k)


class _FakeFloat(float, metaclass=_CastMeta):
    _base = float

    @staticmethod
    def _conv(x=0.0):
        if isinstance(x, sym.Fp):
            return sym.Fp(x.e)
        if isinstance(x, Sym):
            return Sym(sym._real(x.e))
        if isinstance(x, SymBool):
            return Sym(lift(x))
        ts = getattr(x, "timestamp", None)
        if isinstance(ts, Sym):
            return ts
        if isinstance(x, str) and sym.CTX is not None and x.strip() in sym.CTX._fmt:
            return sym.CTX.number(x)
        if isinstance(x, str) and sym.CTX is not None and any(p in sym.CTX._pad for p in x.strip().split(".")):
            return sym.CTX.clock(x)
        return float(x)


def s_builtin_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if has_sym(xs) and "key" not in k:
        return _fold(xs, True)
    return max(xs, **k) if len(a) == 1 else max(*a, **k)


def s_builtin_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if has_sym(xs) and "key" not in k:
        return _fold(xs, False)
    return min(xs, **k) if len(a) == 1 else min(*a, **k)


def _fix_dtype(d):
    if isinstance(d, type):
        if issubclass(d, _FakeInt) and d is _FakeInt:
            return int
        if d is _FakeFloat:
            return float
    return d


def _symdtype(dt):
    dt = _fix_dtype(dt)
    if dt is None:
        return True
    try:
        return np.dtype(dt).kind == "f"
    except TypeError:
        return False


class NPFacade(types.ModuleType):
    """Stands in for `numpy` inside the modules under test."""

    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        attr = getattr(np, name)
        if isinstance(attr, types.ModuleType):
            r = attr
        elif isinstance(attr, type):
            r = _CAST.get(name, attr)
        elif callable(attr):
            r = _SPECIAL.get(name) or _mkwrap(attr, name)
        else:
            r = attr
        c[name] = r
        return r


def _prep(x):
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SymArray):
        return x.view(SymArray)
    if isinstance(x, pd.Series) and x.dtype == object:
        return x.values.view(SymArray)
    if isinstance(x, (list, tuple)) and has_sym(x):
        try:
            return np.array(_deep_plain(x), dtype=object).view(SymArray)
        except ValueError:
            return x
    return x


def _mkwrap(fn, name):
    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = _fix_dtype(k["dtype"])
        if isinstance(fn, np.ufunc) and any(isinstance(x, (pd.Series, pd.DataFrame)) for x in a):
            return _series_ufunc(fn, a, k)
        anysym = any(
            has_sym(v) or (isinstance(v, pd.Series) and v.dtype == object)
            or (isinstance(v, np.ndarray) and v.dtype == object)
            for v in list(a) + list(k.values())
        )
        if not anysym:
            return fn(*a, **k)
        if isinstance(fn, np.ufunc):
            a2 = [_prep(x) for x in a]
            if all(not isinstance(x, np.ndarray) for x in a2):
                h = _HANDLED_UFUNC.get(name)
                if h is not None:
                    return h(*a2)
            else:
                a2 = [x if isinstance(x, np.ndarray) else x for x in a2]
            return wrap(fn(*a2, **k))
        h = _HANDLED_FUNC.get(name)
        if h is not None:
            return wrap(h(*a, **k))
        a2 = [_prep(x) if not isinstance(x, tuple) else x for x in a]
        return wrap(fn(*a2, **k))

    g.__name__ = name
    return g


def _series_ufunc(fn, a, k):
    idx = next(x for x in a if isinstance(x, (pd.Series, pd.DataFrame)))
    if isinstance(idx, pd.DataFrame) or (idx.dtype != object):
        return fn(*a, **k)
    a2 = [x.values if isinstance(x, pd.Series) else x for x in a]
    a2 = [_prep(x) for x in a2]
    r = fn(*a2, **k)
    return pd.Series(plain(r), index=idx.index, name=idx.name)


def _s_array(x, dtype=None, *a, **k):
    dtype = _fix_dtype(dtype)
    if has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object):
        r = wrap(np.array(_deep_plain(x), dtype=object))
        if k.get("ndmin"):
            r = wrap(np.array(plain(r), ndmin=k["ndmin"], dtype=object))
        if dtype is not None and r.ndim:
            return to_dtype(r, dtype)
        return r
    return np.array(x, dtype, *a, **k)


def _s_asarray(x, dtype=None, *a, **k):
    dtype = _fix_dtype(dtype)
    if isinstance(x, np.ndarray) and x.dtype == object:
        r = wrap(x)
        return to_dtype(r, dtype) if dtype is not None and np.dtype(dtype) != object else r
    if has_sym(x):
        return _s_array(x, dtype)
    return np.asarray(x, dtype, *a, **k)


def _plain_floats(v):
    """The harness promised that the arrays it makes hold numbers."""
    from qmv import sym

    return getattr(sym.CTX, "plain_floats", False) and not is_sym(v)


def _alloc(fill):
    def f(shape, *a, dtype=None, **k):
        a = list(a)
        fv = fill
        if fill is None:  # np.full
            fv = a.pop(0) if a else k.pop("fill_value")
        if a:
            dtype = a.pop(0)
        if isinstance(shape, Sym):
            shape = shape.__index__()
        elif isinstance(shape, (tuple, list)):
            shape = tuple(int(s) for s in shape)
        if not _symdtype(dtype) or _plain_floats(fv):
            return np.full(shape, fv, dtype=_fix_dtype(dtype))
        o = np.empty(shape, dtype=object)
        o.fill(float(fv) if not is_sym(fv) and fill is not None else fv)
        return o.view(SymArray)

    return f


def _alloc_like(fill):
    def f(a, *args, dtype=None, **k):
        fv = fill
        args = list(args)
        if fill is None:
            fv = args.pop(0) if args else k.pop("fill_value")
        a_ = np.asarray(plain(a) if not isinstance(a, pd.Series) else a.values)
        if dtype is None and a_.dtype.kind not in "fO":
            return np.full_like(a_, fv)
        if dtype is not None and not _symdtype(dtype):
            return np.full(a_.shape, fv, dtype=_fix_dtype(dtype))
        if _plain_floats(fv) and a_.dtype.kind == "f":
            return np.full(a_.shape, fv, dtype=_fix_dtype(dtype) if dtype is not None else a_.dtype)
        o = np.empty(a_.shape, dtype=object)
        o.fill(fv)
        return o.view(SymArray)

    return f


def _s_stack(fn):
    def f(arrs, *a, **k):
        arrs = list(arrs) if not isinstance(arrs, np.ndarray) else arrs
        if has_sym(arrs) or any(
            isinstance(x, np.ndarray) and x.dtype == object for x in arrs
        ):
            return wrap(fn([np.asarray(_deep_plain(x), dtype=object) for x in arrs], *a, **k))
        return fn(arrs, *a, **k)

    return f


def _s_empty_like_arange(*a, **k):
    if has_sym(list(a)):
        return s_arange(*a, **k)
    if "dtype" in k:
        k["dtype"] = _fix_dtype(k["dtype"])
    return np.arange(*a, **k)


def _s_linspace(*a, **k):
    if has_sym(list(a)):
        return s_linspace(*a, **k)
    return np.linspace(*a, **k)


def _s_split(a, *r, **k):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return [wrap(x) for x in np.split(np.asarray(plain(a)), *r, **k)]
    return np.split(a, *r, **k)


def _s_isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


_SPECIAL = {
    "array": _s_array,
    "asarray": _s_asarray,
    "ascontiguousarray": _s_asarray,
    "asanyarray": _s_asarray,
    "zeros": _alloc(0.0),
    "ones": _alloc(1.0),
    "empty": _alloc(0.0),
    "full": _alloc(None),
    "zeros_like": _alloc_like(0.0),
    "ones_like": _alloc_like(1.0),
    "empty_like": _alloc_like(0.0),
    "full_like": _alloc_like(None),
    "stack": _s_stack(np.stack),
    "vstack": _s_stack(np.vstack),
    "hstack": _s_stack(np.hstack),
    "concatenate": _s_stack(np.concatenate),
    "column_stack": _s_stack(np.column_stack),
    "arange": _s_empty_like_arange,
    "linspace": _s_linspace,
    "split": _s_split,
    "isscalar": _s_isscalar,
    "require": lambda a, dtype=None, requirements=None, **k: (
        _s_asarray(a, dtype) if isinstance(a, np.ndarray) and a.dtype == object
        else np.require(a, _fix_dtype(dtype), requirements, **k)),
}


class _NpCastMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._np)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return x.trunc() if np.dtype(cls._np).kind in "iu" else x
        return cls._np(x, *a)


_CAST = {
    "finfo": lambda d: np.finfo(_fix_dtype(d)),
    "iinfo": lambda d: np.iinfo(_fix_dtype(d)),
    "dtype": lambda d, *a, **k: np.dtype(_fix_dtype(d), *a, **k),
}
FACADE = NPFacade()


# ------------------------------------------------------------------ pandas extensions
def _patch_pandas():
    import pandas.core.nanops as nanops

    saved = {}

    def mk(name, handler):
        orig = getattr(nanops, name)
        saved[name] = orig

        def f(values, *a, **k):
            if isinstance(values, np.ndarray) and values.dtype == object:
                return handler(values, *a, **k)
            return orig(values, *a, **k)

        setattr(nanops, name, f)

    mk("nanargmax", lambda v, **k: s_argmax(v))
    mk("nanargmin", lambda v, **k: s_argmin(v))
    mk("nanmax", lambda v, **k: s_nanmax(v))
    mk("nanmin", lambda v, **k: s_nanmin(v))
    mk("nanmedian", lambda v, **k: s_median(np.array(_nan_filter(v) + [0], dtype=object)[:-1]))
    mk("nanmean", lambda v, **k: s_mean(np.array(_nan_filter(v) + [0], dtype=object)[:-1]))
    mk("nanstd", lambda v, *a, **k: s_std(np.array(_nan_filter(v) + [0], dtype=object)[:-1],
                                          ddof=k.get("ddof", 1)))
    mk("nanvar", lambda v, *a, **k: s_var(np.array(_nan_filter(v) + [0], dtype=object)[:-1],
                                          ddof=k.get("ddof", 1)))
    mk("nansum", lambda v, **k: sum(_nan_filter(v)))
    NDFrame = pd.core.generic.NDFrame
    orig_astype = NDFrame.astype
    saved["astype"] = orig_astype

    def astype(self, dtype, *a, **k):
        if isinstance(self, pd.Series) and self.dtype == object and has_sym(self.values):
            r = to_dtype(self.values.view(SymArray), _fix_dtype(dtype))
            return pd.Series(plain(r), index=self.index, name=self.name)
        return orig_astype(self, _fix_dtype(dtype) if not isinstance(dtype, dict) else dtype, *a, **k)

    NDFrame.astype = astype
    orig_round = saved["round"] = pd.Series.round

    def rnd(self, decimals=0, *a, **k):
        if self.dtype == object and has_sym(self.values):
            return pd.Series([v.round(decimals) if is_sym(v) else round(v, decimals) for v in self.values], index=self.index,
                             name=self.name, dtype=object)
        return orig_round(self, decimals, *a, **k)

    pd.Series.round = rnd
    return nanops, saved


BUILTIN_SHADOWS = {
    "int": _FakeInt,
    "float": _FakeFloat,
    "max": s_builtin_max,
    "min": s_builtin_min,
}


@contextlib.contextmanager
def sym_env(extra=None):
    """Swap numpy & co. in the quakemigrate modules while executing symbolically."""
    undo = []

    def setg(mod, name, val):
        if isinstance(mod, type):  # a class attribute
            had = name in mod.__dict__
            undo.append((mod, name, mod.__dict__.get(name), had))
            setattr(mod, name, val)
            return
        d = mod.__dict__
        undo.append((d, name, d[name] if name in d else None, name in d))
        d[name] = val

    for mname, mod in list(sys.modules.items()):
        if mod is None or not mname.startswith("quakemigrate"):
            continue
        for n, v in list(mod.__dict__.items()):
            if v is np:
                setg(mod, n, FACADE)
        for n, v in BUILTIN_SHADOWS.items():
            if n not in mod.__dict__:
                setg(mod, n, v)
    for mod, name, val in extra or []:
        setg(mod, name, val)
    nanops, saved = _patch_pandas()
    try:
        yield
    finally:
        pd.core.generic.NDFrame.astype = saved.pop("astype")
        pd.Series.round = saved.pop("round")
        for k, v in saved.items():
            setattr(nanops, k, v)
        for d, name, old, had in reversed(undo):
            if isinstance(d, type):
                if had:
                    setattr(d, name, old)
                else:
                    delattr(d, name)
                continue
            if had:
                d[name] = old
            else:
                d.pop(name, None)
