# -*- coding: utf-8 -*-
"""
Symbolic times.

ObsPy's `UTCDateTime` keeps one number (nanoseconds).  During a symbolic run its methods
accept a symbolic number there, so that QuakeMigrate (and ObsPy's own Stats / Trace /
Stream code) computes with symbolic instants.  Times are exact (no rounding to the
nanosecond / microsecond); calendar fields fork over the feasible days.  A symbolic time
converted to text becomes a unique, well-formed timestamp ("token") that converts back to
the same symbolic instant.
"""

import datetime
import math
import operator
import types
from fractions import Fraction

import numpy as np
from obspy import UTCDateTime

from qmv import npsym, sym
from qmv.sym import Sym, Inconclusive, is_sym, lift, z3

_NS = "_UTCDateTime__ns"
U = UTCDateTime
_O = {
    k: U.__dict__[k]
    for k in (
        "__init__", "__add__", "__sub__", "_operate", "__str__", "__repr__", "_get_datetime",
        "_get_date", "_get_time", "_get_timestamp", "__float__", "strftime", "replace",
        "__eq__", "__ne__", "__hash__", "_get_year", "_get_month", "_get_day", "_get_julday",
        "_get_hour", "_get_minute", "_get_second", "_get_microsecond", "_get_weekday",
        "isoformat", "toordinal",
        "ns", "_ns", "datetime", "date", "time", "timestamp", "year", "month", "day",
        "julday", "hour", "minute", "second", "microsecond", "weekday",
    )
}
DAY = 86400 * 10**9


def symns(x):
    return is_sym(x.__dict__.get(_NS))


def _tokens():
    c = sym.CTX
    if not hasattr(c, "_time_tokens"):
        c._time_tokens = {}
        c._time_bykey = {}
    return c._time_tokens, c._time_bykey


_E0 = datetime.datetime(1970, 1, 1)
_US = datetime.timedelta(microseconds=1)
_MIN = datetime.timedelta(minutes=1)


def _token_dt(day, n):
    """n-th token of a day: true calendar day, otherwise unused odd time of day."""
    return _E0 + datetime.timedelta(days=day, minutes=181 + n, seconds=17 + n % 40, microseconds=123789)


def token_dt(ns):
    by_min, by_key = _tokens()
    e = z3.simplify(sym._real(ns.e))
    key = e.sexpr()
    if key not in by_key:
        k = (Sym(e) / DAY).floor()
        day = sym.CTX.concretize(k.e)
        n = by_min.setdefault(("n", day), 0)
        by_min["n", day] = n + 1
        d = _token_dt(day, n)
        by_key[key] = d
        by_min[(d - _E0) // _MIN] = (ns, d)
    return by_key[key]


def token(ns):
    return token_dt(ns).strftime("%Y-%m-%dT%H:%M:%S.%fZ")


def untoken_dt(d):
    """Instant parsed from text -> the symbolic instant, at the precision of the text."""
    if sym.CTX is None:
        return None
    by_min, _ = _tokens()
    hit = by_min.get((d - _E0) // _MIN)
    if hit is None:
        return None
    v, t = hit
    if d == t:
        return v
    for unit in (10**6, 10**7, 10**8, 10**9, 60 * 10**9):
        us = unit // 1000
        tu = (t - _E0) // _US
        if d == _E0 + (tu // us * us) * _US:
            return (v / unit).floor() * unit
        if d == _E0 + ((2 * tu + us) // (2 * us) * us) * _US:
            return (v / unit).rint() * unit
    raise Inconclusive("time token altered")


def untoken(s):
    if sym.CTX is None or not isinstance(s, str) or len(s) < 12:
        return None
    o = UTCDateTime.__new__(UTCDateTime)
    try:
        _O["__init__"](o, s)
    except Exception:
        return None
    return untoken_dt(_O["_get_datetime"](o))


def digits(t):
    """The 17 digits (to the millisecond) of a time's text."""
    d = "".join(c for c in str(t) if c.isdigit())
    return d[:17].ljust(17, "0")


def _secs(v):
    """Any duration in seconds -> number usable in exact arithmetic."""
    if isinstance(v, datetime.timedelta):
        return Fraction(v // datetime.timedelta(microseconds=1), 10**6)
    if is_sym(v):
        return v
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
        if is_sym(v):
            return v
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, Fraction):
        return v
    f = float(v)
    return f


def _ns_of(v):
    s = _secs(v)
    if is_sym(s):
        return s * 10**9
    if isinstance(s, Fraction):
        return s * 10**9
    return int(round(s * 1e9))


def mk(ns):
    return UTCDateTime(ns=ns)


def p_init(self, *args, **kwargs):
    ns = kwargs.get("ns")
    if ns is not None and (is_sym(ns) or isinstance(ns, Fraction)):
        if not is_sym(ns):
            kwargs["ns"] = int(round(ns))
            return _O["__init__"](self, *args, **kwargs)
        self.precision = kwargs.get("precision", self.DEFAULT_PRECISION)
        self._ns = ns
        return
    if len(args) == 1 and not kwargs:
        a = args[0]
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if is_sym(a):
            self.precision = self.DEFAULT_PRECISION
            self._ns = a * 10**9
            return
        v = untoken(a) if isinstance(a, str) else None
        if v is None and isinstance(a, SymDatetime):
            v = a.ns
        if v is None and isinstance(a, datetime.datetime) and sym.CTX is not None:
            v = untoken_dt(datetime.datetime(a.year, a.month, a.day, a.hour, a.minute, a.second,
                                             a.microsecond))
        if v is not None:
            self.precision = self.DEFAULT_PRECISION
            self._ns = v
            return
    return _O["__init__"](self, *args, **kwargs)


def p_get_ns(self):
    return self.__dict__[_NS]


def p_set_ns(self, value):
    if is_sym(value):
        self.__dict__[_NS] = value
        self.__dict__["_initialized"] = True
        return
    if isinstance(value, Fraction):
        value = int(round(value))
    return _O["_ns"].fset(self, value)


def p_add(self, value):
    if isinstance(value, UTCDateTime):
        return _O["__add__"](self, value)
    v = value.item() if isinstance(value, np.ndarray) and value.ndim == 0 else value
    if not symns(self) and not is_sym(v):
        if isinstance(v, Fraction):
            v = float(v)
        return _O["__add__"](self, v)
    return mk(self._ns + _ns_of(v))


def p_sub(self, value):
    if isinstance(value, UTCDateTime):
        if not symns(self) and not symns(value):
            return _O["__sub__"](self, value)
        return (self._ns - value._ns) / 10**9
    v = value.item() if isinstance(value, np.ndarray) and value.ndim == 0 else value
    if not symns(self) and not is_sym(v):
        if isinstance(v, Fraction):
            v = float(v)
        return _O["__sub__"](self, v)
    return mk(self._ns - _ns_of(v))


def p_operate(self, other, op_func):
    if not isinstance(other, UTCDateTime):
        if is_sym(other):
            other = UTCDateTime(other)
        else:
            try:
                other = UTCDateTime(other)
            except TypeError:
                return False
    if not symns(self) and not symns(other):
        return _O["_operate"](self, other, op_func)
    return op_func(self._ns, other._ns)


def p_ne(self, other):
    r = self.__eq__(other)
    return ~r if is_sym(r) else not r


def p_str(self):
    return token(self._ns) if symns(self) else _O["__str__"](self)


def p_repr(self):
    return "UTCDateTime(<symbolic>)" if symns(self) else _O["__repr__"](self)


def day_index(self):
    k = (Sym(sym._real(self._ns.e)) / DAY).floor()
    return sym.CTX.concretize(k.e)


def ns_of_day(self):
    return self._ns - day_index(self) * DAY


def p_date(self):
    if not symns(self):
        return _O["_get_date"](self)
    return datetime.date(1970, 1, 1) + datetime.timedelta(days=day_index(self))


class SymTime:
    """Time of day."""

    def __init__(self, ns):
        self.ns = ns

    @staticmethod
    def _v(o):
        if isinstance(o, SymTime):
            return o.ns
        if isinstance(o, datetime.time):
            return ((o.hour * 60 + o.minute) * 60 + o.second) * 10**9 + o.microsecond * 1000
        raise Inconclusive("time-of-day comparison")

    def __eq__(self, o):
        return self.ns == self._v(o)

    def __ne__(self, o):
        return self.ns != self._v(o)

    def __lt__(self, o):
        return self.ns < self._v(o)

    def __le__(self, o):
        return self.ns <= self._v(o)

    def __gt__(self, o):
        return self.ns > self._v(o)

    def __ge__(self, o):
        return self.ns >= self._v(o)

    __hash__ = None


def p_time(self):
    return SymTime(ns_of_day(self)) if symns(self) else _O["_get_time"](self)


class SymDatetime:
    """What `.datetime` of a symbolic time returns: text and calendar fields only."""

    def __init__(self, t):
        self.t = t
        self.ns = t._ns

    def date(self):
        return p_date(self.t)

    def time(self):
        return p_time(self.t)

    def strftime(self, f):
        return p_strftime(self.t, f)

    def isoformat(self, sep="T", *a):
        return token(self.ns)[:-1]

    def __getattr__(self, n):
        if n in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            return getattr(self.t, n)
        if n.startswith("__array"):
            raise AttributeError(n)
        raise Inconclusive(f"datetime.{n} of a symbolic time")

    def __str__(self):
        return token(self.ns)

    @staticmethod
    def _v(o):
        if isinstance(o, SymDatetime):
            return o.ns
        if isinstance(o, datetime.datetime):
            return UTCDateTime(o)._ns
        raise Inconclusive("comparison of a symbolic datetime")

    def __eq__(self, o):
        return self.ns == self._v(o)

    def __ne__(self, o):
        return self.ns != self._v(o)

    def __lt__(self, o):
        return self.ns < self._v(o)

    def __le__(self, o):
        return self.ns <= self._v(o)

    def __gt__(self, o):
        return self.ns > self._v(o)

    def __ge__(self, o):
        return self.ns >= self._v(o)

    __hash__ = None


def p_datetime(self):
    if not symns(self):
        return _O["_get_datetime"](self)
    return SymDatetime(self)


def _field(name):
    orig = _O["_get_" + name]

    def f(self):
        if not symns(self):
            return orig(self)
        d = p_date(self)
        if name == "julday":
            return d.timetuple().tm_yday
        if name == "weekday":
            return d.weekday()
        if name in ("year", "month", "day"):
            return getattr(d, name)
        t = Sym(sym._real(ns_of_day(self).e))
        if name == "hour":
            return sym.CTX.concretize((t / (3600 * 10**9)).floor().e)
        if name == "minute":
            return sym.CTX.concretize((t / (60 * 10**9)).floor().e) % 60
        if name == "second":
            s = (t / 10**9).floor()
            return Sym(s.e % 60)
        us = (t / 1000).floor()
        return Sym(us.e % 1000000)

    return f


def p_strftime(self, fmt):
    if not symns(self):
        return _O["strftime"](self, fmt)
    codes = [c[0] for c in fmt.replace("%%", "").split("%")[1:]]
    if all(c in "Yjmdy" for c in codes):
        return p_date(self).strftime(fmt)
    if set("YmdHMS") <= set(codes):
        return token_dt(self._ns).strftime(fmt)
    out, rest = "", fmt  # part of a time: field by field
    widths = dict(H=("hour", 2), M=("minute", 2), S=("second", 2), f=("microsecond", 6))
    while rest:
        if rest[0] != "%":
            out, rest = out + rest[0], rest[1:]
            continue
        c, rest = rest[1], rest[2:]
        if c in widths:
            v = getattr(self, widths[c][0])
            out += format(v, f"0{widths[c][1]}d")
        elif c == "I":
            out += f"{(self.hour - 1) % 12 + 1:02d}"
        elif c == "p":
            out += "AM" if self.hour < 12 else "PM"
        elif c in "Yjmdy%":
            out += p_date(self).strftime("%" + c)
        else:
            raise Inconclusive(f"strftime {fmt}")
    return out


def p_isoformat(self, sep="T", *a):
    if not symns(self):
        return _O["isoformat"](self, sep)
    return token(self._ns)[:-1].replace("T", sep)


def p_toordinal(self):
    return p_date(self).toordinal() if symns(self) else _O["toordinal"](self)


def p_timestamp(self):
    if not symns(self):
        return _O["_get_timestamp"](self)
    return self._ns / 10**9


def p_float(self):
    if not symns(self):
        return _O["__float__"](self)
    raise Inconclusive("float() of a symbolic time")


def p_replace(self, **k):
    if not symns(self):
        return _O["replace"](self, **k)
    if set(k) == {"hour", "minute", "second", "microsecond"}:
        base = UTCDateTime(p_date(self))
        return base + ((k["hour"] * 60 + k["minute"]) * 60 + k["second"]) + k["microsecond"] / 1e6
    raise Inconclusive("replace() on a symbolic time")


class _ConcInt(int, metaclass=npsym._CastMeta):
    """`int` inside ObsPy: symbolic numbers are split into their feasible integers."""

    _base = int

    @staticmethod
    def _conv(x=0, *a, **k):
        if isinstance(x, Sym):
            return sym.CTX.concretize(x.trunc().e)
        return int(x, *a, **k)


def _round(x, n=None):
    if isinstance(x, Sym):
        if n is not None and n >= 6:
            return x
        return x.__round__(n)
    return round(x, n)


class _Math(types.ModuleType):
    """`math` inside ObsPy for symbolic arguments."""

    def __getattr__(self, n):
        return getattr(math, n)

    @staticmethod
    def fabs(x):
        return abs(x) if isinstance(x, Sym) else math.fabs(x)

    @staticmethod
    def floor(x):
        return x.floor() if isinstance(x, Sym) else math.floor(x)

    @staticmethod
    def ceil(x):
        return x.ceil() if isinstance(x, Sym) else math.ceil(x)


def time_env():
    """Patches for the duration of one symbolic run (see npsym.sym_env)."""
    import obspy.core.compatibility as compat
    import obspy.core.stream as ostream
    import obspy.core.trace as otrace

    away = compat.round_away

    def round_away(x):
        if isinstance(x, Sym):
            if x.e.is_int():
                return sym.CTX.concretize(x.e)
            half = Fraction(1, 2)
            r = sym.CTX.ite(x >= 0, (x + half).floor(), -((-x + half).floor()))
            return sym.CTX.concretize(r.e)
        return away(x)

    out = [
        (U, "__init__", p_init), (U, "__add__", p_add), (U, "__radd__", p_add),
        (U, "__sub__", p_sub), (U, "_operate", p_operate), (U, "__ne__", p_ne),
        (U, "__str__", p_str), (U, "__repr__", p_repr), (U, "__float__", p_float),
        (U, "strftime", p_strftime), (U, "isoformat", p_isoformat),
        (U, "toordinal", p_toordinal), (U, "replace", p_replace),
        (U, "ns", property(p_get_ns, p_set_ns)), (U, "_ns", property(p_get_ns, p_set_ns)),
        (U, "datetime", property(p_datetime)), (U, "date", property(p_date)),
        (U, "time", property(p_time)), (U, "timestamp", property(p_timestamp)),
    ]
    for n in ("year", "month", "day", "julday", "hour", "minute", "second", "microsecond",
              "weekday"):
        out.append((U, n, property(_field(n))))
    out.append((compat, "round_away", round_away))
    for m in (otrace, ostream):
        out += [(m, "int", _ConcInt), (m, "float", npsym._FakeFloat), (m, "round", _round),
                (m, "math", _Math("math")), (m, "max", npsym.s_builtin_max), (m, "min", npsym.s_builtin_min)]
    return out


# ----------------------------------------------------------------- harness helpers
BASE = 1609459200  # 2021-01-01T00:00:00Z, a midnight


def at(ctx, seconds, base=BASE):
    """base + seconds (symbolic or number) as a UTCDateTime."""
    if is_sym(seconds):
        return UTCDateTime(ns=(seconds + base) * 10**9)
    return UTCDateTime(ns=int(round(Fraction(seconds if not isinstance(seconds, float) else
                                             Fraction(seconds)) * 10**9)) + base * 10**9)


def sec(t, base=BASE):
    """seconds since base: symbolic / float."""
    ns = t._ns
    if is_sym(ns):
        return ns / 10**9 - base
    return float(Fraction(ns - base * 10**9, 10**9))
