# -*- coding: utf-8 -*-
"""
Symbolic-execution core: z3-backed proxy values, path exploration and the harness
context.

The *real* QuakeMigrate functions are executed on proxy values.  Every arithmetic
operation builds a z3 term, every Python-level truth test on a symbolic value asks the
solver which outcomes are feasible and the harness is re-executed once per feasible
combination of outcomes (depth first, exhaustive).  `Ctx.check` asks the solver for an
assignment that reaches that point and falsifies the assertion.
"""

import math
import multiprocessing
import os
import re
import signal
import sys
import threading
import time
import types
import datetime
from fractions import Fraction

import numpy as np

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(VT)
    import z3

    sys.path.remove(VT)


class PathEnd(BaseException):
    """The current path is infeasible / finished early."""


class Inconclusive(BaseException):
    """The engine could not decide (unsupported operation, unknown, bound hit)."""


STOPPED = "engine stopped: "
MAX_BRANCH = 20000
BRANCHES = "branch bound hit (non-terminating symbolic loop?)"
RUNS_ON = "the code runs on and on (non-terminating loop?)"


class _Ticks:
    """Stops a path in which the code runs for long without any question to the solver."""

    PERIOD, IDLE = 20, 3

    def __init__(self, stats, ctx):
        self.stats, self.ctx, self.last, self.idle = stats, ctx, None, 0

    def _tick(self, *a):
        parent = multiprocessing.parent_process()
        if parent is not None and not parent.is_alive():
            os._exit(1)
        now = (self.stats.queries, self.stats.checks, round(self.stats.solver_s, 1), len(self.ctx.decisions))
        self.idle = self.idle + 1 if now == self.last else 0
        self.last = now
        if self.idle >= self.IDLE:
            raise Inconclusive(RUNS_ON)

    def __enter__(self):
        if threading.current_thread() is threading.main_thread():
            self.old = signal.signal(signal.SIGALRM, self._tick)
            signal.setitimer(signal.ITIMER_REAL, self.PERIOD, self.PERIOD)
        return self

    def __exit__(self, *a):
        if threading.current_thread() is threading.main_thread():
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)


class CheckFailed(BaseException):
    """Raised in concrete (replay) mode when an assertion is false."""


CTX = None  # the active context


def cur():
    return CTX


# --------------------------------------------------------------------------- lifting
def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def _rv(x):
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def lift(x):
    """Python/numpy number -> z3 arithmetic term (None when not liftable)."""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return _rv(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            return None
        if EXACT_DECIMAL:
            return _rv(Fraction(repr(x)))
        return _rv(Fraction(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


# When set, float literals in the code are read as the decimal they are written as
# (0.1 means 1/10).  All harnesses reason over exact reals unless they say otherwise.
EXACT_DECIMAL = True


def special(x):
    """Return the float if x is nan/inf, else None."""
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            return x
    return None


def _real(e):
    return e if e.is_real() else z3.ToReal(e)


def fold(e):
    """Wrap an arithmetic term; constants come back as plain Python numbers."""
    return Sym(e)


def libm(name, x):
    """Value of a C library function for a concrete double."""
    if math.isnan(x):
        return x
    try:
        if name == "exp":
            return 0.0 if x == -math.inf else math.exp(x)
        if name in ("log", "log10", "log1p") and x == (-1.0 if name == "log1p" else 0.0):
            return -math.inf
        if name in ("floor", "ceil") and math.isinf(x):
            return x
        if name == "fabs":
            return abs(x)
        return float(getattr(math, name)(x))
    except OverflowError:
        return math.inf
    except ValueError:
        return math.nan


def const_of(e):
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return None


def _log10(e):
    if z3.is_div(e) and const_of(e.arg(1)) is None:
        return _log10(e.arg(0)) - _log10(e.arg(1))
    if z3.is_mul(e) and not z3.is_rational_value(e.arg(0)):
        return sum(_log10(x) for x in e.children())
    t = e.arg(0) if z3.is_add(e) else e
    if z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
        c = abs(Fraction(t.arg(0).numerator_as_long(), t.arg(0).denominator_as_long()))
        if c not in (0, 1):
            return _log10(z3.simplify(e / _rv(c))) + libm("log10", float(c))
    return Sym(e)._uf("log10")


class NumText(str):
    """The text of a symbolic whole number; remembers zero padding."""

    def zfill(self, n):
        return CTX.format_sym(CTX._fmt[str(self)][0], f"0{int(n)}d") if CTX is not None else str.zfill(self, n)

    def rjust(self, n, c=" "):
        return self.zfill(n) if c == "0" else str.rjust(self, n, c)

    def __str__(self):
        return str.__str__(self)

    def __format__(self, spec):
        m = re.fullmatch(r"0[>=]?(\d+)s?", spec)
        return self.zfill(int(m.group(1))) if m else str.__format__(self, spec)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, lb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, lb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, lb(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(self.e == lb(o))
        return Sym(lift(self)) == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return id(self)

    def _n(self):
        return Sym(lift(self))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return f"<SymBool {str(self.e)[:60]}>"


def lb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Fp):
        return z3.Not(z3.fpIsZero(x.e))
    if isinstance(x, Sym):
        return x.e != 0
    if isinstance(x, (int, float)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    raise TypeError(f"cannot lift {type(x)} to bool")


def mkbool(e):
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(s)


UF = {}


def ufun(name, arity=1):
    if (name, arity) not in UF:
        R = z3.RealSort()
        UF[name, arity] = z3.Function(name, *([R] * arity), R)
    return UF[name, arity]


class Sym:
    """A symbolic integer or real."""

    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        le = lift(o)
        if le is None:
            return NotImplemented
        a, b = self.e, le
        if a.is_int() != b.is_int():
            a, b = _real(a), _real(b)
        if swap:
            a, b = b, a
        return Sym(f(a, b))

    def __add__(self, o):
        s = special(o)
        if s is not None:
            return s
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        s = special(o)
        if s is not None:
            return -s
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        s = special(o)
        if s is not None:
            return s
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        s = special(o)
        if s is not None:
            if s != s:
                return s
            if bool(self == 0):
                return float("nan")
            return s if bool(self > 0) else -s
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return Sym(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(z3.If(self.e >= 0, self.e, -self.e))

    def _div(self, a, b):
        # IEEE semantics for a zero divisor are outside the real-number model: fork on
        # it and hand back inf / nan like numpy does.
        c = const_of(b)
        if c is None:  # a sum of symbols may still be a number
            simple = z3.simplify(b, som=True)
            c = const_of(simple)
            if c is not None:
                b = simple
        if c is None:
            if CTX.branch(b == 0):
                c = 0
        if c == 0:
            if CTX.branch(a == 0):
                return float("nan")
            return float("inf") if CTX.branch(a > 0) else float("-inf")
        return Sym(_real(a) / _real(b))

    def __truediv__(self, o):
        s = special(o)
        if s is not None:
            return s if s != s else 0.0
        le = lift(o)
        if le is None:
            return NotImplemented
        return self._div(self.e, le)

    def __rtruediv__(self, o):
        s = special(o)
        if s is not None:
            if s != s:
                return s
            return s if bool(self >= 0) else -s
        le = lift(o)
        if le is None:
            return NotImplemented
        return self._div(le, self.e)

    @staticmethod
    def _floordiv(a, b):
        c = const_of(b)
        if c is None:
            if CTX.branch(b == 0):
                raise ZeroDivisionError("symbolic floor division by zero")
        elif c == 0:
            raise ZeroDivisionError("floor division by zero")
        if a.is_int() and b.is_int() and c is not None and c > 0:
            return a / b  # z3 div == floor for positive divisor
        return z3.ToInt(_real(a) / _real(b))

    def __floordiv__(self, o):
        le = lift(o)
        if le is None:
            return NotImplemented
        q = self._floordiv(self.e, le)
        if not (self.e.is_int() and le.is_int()):
            q = z3.ToReal(q)
        return Sym(q)

    def __rfloordiv__(self, o):
        le = lift(o)
        if le is None:
            return NotImplemented
        q = self._floordiv(le, self.e)
        if not (self.e.is_int() and le.is_int()):
            q = z3.ToReal(q)
        return Sym(q)

    def __mod__(self, o):
        le = lift(o)
        if le is None:
            return NotImplemented
        c = const_of(le)
        if self.e.is_int() and le.is_int() and c is not None and c > 0:
            return Sym(self.e % le)
        q = self._floordiv(self.e, le)
        a, b = self.e, le
        if not (a.is_int() and b.is_int()):
            a, b, q = _real(a), _real(b), z3.ToReal(q)
        return Sym(a - b * q)

    def __rmod__(self, o):
        le = lift(o)
        if le is None:
            return NotImplemented
        return Sym(le) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n):
        if is_sym(n):
            return Sym(ufun("pow", 2)(_real(self.e), _real(lift(n))))
        if float(n) == int(n):
            n = int(n)
            if n == 0:
                return Sym(z3.IntVal(1))
            r = self.e
            for _ in range(abs(n) - 1):
                r = r * self.e
            return Sym(r) if n > 0 else 1 / Sym(r)
        if float(n) == 0.5:
            return self.sqrt()
        if abs(float(n) - 1 / 3) < 1e-12:
            return self.cbrt()
        return Sym(ufun("pow", 2)(_real(self.e), _real(lift(n))))

    def __rpow__(self, b):
        return Sym(ufun("pow", 2)(_real(lift(b)), _real(self.e)))

    # -- comparison
    def _cmp(self, o, f, ifinf):
        s = special(o)
        if s is not None:
            return ifinf(s)
        le = lift(o)
        if le is None:
            return NotImplemented
        a, b = self.e, le
        if a.is_int() != b.is_int():
            a, b = _real(a), _real(b)
        return mkbool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda s: s > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda s: s > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda s: s < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda s: s < 0)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda s: False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda s: True)

    def __hash__(self):
        c = const_of(self.e)
        return hash(c) if c is not None else hash(CTX.concretize(self.e))

    def __bool__(self):
        return CTX.branch(self.e != 0)

    # -- rounding
    def floor(self):
        if self.e.is_int():
            return self
        return Sym(z3.ToInt(self.e))

    def ceil(self):
        if self.e.is_int():
            return self
        return Sym(-z3.ToInt(-self.e))

    def trunc(self):
        if self.e.is_int():
            return self
        return Sym(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def rint(self):
        if self.e.is_int():
            return self
        f = z3.ToInt(self.e + z3.RealVal("1/2"))
        tie = z3.ToReal(f) == self.e + z3.RealVal("1/2")
        return Sym(z3.If(z3.And(tie, f % 2 == 1), f - 1, f))

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __round__(self, n=None):
        if n is None:
            return self.rint()
        k = 10 ** int(n) if n >= 0 else Fraction(1, 10 ** int(-n))
        return (self * k).rint() / k

    def round(self, decimals=0, out=None):
        return self.__round__(decimals)

    def is_integer(self):
        if self.e.is_int():
            return True
        return mkbool(z3.IsInt(self.e))

    # -- transcendental: uninterpreted (congruence only)
    def _uf(self, name):
        c = const_of(self.e)
        if c is not None:
            # a constant argument: the library value (double precision)
            v = libm(name, float(c))
            if not math.isfinite(v):
                return v
            CTX.axiom(ufun(name)(z3.RealVal(str(c))) == _rv(v))
            return Sym(_rv(v))
        return Sym(ufun(name)(_real(self.e)))

    def exp(self):
        r = self._uf("exp")
        if is_sym(r):
            CTX.axiom(r.e > 0)
        return r

    def log(self):
        return self._uf("log")

    def log10(self):
        """One form for products, quotients and multiples of terms: sums of logarithms of their parts."""
        return _log10(z3.simplify(_real(self.e)))

    def log1p(self):
        return self._uf("log1p")

    def sqrt(self):
        r = self._uf("sqrt")
        if is_sym(r) and const_of(r.e) is None:
            CTX.fact(r.e, z3.Implies(self.e >= 0, z3.And(r.e >= 0, r.e * r.e == _real(self.e))))
        return r

    def cbrt(self):
        r = self._uf("cbrt")
        if is_sym(r) and const_of(r.e) is None:
            CTX.fact(r.e, z3.And((r.e >= 0) == (self.e >= 0), r.e * r.e * r.e == _real(self.e)))
        return r

    def sin(self):
        return self._uf("sin")

    def cos(self):
        return self._uf("cos")

    def conjugate(self):
        return self

    def square(self):
        return self * self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    # -- escapes to concrete
    def __index__(self):
        if not self.e.is_int():
            raise TypeError("symbolic real used as an index")
        return CTX.concretize(self.e)

    def __int__(self):
        return CTX.concretize(self.trunc().e)

    def __float__(self):
        c = const_of(self.e)
        if c is not None:
            return float(c)
        if self.e.is_int():
            return float(CTX.concretize(self.e))
        raise Inconclusive("float() of a symbolic real")

    def __format__(self, spec):
        return CTX.format_sym(self, spec)

    def __str__(self):
        return CTX.format_sym(self, "") if CTX is not None else repr(self)

    def __repr__(self):
        return f"<sym {str(self.e)[:40]}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Inconclusive("pickling a symbolic value")


def _elementwise(name):
    orig = getattr(Sym, name)

    def f(self, o, *a):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                out[i] = f(self, o[i])
            from qmv.npsym import SymArray

            return out.view(SymArray)
        r = orig(self, o, *a)
        if r is NotImplemented and isinstance(o, (complex,)):
            raise Inconclusive("complex arithmetic on symbols")
        return r

    f.__name__ = name
    setattr(Sym, name, f)


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv",
            "rfloordiv", "mod", "rmod", "pow", "rpow", "lt", "le", "gt", "ge", "eq", "ne"):
    _elementwise(f"__{_op}__")


# ------------------------------------------------- IEEE double precision, bit for bit
FP64 = z3.Float64()
RNE, RTZ, RTP, RTN = z3.RNE(), z3.RTZ(), z3.RTP(), z3.RTN()


def fplift(x):
    if isinstance(x, Fp):
        return x.e
    if is_sym(x):
        return None
    if isinstance(x, (bool, np.bool_, int, np.integer, float, np.floating, Fraction)):
        return z3.FPVal(float(x), FP64)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return fplift(x.item())
    return None


class Fp(Sym):
    """A symbolic double; every operation rounds like the hardware does."""

    __slots__ = ()
    is_pyint = False

    def _fp(self, o, f, swap=False):
        b = fplift(o)
        if b is None:
            if isinstance(o, np.ndarray):
                out = np.empty(o.shape, dtype=object)
                for i in np.ndindex(*o.shape):
                    out[i] = self._fp(o[i], f, swap)
                from qmv.npsym import SymArray

                return out.view(SymArray)
            return NotImplemented
        a = self.e
        if swap:
            a, b = b, a
        ints = self.is_pyint and (isinstance(o, (int, np.integer)) or getattr(o, "is_pyint", False))
        return (FpInt if ints and f is not z3.fpDiv else Fp)(z3.simplify(f(RNE, a, b)))

    def __add__(self, o):
        return self._fp(o, z3.fpAdd)

    __radd__ = __add__

    def __sub__(self, o):
        return self._fp(o, z3.fpSub)

    def __rsub__(self, o):
        return self._fp(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._fp(o, z3.fpMul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._fp(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._fp(o, z3.fpDiv, True)

    def __neg__(self):
        return type(self)(z3.fpNeg(self.e))

    def __abs__(self):
        return type(self)(z3.fpAbs(self.e))

    def __pow__(self, n):
        raise Inconclusive("power in floating point")

    __rpow__ = __pow__

    def _floor_of(self, v):
        return v.floor()

    def __floordiv__(self, o):
        q = self._fp(o, z3.fpDiv)
        return q if q is NotImplemented else q.floor()

    def __rfloordiv__(self, o):
        q = self._fp(o, z3.fpDiv, True)
        return q if q is NotImplemented else q.floor()

    def __mod__(self, o):
        raise Inconclusive("modulo in floating point")

    __rmod__ = __mod__

    def _c(self, o, f):
        b = fplift(o)
        return NotImplemented if b is None else mkbool(f(self.e, b))

    def __lt__(self, o):
        return self._c(o, z3.fpLT)

    def __le__(self, o):
        return self._c(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._c(o, z3.fpGT)

    def __ge__(self, o):
        return self._c(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._c(o, z3.fpEQ)

    def __ne__(self, o):
        return self._c(o, z3.fpNEQ)

    __hash__ = None

    def __bool__(self):
        return CTX.branch(z3.Not(z3.fpIsZero(self.e)))

    def _rnd(self, mode, cls=None):
        return (cls or type(self))(z3.simplify(z3.fpRoundToIntegral(mode, self.e)))

    def floor(self):
        return self._rnd(RTN)

    def ceil(self):
        return self._rnd(RTP)

    def rint(self):
        return self._rnd(RNE)

    def trunc(self):
        return self._rnd(RTZ, FpInt)

    def __floor__(self):
        return self._rnd(RTN, FpInt)

    def __ceil__(self):
        return self._rnd(RTP, FpInt)

    __trunc__ = trunc

    def __round__(self, n=None):
        if n is None:
            return self._rnd(RNE, FpInt)
        if n == 0:
            return self._rnd(RNE)
        # numpy's algorithm; Python's differs only on decimal ties
        return (self * 10.0**n).rint() / 10.0**n

    def is_integer(self):
        return mkbool(z3.fpEQ(self.e, z3.fpRoundToIntegral(RNE, self.e)))

    def sqrt(self):
        return Fp(z3.fpSqrt(RNE, self.e))

    def exp(self):
        raise Inconclusive("transcendental function in floating point")

    log = log10 = log1p = sin = cos = exp

    def square(self):
        return self * self

    def __index__(self):
        raise Inconclusive("floating-point value used as an index")

    __int__ = __float__ = __index__


class FpInt(Fp):
    """An integer (below 2**53) held in a double."""

    __slots__ = ()
    is_pyint = True

    def __index__(self):
        return CTX.concretize(z3.fpToSBV(RTZ, self.e, z3.BitVecSort(64)))

    __int__ = __index__

    def floor(self):
        return self

    ceil = rint = trunc = floor


# ------------------------------------------------------------------------- contexts
class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.discharged = 0
        self.trivial = 0
        self.labels = {}
        self.functions = set()
        self.samples = []
        self.bounds = {}

    def merge(self, o):
        self.paths += o.paths
        self.infeasible += o.infeasible
        self.queries += o.queries
        self.solver_s += o.solver_s
        self.checks += o.checks
        self.discharged += o.discharged
        self.trivial += o.trivial
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.functions |= o.functions
        self.samples += o.samples


def raw_eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(bool(raw_eq(x, y)) for x, y in zip(a, b))
    return a == b


class Ctx:
    """Harness context.  mode 'sym': explore; mode 'conc': replay a model."""

    symbolic = True

    def __init__(self, stats, prefix=(), timeout_ms=5000):
        self.stats = stats
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.solver = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.vars = {}
        self.candidates = []
        self.reached = set()
        self.deadline = None
        self.nbranch = 0
        self.max_branch = MAX_BRANCH
        self._fmt, self._fmtkey, self._pad = {}, {}, {}
        self.notes = []
        self.known_regions = []
        self.trace_conc = []
        self.fp = False
        self.facts, self.seen_terms, self.keep = {}, set(), []

    # -- solver plumbing
    def _check(self, *extra):
        t = time.time()
        if self.deadline is not None and t > self.deadline:
            raise Inconclusive("time budget exhausted")
        self.stats.queries += 1
        if self.fp:
            sv = z3.Then("simplify", "fpa2bv", "simplify", "bit-blast", "sat").solver()
            sv.set("timeout", 600000)
            sv.add(*self.solver.assertions(), *extra)
            r = sv.check()
            self._fpmodel = sv.model() if r == z3.sat else None
        else:
            r = self.solver.check(*extra)
            self._m = self.solver.model() if r == z3.sat else None
            if r == z3.unknown:
                r = self._check_flat(extra)
            if r == z3.unknown:
                self.solver.set("timeout", 60000)
                r = self.solver.check(*extra)
                self._m = self.solver.model() if r == z3.sat else None
                self.solver.set("timeout", self.timeout_ms)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            if os.environ.get("QMV_DUMP"):
                d = z3.Solver()
                d.add(*self.solver.assertions(), *extra)
                open(os.environ["QMV_DUMP"], "w").write(d.to_smt2())
            raise Inconclusive(f"solver: {self.solver.reason_unknown()}")
        return r == z3.sat

    def _check_flat(self, extra):
        """Uninterpreted applications as variables (with Ackermann's constraints): the solver's pure arithmetic procedures."""
        fs = list(self.solver.assertions()) + list(extra)
        apps, seen, todo = [], set(), list(fs)
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                apps.append(x)
            todo += x.children()
        apps.sort(key=lambda x: x.get_id())
        new = [(x, z3.FreshConst(x.sort(), "u")) for x in apps]

        def flat(e):
            while True:  # applications inside applications
                n = z3.substitute(e, *new)
                if n.eq(e):
                    return e
                e = n

        ack = []
        for i, (x, u) in enumerate(new):
            for y, v in new[:i]:
                if x.decl().eq(y.decl()):
                    ack.append(z3.Implies(z3.And([flat(a) == flat(b) for a, b in zip(x.children(), y.children())]), u == v))
        for more in ([], ack):
            sv = z3.Solver()
            sv.set("timeout", 60000)
            sv.add(*[flat(f) for f in fs], *more)
            r = sv.check()
            if r != z3.sat:
                return r
            if not ack:
                break
        self._m = sv.model()
        return r

    def axiom(self, e):
        """A fact that is always true (definition of a library function)."""
        self.solver.add(e)

    def fact(self, term, e):
        """A definition of `term` that is only told to the solver once a query mentions it."""
        f = [e]
        for k in (term, z3.simplify(term)):
            if k.get_id() not in self.seen_terms:
                self.facts[k.get_id()] = f
                self.keep.append(k)
            elif k.get_id() not in self.facts:
                self._tell(f)

    def _tell(self, f):
        if f:
            e = z3.simplify(f.pop())
            self.solver.add(e)
            self._use(e)

    def _use(self, e):
        """Tell the solver the facts about the terms of e."""
        if not self.facts:
            return
        todo, hit = [e], []
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in self.seen_terms:
                continue
            self.seen_terms.add(i)
            self.keep.append(x)
            if i in self.facts:
                hit.append(self.facts[i])
            todo += x.children()
        for f in hit:
            self._tell(f)

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self._use(c)
        self.nbranch += 1
        if self.nbranch > self.max_branch:
            raise Inconclusive(BRANCHES)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            assert d[0] == "b", "non-deterministic harness"
            take = d[1]
        else:
            self.pos += 1
            if self._check(c):
                if self._check(z3.Not(c)):
                    self.pending.append(self.decisions + [("b", False)])
                take = True
            else:
                take = False
        self.decisions.append(("b", take))
        self.solver.add(c if take else z3.Not(c))
        return take

    def concretize(self, e, limit=4096):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_bv_value(e):
            return e.as_signed_long()
        self._use(e)
        for _ in range(limit):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                assert d[0] == "v", "non-deterministic harness"
                v, take = d[1], d[2]
            else:
                self.pos += 1
                if not self._check():
                    raise PathEnd()
                m = self._fpmodel if self.fp else self._m
                v = m.eval(e, model_completion=True)
                v = v.as_signed_long() if z3.is_bv_value(v) else v.as_long()
                if self._check(e != v):
                    self.pending.append(self.decisions + [("v", v, False)])
                take = True
            self.decisions.append(("v", v, take))
            if take:
                self.solver.add(e == v)
                return v
            self.solver.add(e != v)
        raise Inconclusive("concretisation bound hit")

    def choose(self, name, options):
        """Exhaustive non-deterministic choice between concrete shapes."""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[self.concretize(i.e)]

    # -- inputs
    def real(self, name, lo=None, hi=None):
        e = z3.Real(name)
        self.vars[name] = e
        if lo is not None:
            self.solver.add(e >= lift(lo))
        if hi is not None:
            self.solver.add(e <= lift(hi))
        return Sym(e)

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self.vars[name] = e
        if lo is not None:
            self.solver.add(e >= lift(lo))
        if hi is not None:
            self.solver.add(e <= lift(hi))
        return Sym(e)

    def decimal(self, name, lo, hi, den):
        """k / den (k integer, lo <= k <= hi) as a double: the value `k/den` has in Python."""
        self.fp = True
        e = z3.BitVec(name, 32)
        self.vars[name] = e
        self.solver.add(z3.ULE(z3.BitVecVal(lo, 32), e), z3.ULE(e, z3.BitVecVal(hi, 32)))
        k = FpInt(z3.fpSignedToFP(RNE, e, FP64))
        return k if den == 1 else k / float(den)

    def bool(self, name):
        e = z3.Bool(name)
        self.vars[name] = e
        return SymBool(e)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def array(self, values):
        from qmv.npsym import symarray

        return symarray(values)

    # -- assertions
    def assume(self, cond):
        c = lb(cond)
        self._use(c)
        self.solver.add(c)
        if not self._check():
            self.stats.infeasible += 1
            raise PathEnd()

    def check(self, cond, label):
        """The assertion: must hold for every value reaching this point."""
        st = self.stats
        st.checks += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        self.reached.add(label)
        if isinstance(cond, (bool, np.bool_)) or not is_sym(cond):
            ok = bool(cond)
            if ok:
                st.discharged += 1
                st.trivial += 1
                return
            c = z3.BoolVal(False)
        else:
            c = lb(cond)
        neg = z3.Not(c)
        self._use(c)
        self.solver.push()
        self.solver.add(neg)
        try:
            sat = self._check()
            if sat:
                self.candidates.append((label, self._nice_model()))
        finally:
            self.solver.pop()
        if not sat:
            st.discharged += 1
            self.solver.add(c)
        else:
            self.stats.labels[label] -= 0
            raise PathEnd()

    def check_eq(self, a, b, label):
        self.check(self.eq(a, b), label)

    def eq(self, a, b, tol=None):
        if is_sym(a) != is_sym(b) and isinstance(b if is_sym(a) else a, (float, np.floating)):
            # constants on both sides: equal to double precision
            c = const_of((a if is_sym(a) else b).e) if not isinstance(a if is_sym(a) else b, Fp) else None
            if c is not None:
                a, b = (float(c), b) if is_sym(a) else (a, float(c))
        if is_sym(a) or is_sym(b):
            r = a == b
            return r
        if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
            if a != a or b != b:
                return bool(a != a and b != b)
            if a in (float("inf"), float("-inf")):
                return bool(a == b)
        if isinstance(a, (float, np.floating, Fraction)) or isinstance(
            b, (float, np.floating, Fraction)
        ):
            # Both sides are constants on this path (exact rationals / floats).
            fa, fb = float(a), float(b)
            return abs(fa - fb) <= 1e-9 * max(1.0, abs(fa), abs(fb))
        return bool(a == b)

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def all(self, conds):
        es = [lb(c) for c in conds]
        return mkbool(z3.And(*es)) if es else True

    def any(self, conds):
        es = [lb(c) for c in conds]
        return mkbool(z3.Or(*es)) if es else False

    def implies(self, a, b):
        return mkbool(z3.Implies(lb(a), lb(b)))

    def iff(self, a, b):
        return mkbool(lb(a) == lb(b))

    def not_(self, a):
        return mkbool(z3.Not(lb(a)))

    def ite(self, c, a, b):
        if isinstance(a, Fp) or isinstance(b, Fp):
            return Fp(z3.If(lb(c), fplift(a), fplift(b)))
        if isinstance(c, (bool, np.bool_)):
            return a if c else b
        a_, b_ = lift(a), lift(b)
        if a_.is_int() != b_.is_int():
            a_, b_ = _real(a_), _real(b_)
        return Sym(z3.If(lb(c), a_, b_))

    def max(self, xs):
        m = xs[0]
        for x in xs[1:]:
            m = self.ite(x > m, x, m)
        return m

    def min(self, xs):
        m = xs[0]
        for x in xs[1:]:
            m = self.ite(x < m, x, m)
        return m

    def f(self, name, x):
        """Library function used in an oracle (exp, log, log10, sqrt ...)."""
        if not is_sym(x):
            x = Sym(lift(x))
        return getattr(x, name)()

    def format_sym(self, s, spec):
        """A unique, well-formed number that float() and ctx.number() turn back into the value written."""
        m = re.fullmatch(r"(?:.?[<>=^])?[ +-]?#?0?\d*[,_]?(?:\.(\d+))?([a-zA-Z%]?)", spec)
        if not m or isinstance(s, Fp) or m.group(2) not in ("", "f", "d", "F", "g", "e", "E"):
            return f"<{spec}>"
        key = (s.e.get_id(), spec)
        if key in self._fmtkey:
            return self._fmtkey[key]
        n = len(self._fmtkey)
        if m.group(2) in ("g", "e", "E"):  # N significant digits
            text = f"1.1e+{50 + n}"
            d = int(m.group(1)) if m.group(1) else 6
            self._fmt[text] = (s, ("g", d + (m.group(2) != "g")))
            width = re.match(r"\D*(\d*)", spec).group(1)
            if not spec.startswith("."):
                text = text.rjust(int(width or 0))
            self._fmtkey[key] = text
            return text
        base = 7000000 + 13 * n
        text = format(float(base) if m.group(2) in ("f", "F") or "." in spec else base, spec)
        digits = None
        if m.group(2) in ("f", "F"):
            digits = int(m.group(1)) if m.group(1) is not None else 6
        self._fmt[text.strip()] = (s, digits)
        if digits is None and s.e.is_int():
            pad = re.fullmatch(r"0[>=]?(\d+)d?", spec)
            self._pad[text] = int(pad.group(1)) if pad else 0
            text = NumText(text)
        self._fmtkey[key] = text
        return text

    def two_digits(self, text):
        """Seconds written S.FFF with (at least) two digits before the point, for every value."""
        t = text.strip()
        a = t.split(".")[0]
        if a in self._pad:
            return self._pad[a] >= 2 or bool(self.number(a) >= 10)
        if t in self._fmt:
            return bool(self.number(t) >= 10) or t.startswith("0")
        return len(a) == 2

    def clock(self, text):
        """Seconds written as S.FFFFFF, both parts possibly symbolic whole numbers."""
        t = text.strip()
        if t in self._fmt or "." not in t:
            return self.number(t)
        a, b = t.split(".")
        n = self._pad.get(b, len(b))
        f = self.number(b)
        if b in self._pad:
            if not bool(f >= 0):
                raise Inconclusive("negative number after the decimal point")
            if not n or not bool(f < 10**n):
                d = 1
                while not bool(f < 10**d):
                    d += 1
                n = max(n, d)
        return self.number(a) + f / 10**n

    def number(self, text):
        """The value of a number written as text."""
        t = text.strip()
        if t not in self._fmt:
            return float(t)
        s, digits = self._fmt[t]
        if digits is None:
            return s
        key = ("read", t)
        if key not in self._fmtkey:
            k = z3.Int(f"written!{t}")
            self._fmtkey[key] = k
        k = self._fmtkey[key]
        if isinstance(digits, tuple):
            k = z3.Real(f"written!{t}")
            e = _real(s.e)
            tol = z3.If(e >= 0, e, -e) * z3.RealVal(5) / (10 ** digits[1])
            self.axiom(z3.And(k - e <= tol, e - k <= tol))
            return Sym(k)
        scale = 10**digits
        e = _real(s.e) * scale
        # correctly rounded, ties either way
        self.axiom(z3.And(z3.ToReal(k) - e <= z3.RealVal("1/2"), e - z3.ToReal(k) <= z3.RealVal("1/2")))
        return Sym(z3.ToReal(k) / scale)

    # -- models
    def _nice_model(self):
        """Prefer small dyadic values, so that the float replay is exact."""
        if self.fp:
            return self._vals(self._fpmodel)
        m = self._m
        reals = [(n, e) for n, e in self.vars.items() if z3.is_arith(e) and e.is_real()]
        if reals:
            old = m
            self.solver.set("timeout", 3000)
            try:
                for den in (1, 8, 64, 1000, 4096):
                    self.solver.push()
                    for n, e in reals:
                        self.solver.add(z3.IsInt(e * den))
                    try:
                        if self.solver.check() == z3.sat:
                            return self._vals(self.solver.model())
                    finally:
                        self.solver.pop()
            finally:
                self.solver.set("timeout", self.timeout_ms)
            m = old
        return self._vals(m)

    def _vals(self, m):
        out = {}
        for n, e in self.vars.items():
            v = m.eval(e, model_completion=True)
            if z3.is_bool(v):
                out[n] = bool(z3.is_true(v))
            elif z3.is_int_value(v) or z3.is_bv_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = [v.numerator_as_long(), v.denominator_as_long()]
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                out[n] = [a.numerator_as_long(), a.denominator_as_long()]
            else:
                out[n] = 0
        return out


class ConcCtx:
    """Replays a model (or random values, for cross-validation) on plain floats."""

    symbolic = False

    def __init__(self, model, rng=None):
        self.model = model
        self.rng = rng
        self.used = {}
        self.labels = {}
        self.failed = None

    def _get(self, name, lo, hi, kind):
        if name in self.used:
            return self.used[name]
        v = self.model.get(name) if self.model is not None else None
        if v is None:
            if self.rng is None:
                v = lo if lo is not None else (hi if hi is not None else 0)
            elif kind == "int":
                v = self.rng.randint(
                    lo if lo is not None else -20, hi if hi is not None else 20
                )
            elif kind == "bool":
                v = self.rng.random() < 0.5
            else:
                a = float(lo) if lo is not None else -50.0
                b = float(hi) if hi is not None else 50.0
                v = a + (b - a) * self.rng.random()
        if isinstance(v, (list, tuple)):
            v = v[0] / v[1]
        if kind == "real":
            v = float(v)
        elif kind == "int":
            v = int(v)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        return self._get(name, lo, hi, "real")

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo, hi, "int")

    def decimal(self, name, lo, hi, den):
        k = self._get(name, lo, hi, "int")
        return k if den == 1 else k / den

    def bool(self, name):
        return bool(self._get(name, 0, 1, "bool"))

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def choose(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def array(self, values):
        return np.array(values, dtype=float)

    def number(self, text):
        return float(text)

    def clock(self, text):
        return float(text)

    def two_digits(self, text):
        return len(text.strip().split(".")[0]) == 2

    def axiom(self, e):
        pass

    def assume(self, cond):
        if not bool(cond):
            raise PathEnd()

    def check(self, cond, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(cond):
            self.failed = label
            raise CheckFailed(label)

    def check_eq(self, a, b, label):
        self.check(self.eq(a, b), label)

    def eq(self, a, b, tol=None):
        if isinstance(a, (float, np.floating, Fraction)) or isinstance(
            b, (float, np.floating, Fraction)
        ):
            a, b = float(a), float(b)
            if a != a or b != b:
                return bool(a != a and b != b)
            if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
                return bool(a == b)
            t = 1e-7 if tol is None else tol
            return bool(abs(a - b) <= t * max(1.0, abs(a), abs(b)))
        return bool(a == b)

    def le(self, a, b):
        return bool(a <= b + 1e-7 * max(1.0, abs(a), abs(b)))

    def lt(self, a, b):
        return bool(a < b + 1e-7 * max(1.0, abs(a), abs(b)))

    def all(self, conds):
        return all([bool(c) for c in conds])

    def any(self, conds):
        return any([bool(c) for c in conds])

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def not_(self, a):
        return not bool(a)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def f(self, name, x):
        return getattr(np, name)(x)


def set_ctx(c):
    global CTX
    CTX = c


def explore(harness, params, stats, deadline=None, max_candidates=3, max_paths=None,
            trace_functions=None):
    """
    Exhaustively explore `harness(ctx, **params)`.

    Returns a list of candidate counterexamples [(label, model)], exceptions raised by
    the code under test [(exc label, model)], and why the exploration is incomplete (or
    None). Where the engine has to stop a path, the inputs that lead there are a
    candidate too: only the replay on the real code makes a violation of it.
    """
    import traceback

    work = [[]]
    cands = []
    excs = []
    stopped = []
    first = True
    while work:
        prefix = work.pop()
        ctx = Ctx(stats, prefix)
        ctx.deadline = deadline
        if deadline is not None and time.time() > deadline:
            stopped.append(("time budget exhausted", ""))
            break
        set_ctx(ctx)
        tracer = None
        if first and trace_functions is not None:
            tracer = trace_functions(stats.functions)
            sys.setprofile(tracer)
        try:
            with _Ticks(stats, ctx):
                harness(ctx, **params)
            stats.paths += 1
        except PathEnd:
            pass
        except Inconclusive as e:
            sys.setprofile(None)
            stopped.append((str(e), traceback.format_exc()[-1500:]))
            if not ctx.candidates:
                try:
                    if ctx._check():
                        cands.append((STOPPED + str(e), ctx._nice_model() if ctx.vars else {}))
                except Inconclusive:
                    pass
        except Exception as e:  # raised by the code under test (or the engine)
            sys.setprofile(None)
            if os.environ.get("QMV_DEBUG"):
                traceback.print_exc()
            try:
                if ctx._check():
                    excs.append((
                        f"{type(e).__name__}: {e}",
                        ctx._nice_model() if ctx.vars else {},
                        "".join(traceback.format_exc()[-1500:]),
                    ))
            except Inconclusive as x:
                stopped.append((str(x), ""))
        finally:
            sys.setprofile(None)
            set_ctx(None)
        if first and ctx.vars and len(stats.samples) < 2:
            try:
                if not ctx.fp and ctx._check():
                    stats.samples.append(
                        {"path": len(ctx.decisions), "witness": _short(ctx._vals(ctx._m))}
                    )
            except (Exception, Inconclusive):
                pass
        first = False
        work.extend(ctx.pending)
        cands.extend(ctx.candidates)
        if len(cands) >= max_candidates or len(excs) >= max_candidates or len(stopped) >= 3:
            break
        if max_paths is not None and stats.paths > max_paths:
            stopped.append(("path bound hit", ""))
            break
    return cands, excs, stopped[0] if stopped else None


def _short(d, n=12):
    out = {}
    for i, (k, v) in enumerate(d.items()):
        if i >= n:
            out["..."] = len(d) - n
            break
        out[k] = v
    return out
