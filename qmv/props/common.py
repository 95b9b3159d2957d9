# -*- coding: utf-8 -*-
"""Helpers shared by the harnesses."""

import numpy as np


def core_env():
    """Route qmlib calls to the symbolic interpreter of the current C source."""
    import quakemigrate.core.lib as lib
    from qmv.irx import SymLib

    return [(lib, "qmlib", SymLib(lib.qmlib))]


def values(ctx, rows):
    """Nested list of values -> float array (symbolic: object array)."""
    if ctx.symbolic:
        from qmv.npsym import SymArray

        return np.array(rows, dtype=object).view(SymArray)
    return np.array(rows, dtype=np.double)


def int_table(ctx, rows, dtype=np.int32):
    if ctx.symbolic:
        return values(ctx, rows)
    return np.array(rows, dtype=dtype)


class Obj:
    """Plain attribute holder."""

    def __init__(self, **k):
        self.__dict__.update(k)


def col(ctx, vals):
    """A DataFrame / Series column: object dtype when symbolic."""
    if any(not isinstance(v, (int, float, np.integer, np.floating)) for v in vals):
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return a
    if ctx.symbolic:
        return np.array(vals, dtype=object)
    return np.array(vals, dtype=float)


def make_trigger(**k):
    """A Trigger object for a run in a folder that does not exist, without logging."""
    from quakemigrate.io.core import Run
    from quakemigrate.signal.trigger import Trigger

    k = {"marginal_window": 1.0, "pad": 10.0, "plot_trigger_summary": False, **k}
    logger = Run.logger
    Run.logger = lambda self, *a, **k: None
    try:
        return Trigger(Obj(unit_conversion_factor=1000.0), "/nonexistent/qmv", "run", **k)
    finally:
        Run.logger = logger


def time_env():
    from qmv import symtime

    return symtime.time_env()


def csv_env():
    """Tables read back by pandas hold the symbolic numbers that were written into them."""
    import pandas as pd

    from qmv import sym

    real = pd.read_csv

    def read_csv(*a, **k):
        df = real(*a, **k)
        c = sym.CTX
        known = {}
        for t in getattr(c, "_fmt", {}):
            known[f"{float(t):.12e}"] = t
        for j, name in enumerate(df.columns if known and isinstance(df, pd.DataFrame) else []):
            v = df[name].values
            if v.dtype.kind not in "ifO":
                continue
            hits = {i: known[f"{float(x):.12e}"] for i, x in enumerate(v) if _floats(x) and f"{float(x):.12e}" in known}
            if hits:
                o = v.astype(object)
                for i, t in hits.items():
                    o[i] = c.number(t)
                df[name] = o
        return df

    return [(pd, "read_csv", read_csv)]


def _floats(x):
    try:
        float(x)
        return True
    except (TypeError, ValueError):
        return False


def event_env():
    """ObsPy's event classes convert their numbers with float()."""
    import obspy.core.event as oe
    from obspy.core.util import AttribDict

    from qmv.sym import is_sym

    out, seen = [], set()
    for c in vars(oe).values():
        if not (isinstance(c, type) and issubclass(c, AttribDict)):
            continue
        for b in c.__mro__:
            if b is not AttribDict and b not in seen and "__setattr__" in b.__dict__ and "_property_dict" in dir(b):
                seen.add(b)

                def f(self, name, value, orig=b.__dict__["__setattr__"]):
                    if is_sym(value) and self._property_dict.get(name) is float:
                        return AttribDict.__setattr__(self, name, value)
                    return orig(self, name, value)

                out.append((b, "__setattr__", f))
    return out
