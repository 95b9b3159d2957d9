# -*- coding: utf-8 -*-
"""Figures are recorded instead of drawn: what was put on which axes."""

import contextlib

import numpy as np

from qmv.props.common import Obj


class Artist:
    """Accepts any further styling."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Artist()

    def __iter__(self):
        return iter(())


class Axes:
    def __init__(self, fig):
        self.figure = fig
        self.curves, self.points, self.vlines, self.hlines, self.spans, self.texts, self.patches, self.meshes, self.bars = \
            [], [], [], [], [], [], [], [], []
        self.labels, self.lims, self.ticks = [], {}, {}
        import matplotlib.transforms as mt

        self.transAxes = self.transData = mt.IdentityTransform()
        self.xaxis, self.yaxis = Axis(self, "y"), Axis(self, "y")

    def _lab(self, k):
        if k.get("label"):
            self.labels.append(k["label"])

    def plot(self, *a, **k):
        self._lab(k)
        x, y = (a[0], a[1]) if len(a) > 1 and not isinstance(a[1], str) else (range(len(a[0])), a[0])
        self.curves.append(Obj(x=list(x), y=list(y), where=k.get("drawstyle"), kw=k))
        return [Artist()]

    def step(self, x, y, *a, where="pre", **k):
        self._lab(k)
        self.curves.append(Obj(x=list(x), y=list(y), where="steps-" + where, kw=k))
        return [Artist()]

    def scatter(self, x, y, s=None, c=None, **k):
        self._lab(k)
        self.points.append(Obj(x=list(np.atleast_1d(x)), y=list(np.atleast_1d(y)), c=c, kw=k))
        return Artist()

    def errorbar(self, x, y, yerr=None, xerr=None, **k):
        self._lab(k)
        self.bars.append(Obj(x=list(x), y=list(y), xerr=xerr, yerr=yerr, kw=k))
        return Artist(), [Artist()], [Artist(), Artist()]

    def axvline(self, x=0, *a, **k):
        self._lab(k)
        self.vlines.append(x)
        return Artist()

    def vlines_(self, x, *a, **k):
        self._lab(k)
        self.vlines.extend(list(np.atleast_1d(x)))
        return Artist()

    def axhline(self, y=0, *a, **k):
        self._lab(k)
        self.hlines.append(y)
        return Artist()

    def axvspan(self, xmin, xmax, *a, **k):
        self._lab(k)
        self.spans.append((xmin, xmax))
        return Artist()

    def text(self, x, y, s, *a, **k):
        self.texts.append(s)
        return Artist()

    def annotate(self, text, xy=None, *a, **k):
        self.texts.append(text)
        return Artist()

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def pcolormesh(self, *a, **k):
        self.meshes.append(a)
        return Artist()

    def set_xlim(self, *a, **k):
        self.lims["x"] = (a, k)

    def set_ylim(self, *a, **k):
        self.lims["y"] = (a, k)

    def set_yticks(self, t, labels=None, **k):
        self.ticks["y"] = list(t)
        if labels is not None:
            self.ticks["ylabels"] = list(labels)

    def set_yticklabels(self, t, **k):
        self.ticks["ylabels"] = list(t)

    def get_window_extent(self, *a):
        return Obj(height=400.0, width=600.0)

    def get_position(self, *a):
        return Obj(bounds=(0.1, 0.2, 0.3, 0.4), x0=0.1, y0=0.2, width=0.3, height=0.4, x1=0.4, y1=0.6)

    def get_legend_handles_labels(self):
        return [Artist() for _ in self.labels], list(self.labels)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Artist()


class Axis(Artist):
    def __init__(self, ax, which):
        self.ax, self.which = ax, which

    def set_ticks(self, t, labels=None, **k):
        self.ax.ticks[self.which] = list(t)
        if labels is not None:
            self.ax.ticks[self.which + "labels"] = list(labels)

    def set_ticklabels(self, t, **k):
        self.ax.ticks[self.which + "labels"] = list(t)


class Figure(Artist):
    def __init__(self):
        self.axes, self.closed = [], False
        self.canvas = Artist()

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def get_axes(self):
        return self.axes

    def get_size_inches(self):
        return np.array([25.0, 15.0])

    def colorbar(self, *a, **k):
        return Obj(ax=self.add_subplot())

    def savefig(self, name, *a, **k):
        self.book.saved.append((str(name), self))


class Book:
    """Stands in for matplotlib.pyplot: `figures` in order of creation, `saved` (name, figure), `shown`."""

    def __init__(self):
        self.figures, self.saved, self.shown = [], [], 0

    def figure(self, *a, **k):
        f = Figure()
        f.book = self
        self.figures.append(f)
        return f

    def subplots(self, nrows=1, ncols=1, *a, **k):
        f = self.figure()
        ax = [f.add_subplot() for _ in range(nrows * ncols)]
        return f, ax[0] if len(ax) == 1 else np.array(ax, dtype=object).reshape((nrows, ncols)).squeeze()

    def gcf(self):
        return self.figures[-1]

    def subplot2grid(self, *a, fig=None, **k):
        return (fig or self.gcf()).add_subplot()

    def savefig(self, name, *a, **k):
        self.gcf().savefig(name)

    def show(self, *a, **k):
        self.shown += 1

    def close(self, *a, **k):
        pass

    tight_layout = subplots_adjust = close

    @contextlib.contextmanager
    def rc_context(self, *a, **k):
        yield

    @contextlib.contextmanager
    def recording(self):
        import matplotlib.pyplot as plt

        names = [n for n in ("figure", "subplots", "gcf", "subplot2grid", "savefig", "show", "close", "tight_layout",
                             "subplots_adjust", "rc_context")]
        saved = {n: getattr(plt, n) for n in names}
        try:
            for n in names:
                setattr(plt, n, getattr(self, n))
            yield self
        finally:
            for n, v in saved.items():
                setattr(plt, n, v)


def instant(x):
    """Seconds of what was put on a time axis."""
    import datetime

    import pandas as pd
    from obspy import UTCDateTime

    from qmv.symtime import SymDatetime, sec

    if isinstance(x, SymDatetime):
        return sec(x.t)
    if isinstance(x, UTCDateTime):
        return sec(x)
    if isinstance(x, np.datetime64):
        x = pd.Timestamp(x).to_pydatetime()
    if isinstance(x, (pd.Timestamp, datetime.datetime)):
        return sec(UTCDateTime(x.replace(tzinfo=None)))
    if isinstance(x, (float, np.floating)):  # days, as in matplotlib
        return sec(UTCDateTime(0) + float(x) * 86400)
    return None
