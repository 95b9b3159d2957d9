# -*- coding: utf-8 -*-
"""Stand-ins around the GaussianPicker."""

import pathlib

import numpy as np

from qmv.props.common import Obj, values
from qmv.symtime import at


ORIGIN, STEP = np.array([0.0, 0.25, 2.5]), 0.25  # of the grid
NODE = [4, 7, 2]  # of the event


class LUT:
    def __init__(self, tt, fraction_tt=0.1):
        self.tt, self.fraction_tt = tt, fraction_tt
        self.unit_conversion_factor = 1000.0

    def index2coord(self, value, inverse=False, unravel=False):
        v = np.asarray(value, dtype=float).reshape(-1, 3)
        if inverse:
            return np.rint((v - ORIGIN) / STEP).astype(int)
        return ORIGIN + v * STEP

    def traveltime_to(self, phase, ijk, station=None):
        """The given traveltimes at the node of the hypocentre, others elsewhere."""
        at_event = np.array_equal(np.asarray(ijk, dtype=float).reshape(-1), NODE)
        return np.array([self.tt[station][phase] + (0 if at_event else 3)], dtype=object)


def onset_stub(onsets, rate, starttime, halfwidth=2, filtered=None):
    from quakemigrate.signal.onsets.base import Onset, OnsetData

    class Stub(Onset):
        pre_pad = 0
        post_pad = 0

        def __init__(self):
            self.sampling_rate = rate
            self.phases = ["P", "S"]
            self.channel_maps = {"P": "*Z", "S": "*[N,E]"}
            self.seen = []
            self.serve = (onsets, starttime)

        def gaussian_halfwidth(self, phase):
            return halfwidth

        def calculate_onsets(self, data, *a, **k):
            self.seen.append((data, a, k))
            now, start = self.serve
            n = len(next(iter(next(iter(now.values())).values())))
            return None, OnsetData(now, self.phases, self.channel_maps, filtered, {}, start, start + (n - 1) / rate, rate)

    return Stub()


def event(ctx, mw, otime, trigger=None, uid="20210101000000000", xyz=(1.0, 2.0, 3.0)):
    from quakemigrate.io.event import Event

    ev = Event(mw, dict(EventID=uid, CoaTime=trigger if trigger is not None else otime,
                        TRIG_COA=5.0, COA=6.0, COA_NORM=1.5))
    ev.otime = otime
    ev.locations = {"spline": dict(zip("XYZ", xyz))}
    ev.data = Obj()
    return ev


def before(ctx, pk, onset, lut, run, stations, phases, rate):
    """The picker has been used for another event: elsewhere, at another time, with another window and fraction of traveltime."""
    now = onset.serve, lut.tt, lut.fraction_tt
    n = 24
    peak = [9.0 if 11 <= i < 14 else 1.25 + 0.625 * (i % 3) for i in range(n)]
    onset.serve = {s: {p: np.array(peak) for p in phases} for s in stations}, at(ctx, 7200.0)
    lut.tt = {s: {p: (11 + 4 * i) / rate - 3 for i, p in enumerate(phases)} for s in stations}  # 3 s more away from the node
    lut.fraction_tt = 0.25
    ev, df = pk.pick_phases(event(ctx, 1 / rate, at(ctx, 7200.0), uid="20210101020000000", xyz=(0.5, 1.0, 2.75)), lut, run)
    onset.serve, lut.tt, lut.fraction_tt = now
    return ev, df


def run_at(scratch):
    return Obj(path=pathlib.Path(scratch), subname="", name="run")
