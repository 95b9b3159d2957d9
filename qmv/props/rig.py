# -*- coding: utf-8 -*-
"""A QuakeScan object around stand-ins for the archive, the lookup table and the onset function."""

import os
import tempfile

import numpy as np
import pandas as pd

from qmv.props.common import core_env, int_table, time_env

STATIONS = ["STA", "STB"]
PHASES = ["P", "S"]


def scan_env():
    import quakemigrate.util as util

    return time_env() + core_env() + [(util, "logger", lambda *a, **k: None)]


class Archive:
    """Records the requests; fails on the windows named in `fail`."""

    def __init__(self, fail=()):
        self.stations = pd.Series(STATIONS, name="Name")
        self.fail = dict(fail)
        self.requests = []

    def __str__(self, response_only=False):
        return ""

    def read_waveform_data(self, starttime, endtime, pre_pad=0.0, post_pad=0.0):
        import quakemigrate.util as util
        from quakemigrate.io.data import WaveformData

        i = len(self.requests)
        self.requests.append((starttime, endtime, pre_pad, post_pad))
        kind = self.fail.get(str(i), self.fail.get(i))
        if kind == "empty":
            raise util.ArchiveEmptyException
        if kind == "gap":
            raise util.DataGapException
        d = WaveformData(starttime, endtime, stations=self.stations, pre_pad=pre_pad, post_pad=post_pad)
        d.qmv_index, d.qmv_kind = i, kind
        return d


class LUT:
    unit_conversion_factor = 1000.0
    fraction_tt = 0.1

    def __init__(self, ctx, tt, max_traveltime):
        self.tt, self.ctx, self.max_traveltime = tt, ctx, max_traveltime
        self.served = []

    def serve_traveltimes(self, sampling_rate, availability=None):
        self.served.append((sampling_rate, availability))
        keys = [k for k, v in availability.items() if v == 1]
        rows = [[self.tt[k][n] for k in keys] for n in range(len(self.tt[keys[0]]))]
        return int_table(self.ctx, rows).reshape(len(rows), 1, 1, len(keys))

    def index2coord(self, value, inverse=False, unravel=False):
        v = np.asarray(value)
        if unravel:
            v = v.reshape(-1)
        else:  # indices into the (n, 1, 1) grid of nodes
            if v.ndim == 0 or v.shape[-1] != 3 or inverse:
                raise ValueError("not node indices")
            v = v.reshape(-1, 3)[:, 0]
        return np.array([[10.0 + k, -5.0 - k, 0.5 * k] for k in v], dtype=float)


def make_onset(ctx, rate, pads, values_for, availability, plain=False):
    """An Onset whose onset functions carry the tags values_for(window, row, sample)."""
    from quakemigrate.signal.onsets.base import Onset, OnsetData

    class Tagged(Onset):
        def __init__(self):
            super().__init__(sampling_rate=rate)
            self.phases = PHASES
            self.calls = []

        def pad(self, timespan):
            self.calls.append(timespan)
            return pads(timespan) if callable(pads) else pads if pads else super().pad(timespan)

        @property
        def pre_pad(self):
            return self._pre_pad

        @pre_pad.setter
        def pre_pad(self, v):
            self._pre_pad = v

        @property
        def post_pad(self):
            return self._post_pad

        @post_pad.setter
        def post_pad(self, v):
            self._post_pad = v

        def calculate_onsets(self, data, *a, **k):
            import quakemigrate.util as util

            if data.qmv_kind == "availability":
                raise util.DataAvailabilityException
            span = (data.endtime - data.starttime) * rate
            if ctx.symbolic:
                from qmv import sym
                n = span if isinstance(span, (int, float)) else sym.CTX.concretize((span + 0.5).floor().e)
                n = int(round(n)) + 1
            else:
                n = int(round(span)) + 1
            av = availability(data.qmv_index)
            rows = [r for r, k in enumerate(av) if av[k] == 1]
            on = np.array([[values_for(data.qmv_index, r, j) for j in range(n)] for r in rows], dtype=float)
            if ctx.symbolic and not plain:
                from qmv.npsym import SymArray
                on = on.astype(object).view(SymArray)
            return on, OnsetData({}, self.phases, {}, {}, av, data.starttime, data.endtime, rate)

    return Tagged()


def make_picker():
    from quakemigrate.signal.pickers.base import PhasePicker

    class NoPicks(PhasePicker):
        def pick_phases(self, event, lut, run):
            return event, None

    return NoPicks()


def scratch_dir(tag):
    return tempfile.mkdtemp(prefix=tag + "_", dir=os.environ.get("TMPDIR", "/tmp"))
