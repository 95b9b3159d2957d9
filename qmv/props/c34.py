# -*- coding: utf-8 -*-
"""C34: cut waveform files."""

import pathlib
import shutil

import numpy as np

from qmv.props import rig
from qmv.props.c10 import ctx_frac
from qmv.props.c22 import _ends, _near, _value
from qmv.props.common import Obj, time_env
from qmv.symtime import at, sec

ASSUMPTIONS = ["times are exact reals; sample values are fixed distinct tags",
               "the cut window overlaps the data in time; samples within 0.1 % of the half-sample point are left open"]
STUBS = ["Trace.detrend leaves the data alone; Trace.simulate and remove_response only mark the trace "
         "(their filters are ObsPy's); the response inventory serves fixed poles and zeros or fails",
         "Stream.write is recorded; the replay writes and reads real miniSEED files"]
BASE_ZEROS = 2


class Inventory:
    def __init__(self, missing):
        self.missing = missing
        self.asked = []

    def get_response(self, tid, when):
        self.asked.append((tid, when))
        if tid in self.missing:
            raise Exception("No matching response information found.")
        from qmv.props.c38 import make_response

        return make_response(1.0, 2.0, "geophone")


class Marks:
    """Instrument corrections mark the traces."""

    def __init__(self, bad):
        self.bad = bad

    def __enter__(self):
        import obspy.core.trace as ot

        self.T = ot.Trace
        self.saved = {n: getattr(ot.Trace, n) for n in ("detrend", "simulate", "remove_response")}
        bad = self.bad

        def mark(tr, m):
            if tr.id in bad:
                raise ValueError("response removal failed")
            tr.stats.qmv = list(tr.stats.get("qmv", [])) + [m]
            return tr

        def simulate(tr, paz_remove=None, paz_simulate=None, **k):
            if paz_remove is not None:
                mark(tr, f"removed to {'DISP' if len(paz_remove['zeros']) == BASE_ZEROS + 1 else 'VEL'}"
                     if len(paz_remove["zeros"]) in (BASE_ZEROS, BASE_ZEROS + 1) else "removed to something else")
            if paz_simulate is not None:
                mark(tr, "simulated")
            return tr

        def remove_response(tr, inventory=None, output="VEL", **k):
            inventory.get_response(tr.id, tr.stats.starttime) if tr.id not in inventory.missing else None
            if tr.id in inventory.missing:
                raise ValueError("No matching response information found.")
            return mark(tr, f"removed to {output}")

        self.T.detrend = lambda tr, *a, **k: tr
        self.T.simulate, self.T.remove_response = simulate, remove_response
        return self

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(self.T, n, v)


def cut(ctx, rate, layout, cuts, kinds=("raw",), units="displacement", missing=(), bad=(), mags=(), off=0.0,
        window=3, full=False, flat=(), fmt="MSEED"):
    import obspy
    from obspy import Stream, Trace

    from quakemigrate.io.cut_waveforms import write_cut_waveforms
    from quakemigrate.io.data import WaveformData

    f = ctx_frac(rate) if ctx.symbolic else 1.0 / rate
    t0 = 3600
    scratch = pathlib.Path(rig.scratch_dir("c34"))
    swrite = Stream.write
    store = {}
    try:
        raw = Stream()
        for key, (a, b) in layout.items():
            s, c = key.split(".")[:2]
            vals = [5 if key in flat else _value(s, c, k) for k in range(a, b)]
            raw += Trace(data=np.array(vals, dtype=np.int32),
                         header=dict(network="NW", station=s, channel=c, sampling_rate=rate,
                                     starttime=at(ctx, t0) + (a + off) / rate))
        ids = {"NW.%s..%s" % tuple(k.split(".")[:2]) for k in layout}
        inv = Inventory([f"NW.{m.split('.')[0]}..{m.split('.')[1]}" for m in missing])
        d = WaveformData(at(ctx, t0), at(ctx, t0 + 4 * f), stations=["STA"], response_inv=inv,
                         remove_full_response=full)
        d.raw_waveforms = raw
        ot = ctx.real("origin_time", -window / rate, window / rate)
        pre, post = [c if c is None or isinstance(c, (int, float)) else
                     ctx.real(n, c[0] / rate, c[1] / rate) for n, c in zip(("pre_cut", "post_cut"), cuts)]
        ev = Obj(uid="20210101010000000", otime=at(ctx, t0 + ot), data=d)
        run = Obj(path=scratch, subname="sub", name="run", stage="locate")
        with Marks(["NW.%s..%s" % tuple(b.split(".")) for b in bad]):
            for m in mags:  # amplitudes were measured before, on part of the data
                for tr in raw.select(station=m.split(".")[0], channel=m.split(".")[1]).copy():
                    tr.data = tr.data[1:-1]
                    tr.stats.starttime = tr.stats.starttime + tr.stats.delta
                    d.get_wa_waveform(tr, velocity=False)

            def write(st, filename, format=None, **k):
                store[str(pathlib.Path(filename).relative_to(scratch))] = (st.copy(), format)
                if not ctx.symbolic and fmt == "MSEED":
                    swrite(st, filename, format=format, **k)

            Stream.write = write
            for kind in kinds:
                write_cut_waveforms(run, ev, fmt, pre_cut=pre, post_cut=post, waveform_type=kind, units=units)
            Stream.write = swrite
        lo = ot - pre if pre else None
        hi = ot + post if post else None
        for kind in kinds:
            name = f"locate/sub/{kind}_cut_waveforms/{ev.uid}" + \
                {"MSEED": ".m", "SAC": ".sac", "SEGY": ".segy", "GSE2": ".gse2"}.get(fmt, ".waveforms")
            got, seen = {}, store.get(name)
            if seen is not None:
                st, form = seen
                ctx.check(form == fmt, "file format")
                if not ctx.symbolic and fmt == "MSEED":
                    marks = {tr.id: tr.stats.get("qmv", []) for tr in st}
                    st = obspy.read(str(scratch / name))
                    for tr in st:
                        tr.stats.qmv = marks[tr.id]
                for tr in st:
                    key = f"{tr.stats.station}.{tr.stats.channel}"
                    first = sec(tr.stats.starttime) - t0
                    ctx.check(len(tr.data) > 0, "no empty channels")
                    want = {"raw": [], "real": ["removed to " + ("VEL" if units == "velocity" else "DISP")],
                            "wa": ["removed to " + ("VEL" if units == "velocity" else "DISP"), "simulated"]}[kind]
                    ctx.check(list(tr.stats.get("qmv", [])) == want, f"{kind}: processed as asked")
                    seg = [k for k in layout if k.startswith(key)]
                    for j in range(len(tr.data)):
                        if key in flat:
                            g = (first + j * f) * rate
                            g = g if not ctx.symbolic or isinstance(g, (int, float)) else float(ctx.concretize_real(g))
                            k = int(round(float(g) - off))
                            ctx.check(int(tr.data[j]) == 5, "sample value")
                        else:
                            ks = [k for x in seg for k in range(*layout[x]) if _value(*key.split("."), k) == tr.data[j]]
                            ctx.check(len(ks) == 1, "known sample")
                            k = ks[0]
                        e = first + j * f - (k + off) * f
                        ctx.check(ctx.all([e < 1e-5, e > -1e-5]), f"{kind}: sample keeps its time")
                        got.setdefault(key, []).append(k)
            for key in sorted({".".join(k.split(".")[:2]) for k in layout}):
                ks = [k for x in layout if x.startswith(key) for k in range(*layout[x])]
                have = got.get(key, [])
                ctx.check(len(set(have)) == len(have), f"{kind}: no sample twice")
                if kind != "raw" and (key in missing or key in bad or key in flat):
                    ctx.check(not have, "channels without response or signal are left out")
                    continue
                prev = None
                for k in ks:
                    end = [(x + off) * f for x in _ends(ks, k, 10**6)]
                    a, b = _near(ctx, (k + off) * f, lo if lo is not None else -10**6, hi if hi is not None else 10**6,
                                 f / 2, end)
                    if kind != "raw" and not have:  # a single sample carries no signal
                        a, prev = ctx.all([a, prev]) if prev is not None else False, a
                    ctx.check(ctx.not_(b) if k in have else ctx.not_(a),
                              f"{kind}: exactly the samples between the cuts")
    finally:
        Stream.write = swrite
        shutil.rmtree(scratch, ignore_errors=True)


def cases(tier):
    A = {"STA.HHZ": [-6, 6], "STB.HHN": [-6, 6]}
    B = {"STA.HHZ": [-6, 6], "STA.HHN": [-6, -1], "STB.HHZ": [1, 6], "STB.HHE": [-6, 6]}
    G = {"STA.HHZ": [-6, -1], "STA.HHZ.2": [1, 6], "STB.HHZ": [-6, 6]}
    ALL = ("raw", "real", "wa")
    C = [[1, 2], [1, 2]]
    out = [
        dict(rate=1, layout=A, cuts=[None, None]),
        dict(rate=4, layout=A, cuts=C),
        dict(rate=1, layout=B, cuts=C),
        dict(rate=1, layout=B, cuts=[0.0, [1, 2]], off=0.3),
        dict(rate=4, layout=B, cuts=[[1, 2], None], kinds=ALL),
        dict(rate=4, layout=A, cuts=C, kinds=ALL, units="velocity"),
        dict(rate=1, layout=B, cuts=[None, None], kinds=ALL, missing=["STA.HHZ"], bad=["STB.HHE"]),
        dict(rate=1, layout=A, cuts=C, kinds=("wa", "real"), missing=["STA.HHZ"]),
        dict(rate=1, layout=A, cuts=[None, None], kinds=ALL, mags=["STA.HHZ"]),
        dict(rate=1, layout=A, cuts=[None, None], kinds=("real", "wa"), mags=["STA.HHZ"], units="velocity"),
        dict(rate=1, layout=A, cuts=C, kinds=ALL, mags=["STA.HHZ", "STB.HHN"]),
        dict(rate=1, layout=A, cuts=C, kinds=ALL, full=True, missing=["STB.HHN"]),
        dict(rate=1, layout=A, cuts=[None, None], kinds=("real",), flat=["STB.HHN"]),
        dict(rate=1, layout=G, cuts=C),
    ] + [dict(rate=1, layout=A, cuts=[None, [1, 2]], fmt=x) for x in ("SAC", "SEGY", "GSE2", "PICKLE")]
    if tier == "thorough":
        out += [dict(rate=r, layout=x, cuts=c, kinds=ALL, units=u, off=o, window=6) for r in (1, 4, 50) for x in (A, B, G)
                for c in (C, [[1, 6], 0.0], [None, [1, 6]]) for u, o in (("velocity", 0.0), ("displacement", 0.45))]
    return out


HARNESSES = [
    dict(name="cut", fn=cut, cases=cases, env=time_env, subproc=True,
         expect=["raw: exactly the samples between the cuts", "real: exactly the samples between the cuts",
                 "wa: exactly the samples between the cuts", "raw: sample keeps its time",
                 "channels without response or signal are left out", "real: processed as asked", "wa: processed as asked"],
         bounds="<=4 traces of <=12 samples at 1 and 4 Hz, any origin time within three samples of the middle, cuts of "
                "any length between 1 and 2 samples (6 thorough) or none, response missing or removal failing for any "
                "one or two channels, amplitudes measured before or not"),
]
