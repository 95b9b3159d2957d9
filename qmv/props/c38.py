# -*- coding: utf-8 -*-
"""C38: instrument corrections use the instrument's own response."""

import math
import pathlib
import shutil

import numpy as np
import pandas as pd

from qmv.props import rig
from qmv.props.common import time_env
from qmv.symtime import at

ASSUMPTIONS = [
    "the poles and zeros are those of a few fixed instruments; normalisation, sensitivity, water level, pre-filter and times are arbitrary",
    "the filters themselves (Trace.simulate, Trace.remove_response) are ObsPy's",
]
STUBS = ["Trace.detrend, simulate and remove_response record what they are asked for and change the data by a tag",
         "the archive's file is served by a stand-in for obspy.read; responses live in a real ObsPy Inventory"]
INSTRUMENTS = {
    "broadband": ([0j, 0j], [-0.037 + 0.037j, -0.037 - 0.037j, -251.3 + 0j]),
    "geophone": ([0j, 0j], [-19.78 + 20.2j, -19.78 - 20.2j]),
    "accelerometer": ([], [-981.0 + 1009.0j, -981.0 - 1009.0j]),
    "displacement": ([0j, 0j, 0j], [-3.0 + 4.0j, -3.0 - 4.0j]),
}
WA = {True: [-6.283185 - 4.712j, -6.283185 + 4.712j], False: [-5.49779 + 5.60886j, -5.49779 - 5.60886j]}
ORDER = {"M": 0, "M/S": 1, "M/S**2": 2, "m/s": 1, "M/S/S": 2, None: 1}
T0 = 3600


def env():
    return time_env()


def _net(zeros, poles):
    """Zeros and poles left after cancelling common ones."""
    z, p = [complex(x) for x in zeros], [complex(x) for x in poles]
    for x in list(z):
        m = next((y for y in p if abs(x - y) <= 1e-9 * (1 + abs(x))), None)
        if m is not None:
            z.remove(x)
            p.remove(m)
    return z, p


def _alike(a, b):
    b = list(b)
    for x in a:
        m = next((y for y in b if abs(x - y) <= 1e-9 * (1 + abs(x))), None)
        if m is None:
            return False
        b.remove(m)
    return not b


def same_roots(z1, p1, z2, p2):
    (z1, p1), (z2, p2) = _net(z1, p1), _net(z2, p2)
    return _alike(z1, z2) and _alike(p1, p2)


def make_response(gain, sens, kind, units="M/S", hertz=False):
    from obspy.core.inventory.response import InstrumentSensitivity, PolesZerosResponseStage, Response

    z, p = INSTRUMENTS[kind]
    if hertz:
        z, p = [x / (2 * math.pi) for x in z], [x / (2 * math.pi) for x in p]
    stage = PolesZerosResponseStage(1, 1500.0, 1.0, units, "V", "LAPLACE (HERTZ)" if hertz else "LAPLACE (RADIANS/SECOND)",
                                    1.0, list(z), list(p), 1.0)
    stage.normalization_factor = gain
    s = InstrumentSensitivity(1.0, 1.0, units, "COUNTS")
    s.value = sens
    r = Response(instrument_sensitivity=s, response_stages=[stage])
    return r


def inventory(responses):
    """[(trace id, start, end, response)]"""
    from obspy.core.inventory import Channel, Inventory, Network, Station

    stations = {}
    for tid, b, x, r in responses:
        n, s, loc, c = tid.split(".")
        stations.setdefault((n, s), []).append(
            Channel(c, loc, 0.0, 0.0, 0.0, 0.0, start_date=b, end_date=x, response=r))
    nets = {}
    for (n, s), ch in stations.items():
        nets.setdefault(n, []).append(Station(s, 0.0, 0.0, 0.0, channels=ch))
    return Inventory(networks=[Network(n, stations=v) for n, v in nets.items()], source="qmv")


class Record:
    """Corrections are recorded in the trace; a failing one raises."""

    def __init__(self, fail=(), real_full=False):
        self.fail, self.real_full = fail, real_full

    def __enter__(self):
        import obspy.core.trace as ot

        self.T = ot.Trace
        self.saved = {n: getattr(ot.Trace, n) for n in ("detrend", "simulate", "remove_response")}
        fail, saved = self.fail, self.saved

        def note(tr, what):
            tr.stats.qmv = list(tr.stats.get("qmv", [])) + [what]
            tr.data = tr.data + 1000.0
            return tr

        def detrend(tr, type="simple", **k):
            return note(tr, ("detrend", type))

        def simulate(tr, paz_remove=None, paz_simulate=None, remove_sensitivity=True, simulate_sensitivity=True, **k):
            if tr.id in fail:
                raise ValueError("correction failed")
            o = dict(dict(water_level=600.0, pre_filt=None, taper=True, taper_fraction=0.05, zero_mean=True,
                          pitsasim=True, sacsim=False, shsim=False, seedresp=None, nfft_pow2=False), **k)
            if paz_remove is not None:
                d = dict(paz_remove, zeros=list(paz_remove["zeros"]), poles=list(paz_remove["poles"]))
                note(tr, ("remove", d, dict(o), remove_sensitivity))
            if paz_simulate is not None:
                d = dict(paz_simulate, zeros=list(paz_simulate["zeros"]), poles=list(paz_simulate["poles"]))
                note(tr, ("simulate", d, dict(o), simulate_sensitivity))
            return tr

        def remove_response(tr, inventory=None, output="VEL", water_level=60, pre_filt=None, zero_mean=True,
                            taper=True, taper_fraction=0.05, **k):
            if self.real_full:
                return saved["remove_response"](tr, inventory=inventory, output=output, water_level=water_level,
                                                pre_filt=pre_filt, taper=taper, **k)
            if tr.id in fail:
                raise ValueError("correction failed")
            r = inventory.get_response(tr.id, tr.stats.starttime)
            return note(tr, ("full", r, output, dict(water_level=water_level, pre_filt=pre_filt, taper=taper,
                                                     zero_mean=zero_mean, taper_fraction=taper_fraction)))

        self.T.detrend, self.T.simulate, self.T.remove_response = detrend, simulate, remove_response
        return self

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(self.T, n, v)


def trace(tid, start, n=6, first=10):
    from obspy import Trace

    net, s, loc, c = tid.split(".")
    return Trace(data=np.arange(first, first + n, dtype=np.float64) ** 2,
                 header=dict(network=net, station=s, location=loc, channel=c, sampling_rate=10.0, starttime=start))


def archived(ctx, inv, params, traces, start):
    """Waveform data read through the archive."""
    from obspy import Stream

    import quakemigrate.io.data as qd

    scratch = pathlib.Path(rig.scratch_dir("c38"))
    saved = qd.read
    try:
        d = scratch / str(start.year) / f"{start.julday:03d}"
        d.mkdir(parents=True)
        for s in ("STA", "STB"):
            (d / f"{s}.m").write_text("x")
        qd.read = lambda f, *a, **k: Stream([t for t in traces if t.stats.station == pathlib.Path(f).name[:3]])
        kw = dict(response_inv=inv) if inv is not None else {}
        if params is not None:
            kw["response_removal_params"] = params
        a = qd.Archive(str(scratch), pd.DataFrame({"Name": ["STA", "STB"]}), archive_format="YEAR/JD/STATION", **kw)
        return a.read_waveform_data(start, start + 0.5)
    finally:
        qd.read = saved
        shutil.rmtree(scratch, ignore_errors=True)


def expect_removed(ctx, rec, gain, sens, kind, units, velocity, hertz, level, pre):
    _, d, o, rs = rec
    order = ORDER[units] - (1 if velocity else 0)
    z, p = INSTRUMENTS[kind]
    ok = same_roots(d["zeros"], d["poles"], list(z) + [0j] * max(order, 0), list(p) + [0j] * max(-order, 0))
    ctx.check(ok, "the response removed is the instrument's, in the units asked for")
    ctx.check(bool(rs), "the sensitivity is removed")
    g = gain * (2 * math.pi) ** (len(p) - len(z)) if hertz else gain
    ctx.check(near_rel(ctx, d["gain"] * d["sensitivity"], g * sens), "the scale of the response removed is the instrument's")
    ctx.check(ctx.eq(o["water_level"], level), "the water level asked for is used")
    ctx.check(_same_filter(ctx, o["pre_filt"], pre), "the pre-filter asked for is used")
    ctx.check(o["taper"] is True and bool(o["sacsim"]) and not o["pitsasim"] and not o["shsim"] and o["zero_mean"] is True
              and o["taper_fraction"] == 0.05, "the data are prepared as by ObsPy's remove_response")


def near_rel(ctx, a, b):
    """scale factors are positive"""
    d = a - b
    t = b * 1e-9
    return ctx.all([d <= t, -d <= t])


def _same_filter(ctx, a, b):
    if a is None or b is None:
        return a is None and b is None
    return len(a) == len(b) and ctx.all([ctx.eq(x, y) for x, y in zip(a, b)])


def corrected(ctx, route, kind, units="M/S", hertz=False, wood=False, velocity=True, params=("level", "pre")):
    """One trace, any scale, water level and pre-filter."""
    gain, sens = ctx.real("gain", 0.5, 1e6), ctx.real("sensitivity", 1, 1e9)
    level, pre = 60.0, None
    par = {}
    if "level" in params:
        level = par["water_level"] = ctx.real("water_level", 0, 100)
    if "pre" in params:
        pre = par["pre_filt"] = [ctx.real(f"f{i}", i + 0.1, i + 1) for i in range(4)]
    if route == "full":
        par["remove_full_response"] = True
    gg = 1.0 if route == "full" else gain
    resp = make_response(1.0, 1.0, kind, units, hertz)
    set_scale(resp, gg, sens)
    tid = "NW.STA.00.HHZ"
    other = make_response(3.0, 5.0, "geophone" if kind != "geophone" else "broadband")
    inv = inventory([("NW.STA.10.HHZ", None, None, other), (tid, None, None, resp),
                     ("NW.STA.00.HHN", None, None, other), ("XX.STA.00.HHZ", None, None, other)])
    start = at(None, T0)
    tr = trace(tid, start)
    with Record():
        data = archived(ctx, inv, par, [tr, trace("NW.STA.10.HHZ", start, first=30)], start)
        ctx.check(data.real_waveforms is None and data.wa_waveforms is None, "nothing is corrected before it is asked for")
        before = (tr.data.copy(), tr.stats.copy())
        # other corrections of the same channel do not matter: other samples, other units
        earlier = trace(tid, start + 40, n=9, first=70)
        data.get_real_waveform(earlier, velocity=not velocity)
        if wood:
            data.get_wa_waveform(earlier, velocity=not velocity)
        skip = 1 + wood
        outs = []
        for _ in range(2):  # corrections do not depend on earlier ones
            # a real waveform is velocity and a Wood-Anderson one displacement unless the other is asked for
            how = {} if velocity != wood else {"velocity": velocity}
            outs.append(data.get_wa_waveform(tr, **how) if wood else data.get_real_waveform(tr, **how))
    ctx.check(list(before[0]) == list(tr.data) and "qmv" not in tr.stats and tr.stats.starttime == before[1].starttime,
              "the trace given is left alone")
    ctx.check(data.real_waveforms is not None and len(data.real_waveforms) == 2 + skip, "the real waveforms are kept")
    ctx.check((data.wa_waveforms is not None and len(data.wa_waveforms) == 3) if wood else data.wa_waveforms is None,
              "the Wood-Anderson waveforms are kept, if there are any")
    for i, out in enumerate(outs):
        for j, t in enumerate([out, data.real_waveforms[i + skip]] + ([data.wa_waveforms[i + 1]] if wood else [])):
            sim = wood and j != 1
            ctx.check(t.id == tid and t.stats.starttime == start and len(t.data) == len(tr.data), "the same trace comes back")
            recs = [r for r in t.stats.qmv if r[0] != "detrend"]
            ctx.check(list(t.data) == [x + 1000.0 * len(t.stats.qmv) for x in before[0]], "the waveform kept is the corrected one")
            ctx.check(("detrend", "linear") in t.stats.qmv[:1], "linear trends are removed first")
            ctx.check([r[0] for r in recs] == ["full" if route == "full" else "remove"] + ["simulate"] * sim,
                      "one response is removed, and a Wood-Anderson simulated exactly for the Wood-Anderson waveform")
            if route == "full":
                _, r, output, o = recs[0]
                ctx.check(output == ("VEL" if velocity else "DISP"), "the response removed is the instrument's, in the units asked for")
                ctx.check(ctx.eq(r.instrument_sensitivity.value, sens), "the scale of the response removed is the instrument's")
                ctx.check(ctx.eq(o["water_level"], level), "the water level asked for is used")
                ctx.check(_same_filter(ctx, o["pre_filt"], pre), "the pre-filter asked for is used")
                ctx.check(o["taper"] is True and o["zero_mean"] is True and o["taper_fraction"] == 0.05,
                          "the data are prepared as by ObsPy's remove_response")
            else:
                expect_removed(ctx, recs[0], gain, sens, kind, units, velocity, hertz, level, pre)
            if sim:
                _, d, o, ss = recs[1]
                ctx.check(same_roots(d["zeros"], d["poles"], [0j, 0j], WA[True]) and d["gain"] * d["sensitivity"] == 2080.0 and bool(ss),
                          "the Wood-Anderson simulated has the standard response")
                ctx.check(not o["pitsasim"] and not o["shsim"], "the data are prepared as by ObsPy's remove_response")


def set_scale(resp, gain, sens):
    resp.instrument_sensitivity.__dict__["value"] = sens
    st = resp.response_stages[0]
    st.__dict__["normalization_factor"] = gain


def epochs(ctx, route, wood=False):
    """Two epochs of the same channel; the one at the start of the trace is used."""
    switch = at(None, T0)
    tid = "NW.STA.00.HHZ"
    inv = inventory([(tid, None, switch, make_response(1.0, 7.0, "broadband")),
                     (tid, switch, None, make_response(1.0, 11.0, "geophone"))])
    s = ctx.real("start", -2, 2)
    ctx.assume(s != 0)
    tr = trace(tid, at(ctx, T0 + s))
    from quakemigrate.io.data import WaveformData

    data = WaveformData(at(None, T0 - 2), at(None, T0 + 3), stations=["STA"], response_inv=inv,
                        remove_full_response=route == "full")
    with Record():
        # after a trace of either epoch was corrected
        data.get_real_waveform(trace(tid, at(None, T0 + (-10 if ctx.choose("earlier", [False, True]) else 10))))
        t = data.get_wa_waveform(tr) if wood else data.get_real_waveform(tr)
    first = bool(s < 0)
    rec = [r for r in t.stats.qmv if r[0] in ("remove", "full")][0]
    want = 7.0 if first else 11.0
    got = rec[1].instrument_sensitivity.value if route == "full" else rec[1]["sensitivity"]
    ctx.check(got == want, "the response is that of the start of the trace")
    if route != "full":
        ctx.check(same_roots([], rec[1]["poles"], [], INSTRUMENTS["broadband" if first else "geophone"][1]),
                  "the response is that of the start of the trace")


FAULTS = ["none", "no channel", "no stages", "no paz", "no sensitivity", "failed", "no response", "digital"]


def faults(ctx, route, wood):
    """A trace whose response cannot be found or removed is reported as such, and leaves nothing."""
    import quakemigrate.util as util
    from quakemigrate.io.data import WaveformData

    f = ctx.choose("fault", [x for x in FAULTS if route == "default" or x not in ("digital", "no paz", "no sensitivity")])
    order = ctx.choose("bad_first", [False, True])
    good, bad = "NW.STB.00.HHZ", "NW.STA.00.HHZ"
    r = make_response(2.0, 100.0, "broadband")
    if f == "no paz":
        from obspy.core.inventory.response import CoefficientsTypeResponseStage

        r.response_stages = [CoefficientsTypeResponseStage(1, 1.0, 1.0, "M/S", "COUNTS", "DIGITAL", numerator=[1.0], denominator=[])]
    elif f == "no stages":
        r.response_stages = []
    elif f == "no sensitivity":
        r.instrument_sensitivity = None
    elif f == "digital":
        r.response_stages[0].pz_transfer_function_type = "DIGITAL (Z-TRANSFORM)"
    elif f == "no response":
        r = None
    resp = [(good, None, None, make_response(3.0, 50.0, "geophone"))]
    if f != "no channel":
        resp.append((bad, None, None, r))
    data = WaveformData(at(None, T0), at(None, T0 + 0.5), stations=["STA", "STB"], response_inv=inventory(resp),
                        remove_full_response=route == "full")
    start = at(None, T0)
    out = {}
    # the full removal's own failures are ObsPy's
    with Record([bad] if f == "failed" else [], real_full=route == "full" and f not in ("none", "failed")):
        for tid in [bad, good] if order else [good, bad]:
            if data_real(ctx, route, f, tid, good):
                continue
            try:
                out[tid] = data.get_wa_waveform(trace(tid, start)) if wood else data.get_real_waveform(trace(tid, start))
            except (util.ResponseNotFoundError, util.ResponseRemovalError) as e:
                ctx.check(tid in str(e), "the error names the trace")
                out[tid] = None
    ctx.check((out[bad] is None) == (f != "none"), "a trace whose response cannot be found or removed is reported as such")
    if good in out:
        ctx.check(out[good] is not None, "other traces are corrected")
    n = sum(1 for t in out.values() if t is not None)
    for st in [data.real_waveforms] + ([data.wa_waveforms] if wood else []):
        ctx.check(len(st or []) == n, "exactly the corrected traces are kept")


def data_real(ctx, route, f, tid, good):
    """ObsPy's full removal is only run on the faulty trace"""
    return tid == good and route == "full" and f not in ("none", "failed")


def defaults(ctx):
    """Without parameters: water level 60, no pre-filter; without inventory: an error."""
    inv = inventory([("NW.STA.00.HHZ", None, None, make_response(2.0, 100.0, "broadband"))])
    start = at(None, T0)
    tr = trace("NW.STA.00.HHZ", start)
    v = ctx.choose("velocity", [True, False])
    wood = ctx.choose("wood", [True, False])
    which = ctx.choose("given", ["nothing", "none", "inventory"])
    with Record():
        data = archived(ctx, inv if which == "inventory" else None, {} if which == "none" else None, [tr], start)
        try:
            t = (data.get_wa_waveform if wood else data.get_real_waveform)(tr, velocity=v)
        except AttributeError:
            t = None
    ctx.check((t is None) == (which != "inventory"), "without an inventory, corrections are refused")
    if t is not None:
        rec = [r for r in t.stats.qmv if r[0] == "remove"]
        ctx.check(len(rec) == 1, "the default route removes poles and zeros")
        expect_removed(ctx, rec[0], 2.0, 100.0, "broadband", "M/S", v, False, 60.0, None)
    else:
        ctx.check(not data.real_waveforms and not data.wa_waveforms, "without an inventory, nothing is kept")


def standard(ctx):
    """The Wood-Anderson responses."""
    from quakemigrate.util import wa_response

    first = ctx.choose("first", ["DIS2DIS", "VEL2VEL", "VEL2DIS"])
    convert = ctx.choose("convert", ["DIS2DIS", "VEL2VEL", "VEL2DIS"])
    obspy_def = ctx.choose("obspy", [True, False])
    wa_response(first, obspy_def)["zeros"].append(1j)  # a response handed out is the caller's own
    d = wa_response(convert, obspy_def)
    ctx.check(same_roots(d["zeros"], d["poles"], [0j] * (1 if convert == "VEL2DIS" else 2), WA[obspy_def])
              and d["gain"] * d["sensitivity"] == 2080.0, "the Wood-Anderson responses are the published ones")


def cases_c(tier):
    out = []
    for kind, units, hertz in (("broadband", "M/S", False), ("accelerometer", "M/S**2", False), ("geophone", "M/S", True),
                               ("displacement", "M", False), ("broadband", None, False), ("accelerometer", "M/S/S", True),
                               ("geophone", "m/s", False)):
        for wood, velocity in ((False, True), (False, False), (True, False), (True, True)):
            if kind == "displacement" and hertz:
                continue
            out.append(dict(route="default", kind=kind, units=units, hertz=hertz, wood=wood, velocity=velocity))
    for wood, velocity in ((False, True), (False, False), (True, False), (True, True)):
        out.append(dict(route="full", kind="broadband", wood=wood, velocity=velocity))
    out.append(dict(route="default", kind="broadband", params=()))
    out.append(dict(route="full", kind="broadband", params=("pre",), wood=True, velocity=False))
    out.append(dict(route="default", kind="broadband", params=("level",), wood=True, velocity=False))
    return out


def cases_r(tier):
    return [dict(route=r, wood=w) for r in ("default", "full") for w in (False, True)]


HARNESSES = [
    dict(name="corrected", fn=corrected, env=env, cases=cases_c,
         expect=["the response removed is the instrument's, in the units asked for", "the scale of the response removed is the instrument's",
                 "the Wood-Anderson simulated has the standard response", "the water level asked for is used",
                 "the pre-filter asked for is used", "the trace given is left alone"],
         bounds="four instruments, any normalisation, sensitivity, water level and pre-filter, both routes, units and outputs, twice in a row"),
    dict(name="epochs", fn=epochs, env=env, cases=cases_r, expect=["the response is that of the start of the trace"],
         bounds="a trace starting within 2 s of the change of the response"),
    dict(name="faults", fn=faults, env=env, cases=cases_r,
         expect=["a trace whose response cannot be found or removed is reported as such", "exactly the corrected traces are kept"],
         bounds="two traces, any of 8 faults of one, either order"),
    dict(name="defaults", fn=defaults, env=env, cases=lambda tier: [{}], expect=["without an inventory, corrections are refused"],
         bounds="every combination of inventory, parameters, output"),
    dict(name="standard", fn=standard, cases=lambda tier: [{}], expect=["the Wood-Anderson responses are the published ones"],
         bounds="every definition, after any other was handed out and altered"),
]
