# -*- coding: utf-8 -*-
"""C43: summary figures show the values of their run and change none of them."""

import pathlib
import shutil

import numpy as np
import pandas as pd

from qmv.props import figs, lutrig, pickrig, rig
from qmv.props.c20 import Fit
from qmv.props.common import Obj, col, csv_env, event_env, make_trigger, time_env, values
from qmv.symtime import at, sec

ASSUMPTIONS = [
    "what a figure shows is what is handed to the axes (curves, points, lines, spans, patches, meshes); styling and layout are "
    "not looked at",
]
STUBS = ["matplotlib.pyplot's figures and axes record what they are given; patches are Matplotlib's own",
         "read_scanmseed returns the synthetic scan; real lookup table over an affine projection; availability files are real"]
DAY = 86400
TOL = 2e-6


def env():
    return time_env() + csv_env() + event_env()


def near(ctx, a, b, tol=TOL):
    d = a - b
    return ctx.all([d <= tol, d >= -tol])


def same(ctx, got, want, tol=TOL):
    """lists of numbers (or times in seconds) agree"""
    if len(got) != len(want) or any(g is None for g in got):
        return False
    return ctx.all([near(ctx, g, w, tol) for g, w in zip(got, want)])


def instants(xs):
    return [figs.instant(x) for x in xs]


def shows(ctx, curves, x, y, time=True, where=None):
    """some curve is y against x"""
    return ctx.any([ctx.all([same(ctx, instants(c.x) if time else c.x, x), same(ctx, c.y, y)]) for c in curves
                    if len(c.y) == len(y) and (where is None or c.where == where)])


def one_of(ctx, pairs, want):
    return ctx.any([same(ctx, p, want) for p in pairs if all(v is not None for v in p)])


def table_lut(ctx, names=("A", "B"), units="km"):
    k = 1.0 if units == "km" else 1000.0
    lut = lutrig.make(ctx, (0.0, 0.0, 0.0), (3.8 * k, 2.8 * k, 1.8 * k), (k, k, k), units)
    lut.station_data = lutrig.stations(list(names), [[k * (0.5 + 1.25 * i), k * (2.0 - 0.75 * i), -0.25 * k * i] for i in range(len(names))])
    lut.phases = ["P", "S"]
    for i, s in enumerate(names):
        for j, ph in enumerate("PS"):
            lut.traveltimes.setdefault(s, {})[ph] = 1.5 + 0.25 * i + 1.75 * j + np.arange(60.0).reshape(5, 4, 3) / 64
    return lut


# ----------------------------------------------------------------- trigger summary
def trigger_figure(ctx, region=False, normalise=False, avail="differ", all_stns=True, where=(6, 18), name="run", sub="", used=False, axis=0):
    import quakemigrate.signal.trigger as tm
    from quakemigrate.io.availability import write_availability

    t0, n, span = 40 * DAY + 3600, 30, 24
    mw = ctx.real("marginal_window", 0.5, 1.5)
    mei = ctx.real("min_event_interval", 3.0, 4.0)
    level = ctx.real("threshold", 3, 4)
    start = t0 + 3
    times = [t0 + k for k in range(n)]
    coa = [1.0 + 0.015625 * k for k in range(n)]
    coan = [1.5 + 0.0078125 * k for k in range(n)]
    xyz = [[0.25 * k, 0.125 * k, 0.0625 * k] for k in range(n)]
    peaks = []
    for i, k in enumerate(where):
        coa[k], coan[k] = ctx.real(f"coa{i}", 5, 90), ctx.real(f"coan{i}", 5, 90)
        w = (i + axis) % 3  # the axis on which an event may be outside the region
        xyz[k] = [ctx.real(f"{c}{i}", 20 * j - (9 if j == w else 4), 20 * j + (9 if j == w else 4)) for j, c in enumerate("xyz")]
        peaks.append((times[k], coa[k], coan[k], xyz[k]))
    box = None
    if region:
        box = [-5.0, ctx.real("south", 12, 16), 34.0, 5.5, 26.5, 47.5]

    def read(run, s, e, pad, ucf):
        df = pd.DataFrame({"DT": col(ctx, [at(ctx, x) for x in times]), "COA": col(ctx, coa), "COA_N": col(ctx, coan),
                           "X": col(ctx, [p[0] for p in xyz]), "Y": col(ctx, [p[1] for p in xyz]),
                           "Z": col(ctx, [p[2] for p in xyz])})
        return df, Obj(delta=1.0, sampling_rate=1.0)

    scratch = rig.scratch_dir("c43")
    t = make_trigger(marginal_window=mw, min_event_interval=mei, pad=3.0, threshold_method="static", static_threshold=level,
                     normalise_coalescence=normalise)
    t.plot_trigger_summary, t.plot_all_stns = True, all_stns
    root = pathlib.Path(scratch) / "run"
    t.run.path, t.run.subname = root, sub
    book, rows = figs.Book(), []
    saved = tm.read_scanmseed, tm.write_triggered_events
    tm.read_scanmseed, tm.write_triggered_events = read, lambda *a, **k: None
    try:
        if avail:
            bits = {"differ": [(1, 0, 1, 1), (1, 1, 0, 0), (0, 1, 1, 1)], "same": [(1, 0, 1, 0), (1, 1, 1, 1), (0, 0, 0, 0)],
                    "single": [(1, 0), (1, 1), (0, 1)]}[avail]
            rows = [list(b) for b in bits]
            if avail != "same":
                flip = ctx.choose("window", [0, 1, 2])
                rows[flip][0] = 1 - rows[flip][0]
            cols = ["A_P", "B_P", "A_S", "B_S"][:len(rows[0])]
            df = pd.DataFrame(rows, columns=cols, index=[str(at(ctx, start + 8 * i)) for i in range(3)])
            write_availability(t.run, df)
        with lutrig.Projection(), book.recording():
            t.lut = table_lut(ctx)
            if used:  # a period without events has been looked at before
                keep = [coa[k] for k in where], [coan[k] for k in where]
                for k in where:
                    coa[k] = coan[k] = 1.0
                t.trigger(at(ctx, start), at(ctx, start + span), region=None)
                for k, a, b in zip(where, *keep):
                    coa[k], coan[k] = a, b
                ctx.check(len(book.saved) == 1, "one figure per batch in its own file")
                book.saved.clear()
            t.trigger(at(ctx, start), at(ctx, start + span), region=box)
    finally:
        tm.read_scanmseed, tm.write_triggered_events = saved
        shutil.rmtree(scratch, ignore_errors=True)
    stem = "run" + (f"_{sub}" if sub else "")
    ctx.check([s for s, _ in book.saved] == [str(root / "trigger" / sub / "summaries" / f"{stem}_2021_041_Trigger.pdf")],
              "one figure per batch in its own file")
    axes = book.saved[0][1].axes
    axc = [a for a in axes if bool(shows(ctx, a.curves, times, coa))]
    axn = [a for a in axes if bool(shows(ctx, a.curves, times, coan))]
    ctx.check(len(axc) == 1 and len(axn) == 1 and axc[0] is not axn[0], "coalescence and normalised coalescence in time")
    trace = axn[0] if normalise else axc[0]
    other = axc[0] if normalise else axn[0]
    ctx.check(shows(ctx, trace.curves, times, [level] * n), "threshold with the trace it is for")
    ctx.check(not any(len(c.y) == n and bool(same(ctx, c.y, [level] * n)) for c in other.curves), "and not with the other")
    kept, dropped = [], []
    for p in peaks:
        inside = ctx.all([p[0] >= start, p[0] <= start + span]
                         + ([p[3][j] >= box[j] for j in range(3)] + [p[3][j] <= box[j + 3] for j in range(3)] if box else []))
        (kept if bool(inside) else dropped).append(p)
    for a in (axc[0], axn[0]):
        spans, lines = [instants(s) for s in a.spans], instants(a.vlines)
        for p in kept:
            ctx.check(one_of(ctx, [[v] for v in lines], [p[0]]), "time of each event")
            ctx.check(one_of(ctx, spans, [p[0] - mw, p[0] + mw]), "marginal window of each event")
            ctx.check(ctx.any([ctx.all([one_of(ctx, spans, [p[0] - mei, p[0] - mw]), one_of(ctx, spans, [p[0] + mw, p[0] + mei])]),
                               one_of(ctx, spans, [p[0] - mei, p[0] + mei])]), "minimum event interval of each event")
        for p in dropped:
            if box:
                ctx.check(one_of(ctx, spans, [p[0] - mei, p[0] + mei]), "interval of discarded events")
            ctx.check(ctx.not_(one_of(ctx, spans, [p[0] - mw, p[0] + mw])), "discarded events are not shown as triggered")
    maps = {}
    for label, (i, j) in dict(map=(0, 1), xz=(0, 2), zy=(2, 1)).items():
        want = [p[3] for p in kept], [p[2] if normalise else p[1] for p in kept]
        for a in axes:
            if not a.meshes and not a.points:
                continue
            for q in a.points:
                if kept and q.c is not None and not isinstance(q.c, str) and len(q.x) == len(kept) and bool(ctx.all(
                        [same(ctx, q.x, [p[i] for p in want[0]]), same(ctx, q.y, [p[j] for p in want[0]]),
                         same(ctx, list(q.c), want[1])])):
                    maps.setdefault(label, a)
        if kept:
            ctx.check(label in maps, "events in map and sections, with their strength")
        if box and dropped:
            ctx.check(any(len(q.x) == len(dropped) and bool(ctx.all([same(ctx, q.x, [p[3][i] for p in dropped]),
                                                                     same(ctx, q.y, [p[3][j] for p in dropped])]))
                          for a in axes for q in a.points), "discarded events in map and sections")
        if box:
            ring = [(box[i], box[j]), (box[i], box[j + 3]), (box[i + 3], box[j + 3]), (box[i + 3], box[j])]
            outlines = [[ring[(s + d * k) % 4] for k in range(5)] for s in range(4) for d in (1, -1)]
            found = [a for a in ([maps[label]] if label in maps else axes) for c in a.curves if len(c.y) == 5 and bool(ctx.any(
                [ctx.all([same(ctx, c.x, [p[0] for p in o]), same(ctx, c.y, [p[1] for p in o])]) for o in outlines]))]
            ctx.check(len(found) >= 1, "region in map and sections")
    if kept:
        ctx.check(len({id(a) for a in maps.values()}) == 3, "map and sections are different axes")
    ctx.check(any(f"Triggered {len(kept)} event" in x for a in axes for x in a.texts), "number of events")
    ctx.check(not any(len(q.x) and q.c is not None and not isinstance(q.c, str) and len(q.x) != len(kept)
                      for a in axes for q in a.points), "only triggered events are shown as events")
    if avail:
        when = [start + 8 * i for i in range(3)] + [start + span]
        sets = [[sum(r[:2]) for r in rows], [sum(r[2:]) for r in rows]][:1 + (avail != "single")]
        for counts in sets:
            ctx.check(any(bool(shows(ctx, a.curves, when, counts + counts[-1:], where="steps-post")) for a in axes),
                      "available stations of each window")
        names = {s for s, k in zip("AB", range(2)) if all_stns or any(r[k] or (len(r) > 2 and r[k + 2]) for r in rows)}
    else:
        names = {"A", "B"}
    ctx.check(names <= {x for a in axes for x in a.texts} and ("B" in names or not any(x == "B" for a in axes for x in a.texts)),
              "stations on the map")


def trigger_cases(tier):
    out = [dict(), dict(region=True, avail="same"), dict(normalise=True, avail="single", all_stns=False), dict(where=(1, 12), avail=None),
           dict(region=True, normalise=True, where=(6,), sub="s", axis=1), dict(region=True, where=(6,), axis=2, avail="single"), dict(where=(9,), used=True)]
    if tier == "thorough":
        out += [dict(where=(6, 12, 18), region=True), dict(where=(1, 28), region=True, normalise=True)]
    return out


# ----------------------------------------------------------------- event summary
def volume(node):
    """a map whose values are all different, largest at one node"""
    m = np.arange(60.0).reshape(5, 4, 3) / 64 + 0.25
    m[tuple(node)] = 2.0
    return m


def traces(ctx, names, comps, t0, n=40, rate=4):
    from obspy import Stream, Trace

    st = Stream()
    for i, s in enumerate(names):
        for j, c in enumerate(comps):
            data = np.array([((3 * i + 5 * j + 1) * (k * k + 3) % 41 - 20) / 8.0 for k in range(n)])
            st.append(Trace(data, dict(network="N", station=s, channel="HH" + c, sampling_rate=float(rate), starttime=at(ctx, t0))))
    return st


def event_figure(ctx, units="km", node=(1, 2, 1), mag=True, all_stns=True, phases="PS", comps="ZNE", sub="", twice=False, xy=False):
    from obspy import UTCDateTime

    from quakemigrate.io.event import Event
    from quakemigrate.plot.event import event_summary
    from quakemigrate.signal.onsets.base import OnsetData

    names, t0, rate, n = ["A", "B", "C"], 36000, 2, 24
    later = ctx.real("otime", 2.01, 2.24)  # otime within one sample of the waveforms
    ot = t0 + later
    scratch = rig.scratch_dir("c43e")
    run = Obj(path=pathlib.Path(scratch) / "run", subname=sub, name="run")
    book = figs.Book()
    with lutrig.Projection():
        lut = table_lut(ctx, names, units)
        lut.phases = list(phases)
        cf = 1.0 if units == "km" else 1000.0
        tt = {s: {p: 1.5 + 0.25 * i + 1.75 * j + float((node[0] * 12 + node[1] * 3 + node[2]) / 64) for j, p in enumerate("PS")}
              for i, s in enumerate(names)}
        if ctx.choose("near", [False, True]):  # another station is the nearest
            for p in "PS":
                lut.traveltimes["A"][p] = lut.traveltimes["A"][p] + 1.0
                tt["A"][p] += 1.0
        ev = Event(1.0, dict(EventID="20210101100002123", CoaTime=at(ctx, ot + 0.375), TRIG_COA=5.0, COA=6.0, COA_NORM=1.5))
        times = [ot + (k - 3) / rate for k in range(7)]
        coa = [ctx.real(f"coa{k}", 1, 4) if k in (0, 2) else 1.5 + k / 8 for k in range(7)]
        coa[3] = ctx.real("coa_peak", 5, 9)
        ev.add_compute_output([at(ctx, t) for t in times], col(ctx, coa), np.arange(7) / 8 + 1, np.arange(21.0).reshape(7, 3),
                              None, None)
        wave = traces(ctx, names, comps, t0, n, rate)
        on = {"A_P": 1, "A_S": 1, "B_P": 0, "B_S": 0, "C_P": 0, "C_S": 1}
        ev.onset_data = OnsetData({}, list(phases), {"P": "*Z", "S": "*[N,E,1,2]"}, wave.copy(), {k: v for k, v in on.items() if k[-1] in phases},
                                  at(ctx, t0), at(ctx, t0 + (n - 1) / rate), float(rate))
        ev.data = Obj(stations=list(names), endtime=at(ctx, t0 + (n - 1) / rate))
        hyp = lutrig.coord([cf * (node[0] + 0.25), cf * (node[1] - 0.125), cf * (node[2] + 0.375)])
        gau = [hyp[0] + ctx.real("gx", -0.004, 0.004), hyp[1] + ctx.real("gy", -0.004, 0.004), hyp[2] + cf * ctx.real("gz", -0.4, 0.4)]
        err = [cf * ctx.real(f"gau_err{a}", 0.125, 3) for a in "xyz"]
        cov = [2 * cf * ctx.real("cov_err", 0.125, 3), 2.0 * cf, 0.25 * cf]
        ev.add_spline_location(np.array(hyp))
        ev.add_gaussian_location(col(ctx, gau), col(ctx, err))
        ev.locations["covariance"] = dict(zip(("X", "Y", "Z", "ErrX", "ErrY", "ErrZ"), gau + cov), Err_XYZ=cov[0])
        ml = [ctx.real("mag", -2, 4), ctx.real("mag_err", 0, 2), ctx.real("mag_r2", 0, 1)]
        if mag:
            ev.add_local_magnitude(*ml)
        vol = volume(node)
        files = None
        if xy:
            (pathlib.Path(scratch) / "faults.csv").write_text("# a line\n0.5,1.25\n0.75,1.5\n1.0,1.0\n")
            files = str(pathlib.Path(scratch) / "list.csv")
            pathlib.Path(files).write_text(f"# file,colour,width,style\n{scratch}/faults.csv,black,0.5,-\n")
        try:
            with book.recording():
                if twice:  # an earlier event elsewhere
                    was = ev.uid, ev.onset_data.filtered_waveforms
                    ev.uid, ev.onset_data.filtered_waveforms = "20210101090000000", traces(ctx, names[::-1], comps, t0, n, rate)
                    event_summary(run, ev, volume((3, 0, 2)), lut, plot_all_stns=all_stns)
                    ev.uid, ev.onset_data.filtered_waveforms = was
                    ctx.check(len(book.saved) == 1, "one figure per event in its own file")
                    book.saved.clear()
                event_summary(run, ev, vol, lut, xy_files=files, plot_all_stns=all_stns)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        unchanged(ctx, ev, wave, vol, times, coa, gau, hyp, err, node, lut, tt, names)
        corners = np.array(lutrig.coord([-0.5 * cf] * 3)), np.array(lutrig.coord([4.5 * cf, 3.5 * cf, 2.5 * cf]))
    ctx.check([s for s, _ in book.saved] == [str(run.path / "locate" / sub / "summaries" / f"run_{ev.uid}_EventSummary.pdf")],
              "one figure per event in its own file")
    axes = book.saved[0][1].axes
    # slices through the map, as seen in the map and the two sections
    views = {}
    for label, (i, j) in dict(map=(0, 1), xz=(0, 2), zy=(2, 1)).items():
        cut = vol.transpose((i, j, 3 - i - j))[:, :, node[3 - i - j]]
        for a in axes:
            for m in a.meshes:
                if len(m) == 3 and seen(m, corners, (i, j), cut):
                    views[label] = a
        ctx.check(label in views, "slices through the map")
        a = views[label]
        ctx.check(ctx.all([one_of(ctx, [[v] for v in a.vlines], [hyp[i]]), one_of(ctx, [[v] for v in a.hlines], [hyp[j]])]),
                  "hypocentre in map and sections")
        want = [gau[i], gau[j]], 2 * err[i] / lutrig.A[i], 2 * err[j] / lutrig.A[j]
        ctx.check(ctx.any([ctx.all([same(ctx, list(q.get_center()), want[0]), near(ctx, q.width, want[1]), near(ctx, q.height, want[2])])
                           for q in a.patches if hasattr(q, "width")]), "uncertainty in map and sections")
    ctx.check(len({id(a) for a in views.values()}) == 3, "map and sections are different axes")
    shown = names if all_stns else [s for s in names if any(on[f"{s}_{p}"] for p in phases)]
    pos = [[lut.station_data.iloc[names.index(s)][c] for c in ("Longitude", "Latitude")] for s in shown]
    ctx.check(any(len(q.x) == len(shown) and bool(ctx.all([same(ctx, q.x, [p[0] for p in pos]), same(ctx, q.y, [p[1] for p in pos])]))
                  for q in views["map"].points), "stations on the map")
    ctx.check(set(views["map"].texts) & set(names) == set(shown), "stations on the map")
    if xy:
        ctx.check(shows(ctx, views["map"].curves, [0.5, 0.75, 1.0], [1.25, 1.5, 1.0], time=False), "other lines on the map")
    # in time
    axc = [a for a in axes if bool(shows(ctx, a.curves, times, coa))]
    ctx.check(len(axc) == 1, "coalescence in time")
    gather = [a for a in axes if sorted(a.ticks.get("ylabels", [])) == sorted(shown)]
    ctx.check(len(gather) == 1, "a row for each station")
    for a in (axc[0], gather[0]):
        ctx.check(one_of(ctx, [[v] for v in instants(a.vlines)], [ot]), "origin time")
    g = gather[0]
    row = dict(zip(g.ticks["ylabels"], [float(y) for y in g.ticks["y"]]))
    ctx.check(len(set(row.values())) == len(shown), "a row for each station")
    for p in phases:
        for s in shown:
            ctx.check(any(len(q.x) == len(shown) and bool(ctx.any([ctx.all([near(ctx, figs.instant(x), ot + tt[s][p]), near(ctx, y, row[s])])
                                                                   for x, y in zip(q.x, q.y)])) for q in g.points), "modelled arrivals")
    chans = {"Z": "Z", "N": "N", "E": "E", "1": "1", "2": "2"}
    for s in shown:
        for tr in wave.select(station=s):
            ctx.check(any(follows(ctx, c, tr, row[s]) for c in g.curves), "waveforms in the row of their station")
    ctx.check(len(g.curves) == len(shown) * len(comps), "no other waveforms")
    text = "\n".join(t for a in axes for t in a.texts)
    ctx.check(ev.uid in text, "numbers of the event")
    rows = text.split("\n")
    for k, mark in ((1, "\u00b0N"), (0, "\u00b0E")):
        line = [r for r in rows if mark in r]
        ctx.check(len(line) == 1, "numbers of the event")
        v, e = numbers(ctx, line[0].replace(mark, " "))
        ctx.check(ctx.all([near(ctx, v, hyp[k], 6e-7), near(ctx, e, err[k] / cf, 6e-4)]), "numbers of the event")
    line = [r for r in rows if "\u00b1" in r and "km" in r and "\u00b0" not in r]
    ctx.check(len(line) == 1, "numbers of the event")
    v, e = numbers(ctx, line[0])
    ctx.check(ctx.all([near(ctx, v, hyp[2] / cf, 6e-4), near(ctx, e, err[2] / cf, 6e-4)]), "numbers of the event")
    line = [r for r in rows if "r\u00b2" in r]
    ctx.check(len(line) == (1 if mag else 0), "numbers of the event")
    if mag:
        got = numbers(ctx, line[0].replace("r\u00b2", " "))
        ctx.check(len(got) == 3 and ctx.all([near(ctx, a, b, 0.021) for a, b in zip(got, ml)]), "numbers of the event")


def seen(mesh, corners, ij, cut):
    """a mesh with the values of a cut, each in the cell around its node"""
    x, y, c = (np.asarray(np.ma.filled(v, np.nan), dtype=float) for v in mesh)
    if x.ndim != 2 or c.shape not in (cut.shape, cut.T.shape):
        return False
    i, j = ij
    nx, ny = cut.shape
    ex = corners[0][i] + (corners[1][i] - corners[0][i]) * np.arange(nx + 1) / nx
    ey = corners[0][j] + (corners[1][j] - corners[0][j]) * np.arange(ny + 1) / ny
    for d, xx, yy in ((cut, ex[:, None] + 0 * ey, ey + 0 * ex[:, None]), (cut.T, ex + 0 * ey[:, None], ey[:, None] + 0 * ex)):
        if c.shape == d.shape and x.shape == xx.shape and np.allclose(x, xx, atol=1e-9) and np.allclose(y, yy, atol=1e-9) and np.array_equal(c, d):
            return True
    return False


def numbers(ctx, text):
    import re

    return [ctx.number(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?", text)]


def follows(ctx, curve, tr, level):
    """the curve is a part of the trace, scaled and moved to the level"""
    t = instants(curve.x)
    if len(t) < 5 or any(v is None for v in t):
        return False
    first = round((float(t[0]) - sec(tr.stats.starttime)) * tr.stats.sampling_rate)
    d = tr.data[first:first + len(t)]
    if len(d) != len(t) or not bool(same(ctx, t, [sec(tr.stats.starttime) + (first + k) / tr.stats.sampling_rate for k in range(len(t))], 1e-3)):
        return False
    y = np.array([float(v) for v in curve.y]) - level
    k = int(np.argmax(np.abs(d)))
    if d[k] == 0 or y[k] / d[k] <= 0:
        return False
    return bool(np.allclose(y, d * (y[k] / d[k]), atol=1e-9)) and np.max(np.abs(y)) < 2


def unchanged(ctx, ev, wave, vol, times, coa, gau, hyp, err, node, lut, tt, names):
    now = ev.onset_data.filtered_waveforms
    ctx.check(len(now) == len(wave) and all(np.array_equal(a.data, b.data) and bool(a.stats.starttime == b.stats.starttime)
                                            for a, b in zip(now, wave)), "waveforms are as before")
    ctx.check(np.array_equal(np.asarray(vol), volume(node)), "map is as before")
    ctx.check(ctx.all([same(ctx, instants(list(ev.coa_data["DT"])), times), same(ctx, list(ev.coa_data["COA"]), coa),
                       same(ctx, [ev.locations["gaussian"][c] for c in ("X", "Y", "Z", "ErrX", "ErrY", "ErrZ")], gau + err),
                       same(ctx, [ev.locations["spline"][c] for c in "XYZ"], hyp)]), "event is as before")
    ctx.check(all(abs(lut.traveltimes[s][p][tuple(node)] - tt[s][p]) < 1e-9 for s in names for p in "PS"), "table is as before")


def event_cases(tier):
    out = [dict(), dict(units="m", all_stns=False, node=(2, 0, 0)), dict(mag=False, phases="P", comps="Z", node=(0, 3, 2)),
           dict(comps="Z12", all_stns=False, sub="s", twice=True, xy=True)]
    if tier == "thorough":
        out += [dict(node=(a, b, c), units=u, all_stns=al) for a, b, c, u, al in
                ((0, 0, 0, "km", True), (4, 3, 2, "m", True), (3, 1, 0, "km", False), (4, 0, 2, "m", False))]
    return out


# ----------------------------------------------------------------- pick summary
def pick_figure(ctx, phases="PS", picked=("P", "S"), fit="any", comps="ZNE", sub="", silent=False, used=False, method=("MAD", 8.0)):
    import quakemigrate.signal.pickers.gaussian as gp

    names, n, t0 = ["A", "B"], 60, 3600
    off = ctx.real("otime", 0.0625, 0.4375)
    ot = t0 + 10 + off
    tt = {s: {p: 7.0 + 2 * i + 16 * "PS".index(p) for p in phases} for i, s in enumerate(names)}
    on = {}
    for i, s in enumerate(names):
        for p in phases:
            c = int(10 + tt[s][p])
            row = [1.25 + 0.0625 * ((3 * k + i) % 7) + (0.5 if p == "S" else 0) for k in range(n)]
            if p in picked:
                for k in (c - 1, c, c + 1):
                    row[k] = 9.0 + k % 3
                if s == "A" and p == picked[0]:
                    row[c] = ctx.real("onset_peak", 11, 40)
            on.setdefault(s, {})[p] = row
    serve = {s: {p: values(ctx, r) for p, r in d.items()} for s, d in on.items()}
    wave = traces(ctx, names[:1] if silent else names, comps, t0, n, 1)
    onset = pickrig.onset_stub(serve, 1, at(ctx, t0), filtered=wave.copy())
    onset.phases = list(phases)
    onset.channel_maps = {"P": "*Z", "S": "*[N,E,1,2]"}
    ev = pickrig.event(ctx, 3.0, at(ctx, ot))
    lut = pickrig.LUT(tt, 0.1)
    kw = dict(threshold_method=method[0])
    kw["percentile_pick_threshold" if method[0] == "percentile" else "mad_pick_threshold"] = method[1]
    pk = gp.GaussianPicker(onset=onset, plot_picks=True, **kw)
    scratch = rig.scratch_dir("c43p")
    run = Obj(path=pathlib.Path(scratch) / "run", subname=sub, name="run")
    saved, book = gp.curve_fit, figs.Book()
    cf = gp.curve_fit = Fit(ctx, fit)
    parts = {}
    if fit == "any":
        class Any(Fit):
            def __call__(self, f, xdata, ydata, p0=None, **k):
                self.calls.append(1)
                j, x0 = len(self.calls), int(xdata[0])
                par = [ctx.real(f"height{j}", 1, 100), x0 + ctx.real(f"mean{j}", 1.0, 2.0), 0.5 + 0.25 * j]
                parts[x0] = par
                return values(ctx, par), np.zeros((3, 3))

        cf = gp.curve_fit = Any(ctx, fit)
    try:
        with book.recording():
            if used:
                pickrig_wave = onset.serve
                onset.serve = {s: {p: values(ctx, [1.25 + 0.125 * (k % 5) for k in range(n)]) for p in phases} for s in names}, at(ctx, t0)
                pk.pick_phases(pickrig.event(ctx, 2.0, at(ctx, t0 + 12), uid="20210101010012000"), lut, run)
                onset.serve = pickrig_wave
                ctx.check(len(book.saved) == len(names), "one figure per station in its own file")
                book.saved.clear()
            ev, df = pk.pick_phases(ev, lut, run)
    finally:
        gp.curve_fit = saved
        shutil.rmtree(scratch, ignore_errors=True)
    shown = names[:1] if silent else names
    root = run.path / "locate" / sub / "pick_plots" / ev.uid
    ctx.check(sorted(s for s, _ in book.saved) == [str(root / f"{ev.uid}_{s}.pdf") for s in shown], "one figure per station in its own file")
    for (name, fig), s in zip(sorted(book.saved, key=lambda x: x[0]), shown):
        rows = df[df["Station"] == s]
        win = ev.picks["pick_windows"][s]
        for p in phases:
            fits = ev.picks["gaussfits"][s][p]
            pick = rows[rows["Phase"] == p].iloc[0]
            hit = [a for a in fig.axes if any(part_of(ctx, c, on[s][p], t0, win[p]) for c in a.curves)]
            ctx.check(len(hit) == 1, "onset function of each phase")
            a = hit[0]
            ctx.check(len(a.hlines) == 1 and near(ctx, a.hlines[0], fits["PickThreshold"]), "pick threshold with the onset it is for")
            lines = instants(a.vlines)
            ctx.check(one_of(ctx, [[v] for v in lines], [ot + tt[s][p]]), "modelled arrival of each phase")
            ctx.check(any(bool(same(ctx, instants(x), [t0 + win[p][0], t0 + win[p][2]])) for x in a.spans), "pick window of each phase")
            made = not (isinstance(pick["PickTime"], (int, float, np.integer)) and pick["PickTime"] == -1)
            ctx.check(made == (p in picked and fit == "any"), "a pick is made where the case has one")
            known = [ot, ot + tt[s][p]]
            for q in phases:
                r = rows[rows["Phase"] == q].iloc[0]
                if not (isinstance(r["PickTime"], (int, float, np.integer)) and r["PickTime"] == -1):
                    at_, er = sec(r["PickTime"]), r["PickError"]
                    known += [at_, at_ - er / 2, at_ + er / 2]
            if made:
                pt, er = sec(pick["PickTime"]), pick["PickError"]
                ctx.check(ctx.all([one_of(ctx, [[v] for v in lines], [v]) for v in (pt - er / 2, pt, pt + er / 2)]), "pick time and error")
                i0 = int(fits["xdata"][0])
                h, m, sg = parts[i0]
                ctx.check(ctx.eq(pt, t0 + m), "pick time and error")
                xs = [t0 + i0 + k for k in range(len(fits["xdata"]))]
                ys = [h * ctx.f("exp", -((i0 + k - m) * (i0 + k - m)) / (2 * sg * sg)) for k in range(len(xs))]
                ctx.check(any(len(c.y) == len(xs) and bool(same(ctx, instants(c.x), xs)) and bool(ctx.all([ctx.eq(u, v) for u, v in zip(c.y, ys)]))
                              for c in a.curves), "fitted curve")
            else:
                ctx.check(len(a.curves) == 1, "no curve without a pick")
            ctx.check(ctx.all([one_of(ctx, [[k] for k in known], [v]) for v in lines]), "no other lines")
        for tr in wave.select(station=s):
            if (tr.stats.channel[-1] == "Z" and "P" in phases) or (tr.stats.channel[-1] != "Z" and "S" in phases):
                ctx.check(any(part_of(ctx, c, list(tr.data), t0, win[phases[0]]) for a in fig.axes for c in a.curves), "waveforms of each component")
        text = "\n".join(t for a in fig.axes for t in a.texts)
        ctx.check(ev.uid in text and f"Station: {s}" in text, "event and station are named")
    now = onset.serve[0]
    ctx.check(ctx.all([same(ctx, list(now[s][p]), on[s][p]) for s in names for p in phases]), "onset functions are as before")


def part_of(ctx, curve, data, t0, win):
    """the curve is a stretch of the data with at least the pick window, at its times"""
    t = instants(curve.x)
    if len(t) < win[2] - win[0] or len(t) != len(curve.y) or any(v is None for v in t):
        return False
    k = round(float(t[0]) - t0)
    return k <= win[0] and k + len(t) >= min(win[2] + 1, len(data)) and bool(same(ctx, t, list(range(t0 + k, t0 + k + len(t))))) \
        and bool(same(ctx, curve.y, data[k:k + len(t)]))


def pick_cases(tier):
    out = [dict(), dict(picked=("S",), comps="Z12", sub="s"), dict(fit="runtime", silent=True), dict(phases="P", picked=("P",), comps="Z"),
           dict(phases="S", picked=("S",), comps="NE", used=True), dict(picked=("P",), method=("percentile", 0.99), used=True)]
    return out


# ----------------------------------------------------------------- amplitude figure
def amplitude_figure(ctx, hyp=False, feature="S", units="km", dist_filter=None, sub="", own=False):
    from quakemigrate.io.event import Event
    from quakemigrate.signal.local_mag.magnitude import Magnitude

    km, t0 = (1.0 if units == "km" else 1000.0), 36000
    ids = ["NW.STA..HHE", "NW.STA..HHN", "NW.STB..HHE", "NW.STC..HHE", "NW.STC..HHN"]
    dist, cor = [10.0, 10.0, 24.0, 3.0, 3.0], [0.0, 0.5, -0.25, 0.125, 0.0]
    amp = [ctx.real(f"amp{k}", 1, 90) if k in (1, 2, 4) else 5.0 + k for k in range(5)]
    noise = [ctx.real(f"noise{k}", 0.125, 0.875) if k in (0, 2, 3) else 0.25 + k / 64 for k in range(5)]
    used = [ctx.choose(f"used{k}", [False, True]) if k in (1, 2) else k == 0 for k in range(5)]
    gain, hypocentre = 3.0, {c: 1.0 for c in "XYZ"}
    df = pd.DataFrame({"P_amp": col(ctx, amp) if feature == "P" else np.arange(5.0) + 33, "S_amp": col(ctx, amp) if feature == "S" else np.arange(5.0) + 44,
                       "Noise_amp": col(ctx, noise), "Station_Correction": cor, "Dist": dist, "Used": used}, index=pd.Index(ids, name="id"))
    before = {c: list(df[c].values) for c in df.columns}

    def curve(d):
        return d * 0.0625 - 1.5

    par = dict(A0=curve if own else "Hutton-Boore", amp_feature=f"{feature}_amp", amp_multiplier=gain, use_hyp_dist=hyp)
    if dist_filter:
        par["dist_filter"] = dist_filter
    ev = Event(1.0, dict(EventID="20210101100002123", CoaTime=at(ctx, t0), TRIG_COA=5.0, COA=6.0, COA_NORM=1.5))
    ev.add_gaussian_location([1.0, 2.0, 3.0], [0.75 * km, 1.0 * km, 3.0 * km])
    ev.add_covariance_location([1.0, 2.0, 3.0], [7.0 * km, 7.0 * km, 7.0 * km])
    ml, ml_err, r2 = 1.25, 0.5, ctx.real("r2", 0, 1)
    ev.add_local_magnitude(ml, ml_err, r2)
    scratch = rig.scratch_dir("c43a")
    run = Obj(path=pathlib.Path(scratch) / "run", subname=sub, name="run")
    book = figs.Book()
    try:
        with book.recording():
            mag = Magnitude(par)
            mag.plot_amplitudes(df, ev, run, 1000.0 / km, "RMS")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.check([s for s, _ in book.saved] == [str(run.path / "locate" / sub / "amplitude_plots" / f"run_{ev.uid}_AmpVsDistance.pdf")],
              "one figure per event in its own file")
    axes = book.saved[0][1].axes
    c10 = [gain * 10.0 ** c for c in cor]
    ctx.check(any(bool(ctx.all([same(ctx, q.x, dist), same(ctx, q.y, [v * c for v, c in zip(noise, c10)], 1e-6)])) for a in axes for q in a.points),
              "noise of every observation at its distance")
    err = (0.75 ** 2 + 1.0 + (9.0 if hyp else 0.0)) ** 0.5
    shown = 0
    for keep in (True, False):
        rows = [k for k in range(5) if used[k] is keep or used[k] == keep]
        if not rows:
            continue
        shown += 1
        ctx.check(any(len(q.x) == len(rows) and bool(ctx.all(
            [same(ctx, q.x, [dist[k] for k in rows]), same(ctx, q.y, [amp[k] * c10[k] for k in rows], 1e-6),
             same(ctx, list(q.yerr), [noise[k] * c10[k] for k in rows], 1e-6), abs(float(np.max(q.xerr)) - err) < 1e-9]))
            for a in axes for q in a.bars), "observations used and not used, with their errors")
    ctx.check(sum(len(a.bars) for a in axes) == shown, "observations used and not used, with their errors")
    found = set()
    for a in axes:
        for c in a.curves:
            x, y = np.array([float(v) for v in c.x]), np.array([float(v) for v in c.y])
            att = curve(x) if own else 1.11 * np.log10(x / 100) + 0.00189 * (x - 100) + 3.0
            for m in (ml, ml + ml_err, ml - ml_err):
                if len(x) > 100 and x[0] <= min(dist) and x[-1] >= max(dist) and np.allclose(np.log10(y) + att, m, atol=1e-9):
                    found.add(m)
    ctx.check(found == {ml, ml + ml_err, ml - ml_err}, "predicted amplitude for the magnitude and its errors")
    if dist_filter:
        ctx.check(any(same(ctx, a.vlines, [dist_filter]) for a in axes), "distance filter")
    else:
        ctx.check(not any(a.vlines for a in axes), "distance filter")
    text = [x for a in axes for x in a.texts if "r-squared" in x]
    ctx.check(len(text) == 1 and near(ctx, numbers(ctx, text[0].replace("r-squared", ""))[0], r2, 6e-3), "numbers of the magnitude")
    for c in before:
        ctx.check(all(same_value(u, v) for u, v in zip(before[c], df[c].values)), "amplitudes are as before")


def same_value(u, v):
    from qmv.sym import is_sym

    return (is_sym(u) and is_sym(v) and u.e.eq(v.e)) or (not is_sym(u) and not is_sym(v) and u == v)


def amplitude_cases(tier):
    return [dict(), dict(hyp=True, feature="P", units="m", dist_filter=20.0, sub="s"), dict(own=True, dist_filter=12.5)]


HARNESSES = [
    dict(name="amplitudes", fn=amplitude_figure, cases=amplitude_cases, env=env,
         expect=["noise of every observation at its distance", "observations used and not used, with their errors",
                 "predicted amplitude for the magnitude and its errors"],
         bounds="5 observations of 3 stations with any amplitudes and noise, used or not"),
    dict(name="picks", fn=pick_figure, cases=pick_cases, env=env,
         expect=["pick threshold with the onset it is for", "pick time and error", "fitted curve", "pick window of each phase"],
         bounds="2 stations of 1-3 components of 60 samples, 1-2 phases, any origin time between two samples, any fitted height and mean, "
                "picks made, not made and failed"),
    dict(name="event", fn=event_figure, cases=event_cases, env=env,
         expect=["slices through the map", "modelled arrivals", "waveforms in the row of their station", "numbers of the event"],
         bounds="3 stations of 1-3 components of 24 samples, grid of 5x4x3 nodes, any peak of the listed nodes, any origin time between "
                "two samples, any coalescence, location, uncertainty and magnitude"),
    dict(name="trigger", fn=trigger_figure, cases=trigger_cases, env=env,
         expect=["time of each event", "region in map and sections", "available stations of each window", "interval of discarded events"],
         bounds="30 samples, 1-2 (3) exceedances of any strength at any position, any marginal window, interval and threshold, 3 windows "
                "of availability of 2 stations"),
]
