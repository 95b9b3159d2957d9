# -*- coding: utf-8 -*-
"""C40: station files, velocity models, responses and run names are read as they are written."""

import os
import pathlib
import shutil

import numpy as np

from qmv.props.common import csv_env, time_env
from qmv.props.rig import scratch_dir

ASSUMPTIONS = ["numbers in files are read to the precision with which they are written (Python's shortest form)"]
STUBS = ["pandas serves the symbolic numbers that were written; real files in a scratch directory",
         "ObsPy's inventory reader may be made to fail"]
NAMES = [["STA1", "007", "B"], ["NA", "1e5", "12"], ["nan", "0100", "None"], ["1", "2", "3"]]
REQUIRED = ["Latitude", "Longitude", "Elevation", "Name"]


def env():
    return time_env() + csv_env()


def write(path, columns, rows, sep=","):
    with open(path, "w") as f:
        f.write(sep.join(columns) + "\n")
        for r in rows:
            f.write(sep.join(r[c] if isinstance(r[c], str) else f"{r[c]}" for c in columns) + "\n")


def same(ctx, a, b):
    return ctx.eq(a, b) if ctx.symbolic else abs(a - b) <= 1e-9 * max(1, abs(b))


def stations(ctx, order, how="read_stations", sep=",", missing=True):
    import quakemigrate.io.core as core
    import quakemigrate.util as util

    d = scratch_dir("c40")
    try:
        names = NAMES[ctx.choose("names", [0, 1, 2, 3])]
        gone = ctx.choose("missing", [None] + REQUIRED) if missing else None
        rows = [{"Name": n, "Latitude": ctx.real(f"lat{i}", -90, 90), "Longitude": ctx.real(f"lon{i}", -180, 180),
                 "Elevation": ctx.real(f"elev{i}", -9000, 9000), "Extra": ctx.real(f"extra{i}", -10, 10),
                 "Network": f"N{i}"} for i, n in enumerate(names)]
        cols = [c for c in order if c != gone]
        path = os.path.join(d, "stations.txt")
        write(path, cols, rows, sep)
        kw = {} if sep == "," else {"delimiter": sep}
        try:
            got = getattr(core, how)(path, **kw)
        except util.StationFileHeaderException:
            ctx.check(gone is not None, "complete station files are accepted")
            return
        ctx.check(gone is None, "a station file without one of the required columns is refused")
        ctx.check(list(got.columns) == cols and len(got) == len(rows), "columns and stations in the order of the file")
        for i, r in enumerate(rows):
            g = got.iloc[i]
            ctx.check(isinstance(g["Name"], str) and g["Name"] == r["Name"], "names are text, as written")
            ctx.check(same(ctx, g["Elevation"], -r["Elevation"]), "elevations become depths, once")
            ctx.check(ctx.all([same(ctx, g[c], r[c]) for c in ("Latitude", "Longitude")]), "coordinates as written")
            if "Extra" in cols:
                ctx.check(same(ctx, g["Extra"], r["Extra"]) and g["Network"] == r["Network"], "other columns as written")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def vmodel(ctx, order):
    import quakemigrate.io.core as core
    import quakemigrate.util as util

    d = scratch_dir("c40")
    try:
        gone = ctx.choose("missing", [None, "Depth"])
        cols = [c for c in order if c != gone]
        rows = [{c: ctx.real(f"{c}{i}", -5, 5) + 10 * i for c in order} for i in range(3)]
        path = os.path.join(d, "model.txt")
        write(path, cols, rows)
        try:
            got = core.read_vmodel(path)
        except util.InvalidVelocityModelHeader:
            ctx.check(gone is not None, "velocity models with depths are accepted")
            return
        ctx.check(gone is None, "a velocity model without depths is refused")
        ctx.check(list(got.columns) == cols and len(got) == 3, "layers and columns in the order of the file")
        for i, r in enumerate(rows):
            ctx.check(ctx.all([same(ctx, got.iloc[i][c], r[c]) for c in cols]), "velocity model as written")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def responses(ctx):
    import obspy
    from obspy.core.inventory import Inventory, Network, Station

    import quakemigrate.io.core as core

    d = scratch_dir("c40")
    saved = [(m, m.read_inventory) for m in (obspy, core) if hasattr(m, "read_inventory")]
    kind = ctx.choose("kind", ["good", "junk", "sac_pz"])
    lat = ctx.real("lat", -80, 80)
    path = os.path.join(d, "inv.xml")
    inv = Inventory(networks=[Network("XX", stations=[Station(c, 10.0, 20.0, 30.0) for c in ("B", "A")])], source="test")
    inv[0][1].code = "A"
    asked = []

    def read(p, *a, **k):
        asked.append(str(p))
        if kind == "junk":
            raise TypeError("Unknown format")
        out = inv.copy()
        out.qmv = lat
        return out

    try:
        if ctx.symbolic:
            for m, _ in saved:
                m.read_inventory = read
        elif kind == "junk":
            with open(path, "w") as f:
                f.write("nothing\n")
        else:
            inv.write(path, format="STATIONXML")
        try:
            got = core.read_response_inv(path, **({"sac_pz_format": True} if kind == "sac_pz" else {}))
        except NotImplementedError:
            ctx.check(kind == "sac_pz", "readable responses are accepted")
            return
        except TypeError:
            ctx.check(kind == "junk", "readable responses are accepted")
            return
        ctx.check(kind == "good", "responses that cannot be read are refused")
        ctx.check([s.code for s in got[0]] == ["B", "A"] and (not ctx.symbolic or (asked == [path] and ctx.eq(got.qmv, lat))),
                  "the inventory of the file asked for")
    finally:
        for m, f in saved:
            m.read_inventory = f
        shutil.rmtree(d, ignore_errors=True)


def runs(ctx):
    """Names that are not file-name safe; where a run keeps its files."""
    from quakemigrate.io.core import Run

    base = pathlib.Path(scratch_dir("c40"))
    try:
        name = ctx.choose("name", ["run", "my.run", "v1.2.3", "a_b"])
        sub = ctx.choose("subname", [None, "", "loc", "loc.1", "x.y.z"])
        stage = ctx.choose("stage", [None, "detect"])
        path = base / "dir.with.dots"
        run = Run(str(path), name, **({} if sub is None else {"subname": sub}), **({} if stage is None else {"stage": stage}))
        n, s = name.replace(".", "_"), (sub or "").replace(".", "_")
        ctx.check(pathlib.Path(run.path) == path / n, "files are kept under the path and the name of the run")
        ctx.check(run.name == (f"{n}_{s}" if s else n) and run.subname == s, "names have no dots; the subname is appended")
        ctx.check(run.stage == stage and list(base.iterdir()) == [], "nothing is made yet")
    finally:
        shutil.rmtree(str(base), ignore_errors=True)


def folders(ctx):
    """make_directories / the log file: made under the run, however deep, and again without complaint."""
    import quakemigrate.io.core as core
    import quakemigrate.util as util

    base = pathlib.Path(scratch_dir("c40"))
    calls = []
    saved = util.logger
    try:
        sub = ctx.choose("subname", ["", "loc.1"])
        log = ctx.choose("log", [False, True])
        level = ctx.choose("level", [None, "debug"])
        util.logger = lambda *a, **k: calls.append((a, k))
        run = core.Run(base / "runs", "r", subname=sub, stage="locate", **({} if level is None else {"loglevel": level}))
        run.logger(log)
        s = sub.replace(".", "_")
        ctx.check(len(calls) == 1, "logging is set up once")
        a, k = calls[0]
        stem = a[0] if a else k["logstem"]
        lg = a[1] if len(a) > 1 else k["log"]
        lv = a[2] if len(a) > 2 else k.get("loglevel", "info")
        ctx.check(pathlib.Path(stem) == base / "runs" / "r" / "locate" / s / "logs" / (f"r_{s}" if s else "r") and lg == log
                  and lv == (level or "info"), "the log of a stage is kept with its outputs")
    finally:
        util.logger = saved
        shutil.rmtree(str(base), ignore_errors=True)


def cases(tier):
    out = [dict(order=["Latitude", "Longitude", "Elevation", "Name"]),
           dict(order=["Name", "Extra", "Longitude", "Elevation", "Network", "Latitude"], sep=";"),
           dict(order=["Elevation", "Name", "Latitude", "Longitude"], how="stations", sep="\t", missing=False),
           dict(order=["Extra", "Network", "Elevation", "Latitude", "Name", "Longitude"])]
    return out


HARNESSES = [
    dict(name="stations", fn=stations, cases=cases, env=env,
         expect=["names are text, as written", "elevations become depths, once", "coordinates as written",
                 "other columns as written", "a station file without one of the required columns is refused"],
         bounds="three stations at any position, the listed names (some look like numbers or missing values), any one required "
                "column missing, four column orders and three delimiters"),
    dict(name="vmodel", fn=vmodel, cases=lambda tier: [dict(order=["Depth", "Vp", "Vs"]), dict(order=["Vs", "Q", "Depth"])], env=env,
         expect=["velocity model as written", "a velocity model without depths is refused"],
         bounds="three layers with any numbers, two column orders, with or without depths"),
    dict(name="responses", fn=responses, cases=lambda tier: [{}], env=time_env,
         expect=["the inventory of the file asked for", "responses that cannot be read are refused"],
         bounds="a readable inventory, a file that is none, and one announced as SAC pole-zero"),
    dict(name="runs", fn=runs, cases=lambda tier: [{}], env=time_env,
         expect=["names have no dots; the subname is appended", "files are kept under the path and the name of the run"],
         bounds="four names, five subnames"),
    dict(name="folders", fn=folders, cases=lambda tier: [{}], env=time_env,
         expect=["the log of a stage is kept with its outputs"], bounds="with and without a subname, a log file and a level"),
]
