# -*- coding: utf-8 -*-
"""C35: lookup tables survive saving, reading and combining."""

import copyreg
import os
import shutil

import numpy as np
import pandas as pd

from qmv.props.c24 import near
from qmv.props.common import values
from qmv.props.lutrig import Projection, make, projs, stations
from qmv.props.rig import scratch_dir

ASSUMPTIONS = ["exact real arithmetic", "pickling keeps numbers (symbolic ones by reference)"]
STORE = {}


def _fetch(k):
    return STORE[k]


def _by_ref(x):
    STORE[id(x)] = x
    return _fetch, (id(x),)


class Pickles:
    """Symbolic values are pickled by reference."""

    def __init__(self, ctx):
        self.on = ctx.symbolic

    def __enter__(self):
        if self.on:
            from qmv import sym

            self.classes = [c for c in vars(sym).values() if isinstance(c, type) and c.__name__.startswith("Sym")]
            for c in self.classes:
                copyreg.pickle(c, _by_ref)

    def __exit__(self, *a):
        if self.on:
            for c in self.classes:
                copyreg.dispatch_table.pop(c, None)
            STORE.clear()


def fill(ctx, lut, names, phases, count, seed, free=None):
    lut.phases, lut.station_data = list(phases), stations(names)
    lut.velocity_model = f"model {seed}"
    for i, s in enumerate(names):
        lut.traveltimes[s] = {}
        for p in phases:
            n = int(np.prod(count))
            v = [ctx.real(f"t{seed}{j}", 0, 100) if free == (s, p) else 0.5 * j + 100.0 * (ord(s[-1]) - 64) + 50.0 * (p == "S") + 1000.0 * seed
                 for j in range(n)]
            lut.traveltimes[s][p] = (values(ctx, v) if free == (s, p) else np.array(v)).reshape(tuple(count))


def snap(lut):
    return {(s, p): t.copy() for s, m in lut.traveltimes.items() for p, t in m.items()}


def same(ctx, a, b):
    if a.shape != b.shape:
        return False
    return ctx.all([ctx.eq(x, y) for x, y in zip(a.flatten(), b.flatten())])


def saved(ctx, how, count=(2, 3, 2), units="km"):
    import quakemigrate.io.core as ioc
    from quakemigrate.lut.lut import LUT

    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    sp = [ctx.real(f"sp{k}", 0.5, 2) if k == how.count("x") else 1.0 + k for k in range(3)]
    ur = [a + (c - 1.25) * s for a, c, s in zip(ll, count, sp)]
    frac = ctx.real("fraction", 0, 1)
    d = scratch_dir("c35")
    try:
        with Projection(), Pickles(ctx):
            lut = make(ctx, ll, ur, sp, units, frac)
            fill(ctx, lut, ["STB", "STA"], ["S", "P"], count, 1, ("STB", "P"))
            want, sd = snap(lut), lut.station_data.copy()
            f = os.path.join(d, "not", "there yet", "table.LUT")
            lut.save(f)
            lut.save(f)  # over an earlier file
            if how == "read_lut":
                got = ioc.read_lut(lut_file=f)
            elif how == "init":
                got = LUT(lut_file=f)
            else:
                got = LUT()
                got.load(f)
            have = snap(got)
            ctx.check(list(have) == list(want), "stations and phases of the tables, in order")
            for k in want:
                ctx.check(same(ctx, have[k], want[k]), "traveltimes")
            ctx.check([int(x) for x in got.node_count] == list(count), "node count")
            for k in range(3):
                ctx.check(ctx.all([near(ctx, got.ll_corner[k], ll[k]), near(ctx, got.node_spacing[k], sp[k])]), "grid")
            ctx.check(got.grid_proj.srs == lut.grid_proj.srs and got.coord_proj.srs == lut.coord_proj.srs and
                      got.unit_name == units, "projections")
            ctx.check(list(got.phases) == ["S", "P"] and got.velocity_model == "model 1", "phases and velocity model")
            ctx.check(near(ctx, got.fraction_tt, frac), "traveltime fraction")
            ctx.check(got.station_data.equals(sd), "stations")
    finally:
        shutil.rmtree(d)


def old(ctx, keys, count=(2, 3, 2), rate=50):
    """A table as earlier versions saved it ('TIME_P' maps, cells): read, used, brought up to date.  keys: what is old in it."""
    import pickle

    import quakemigrate.io.core as ioc
    from quakemigrate.lut import update_lut

    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    sp = [1.0, ctx.real("spacing", 0.5, 2), 3.0]
    ur = [a + (c - 1.25) * s for a, c, s in zip(ll, count, sp)]
    d = scratch_dir("c35")
    try:
        with Projection(), Pickles(ctx):
            lut = make(ctx, ll, ur, sp)
            fill(ctx, lut, ["STB", "STA"], ["P", "S"], count, 1, ("STB", "S"))
            want = snap(lut)
            top = lut.max_traveltime
            served = lut.serve_traveltimes(rate, {"STA_S": 1, "STB_P": 1, "STA_P": 0})
            one = lut.traveltime_to("P", [1, 1, 1], "STA")
            z = dict(lut.__dict__)
            if "maps" in keys:
                z["maps"] = {s: {f"TIME_{p}": t for p, t in m.items()} for s, m in z.pop("traveltimes").items()}
                z.pop("phases")
            if "cells" in keys:
                z["_cell_count"], z["_cell_size"] = z.pop("_node_count"), z.pop("_node_spacing")
                z.pop("fraction_tt")
            f, g = os.path.join(d, "old.LUT"), os.path.join(d, "converted", "new.LUT")
            with open(f, "wb") as h:
                pickle.dump(z, h, 4)
            update_lut(f, g)
            for how, got in (("read", ioc.read_lut(lut_file=f)), ("brought up to date", ioc.read_lut(lut_file=g))):
                ctx.check([int(x) for x in got.node_count] == list(count) == [int(x) for x in got.cell_count], f"old table {how}: node count")
                c = got.index2coord([[1, 2, 0]])[0]
                w = lut.index2coord([[1, 2, 0]])[0]
                ctx.check(ctx.all([near(ctx, a, b) for a, b in zip(list(got.node_spacing) + list(c), sp + list(w))]), f"old table {how}: grid")
                ctx.check(list(got.phases) == ["P", "S"] and got.fraction_tt == 0.1, f"old table {how}: phases and fraction")
                ctx.check(ctx.eq(got.max_traveltime, top), f"old table {how}: traveltimes")
                ctx.check(same(ctx, got.serve_traveltimes(rate, {"STA_S": 1, "STB_P": 1, "STA_P": 0}), served), f"old table {how}: traveltimes")
                ctx.check(near(ctx, float(np.squeeze(got.traveltime_to("P", [1, 1, 1], "STA"))), float(np.squeeze(one))), f"old table {how}: traveltimes")
            have = snap(got)
            ctx.check(set(have) == set(want) and not hasattr(got, "maps"), "old table brought up to date: stations and phases")
            for k in want:
                ctx.check(same(ctx, have[k], want[k]), "old table brought up to date: traveltimes")
            ctx.check(got.station_data.equals(lut.station_data), "old table brought up to date: stations and phases")
    finally:
        shutil.rmtree(d)


def add(ctx, vary, phases=("P", "S"), count=(2, 2, 2)):
    """vary: what may differ between the two grids."""
    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    ll2 = [v + (ctx.real(f"d{k}", -2, 2) if f"ll{k}" == vary else 0) for k, v in enumerate(ll)]
    sp = [1.0, 0.5, 2.0]
    sp2 = [v + (ctx.real(f"e{k}", -0.25, 0.25) if f"sp{k}" == vary else 0) for k, v in enumerate(sp)]
    count2 = [c + (ctx.choose("more", [0, 1]) if vary == f"count{k}" else 0) for k, c in enumerate(count)]
    unit2 = ctx.choose("unit", ["km", "m"]) if vary == "unit" else "km"
    first = ["STB", "STA"]
    second = [s for s in ("STA", "STC", "STD") if ctx.choose(f"in_{s}", [1, 0])] or ["STC"]
    with Projection():
        a = make(ctx, ll, [v + (c - 1.25) * s for v, c, s in zip(ll, count, sp)], sp)
        # the corner itself is above the last node but one: same number of nodes unless told otherwise
        b = make(ctx, ll2, [v + (c - 1.25) * s for v, c, s in zip(ll2, count2, sp2)], sp2, unit2)
        fill(ctx, a, first, phases, count, 1, ("STA", "P"))
        fill(ctx, b, second, phases, count2, 2, (second[0], "P"))
        if vary == "no stations":
            a.traveltimes, a.station_data, first = {}, pd.DataFrame(), []
        for t, names, base in ((a, first, 10.0), (b, second, 20.0)):
            if names:
                t.station_data["Longitude"] = [base + i for i in range(len(names))]
                t.station_data["Elevation"] = [-base - i for i in range(len(names))]
        da, db = a.station_data.copy(), b.station_data.copy()
        wa, wb = snap(a), snap(b)
        alike = ctx.all([near(ctx, x, y, 0) for x, y in zip(ll + sp, ll2 + sp2)]) if ctx.symbolic else \
            all(x == y for x, y in zip(ll + sp, ll2 + sp2))
        alike = bool(alike) and list(count) == list(count2) and unit2 == "km"
        ctx.check(bool(a == b) == alike and bool(b == a) == alike, "equal exactly when the grids are")
        out = a + b
        ha, hb = snap(a), snap(b)
        for k in wb:
            ctx.check(k in hb and same(ctx, hb[k], wb[k]), "the other table is unchanged")
        ctx.check(set(hb) == set(wb), "the other table is unchanged")
        for k in wa:
            ctx.check(k in ha and same(ctx, ha[k], wa[k]), "stations already present keep their own tables")
        ctx.check(b.station_data.equals(db), "the other table is unchanged")
        if not alike:
            ctx.check(set(ha) == set(wa) and a.station_data.equals(da), "nothing is added from another grid")
            return
        ctx.check(out is not None, "a table results")
        ho = snap(out)
        new = [k for k in wb if k[0] not in first]
        ctx.check(set(ho) == set(wa) | set(new), "exactly the new stations are added")
        for k in new:
            ctx.check(same(ctx, ho[k], wb[k]), "added stations have the other's tables")
        for k in wa:
            ctx.check(same(ctx, ho[k], wa[k]), "stations already present keep their own tables")
        want = list(da.itertuples(index=False, name=None)) + [r for r in db.itertuples(index=False, name=None) if r[3] not in first]
        have = out.station_data
        ctx.check(list(have.columns)[:4] == list(db.columns) and
                  sorted(have[["Longitude", "Latitude", "Elevation", "Name"]].itertuples(index=False, name=None)) == sorted(want),
                  "the stations added come with their positions")
        # traveltimes of all stations are served, and what happens to the sum leaves the other table alone
        served = out.serve_traveltimes(1)
        names = list(out.station_data["Name"])
        ctx.check(served.shape[-1] == len(names) * len(phases), "the sum serves all its stations")
        for i, (p, s) in enumerate((p, s) for p in phases for s in names):
            if (s, p) not in ((second[0], "P"), ("STA", "P")):
                ctx.check(same(ctx, served[..., i], np.rint(ho[(s, p)])), "the sum serves all its stations")
        out.decimate([1, 2, 1], inplace=True)
        hb = snap(b)
        ctx.check(ctx.all([same(ctx, hb[k], wb[k]) for k in wb]), "the other table is unchanged")


def cases_s(tier):
    return [dict(how="read_lut"), dict(how="init"), dict(how="load", units="m")]


def cases_a(tier):
    v = ["nothing", "ll0", "sp1", "count2", "unit"] + (["ll1", "ll2", "sp0", "sp2", "count0", "count1"] if tier == "thorough" else [])
    return [dict(vary=x) for x in v] + [dict(vary="ll2", phases=["S", "P"]), dict(vary="nothing", phases=["P"]), dict(vary="no stations")]


HARNESSES = [
    dict(name="saved", fn=saved, cases=cases_s, expect=["traveltimes", "stations", "grid", "traveltime fraction"],
         bounds="any corner, spacing and traveltimes of a 2 x 3 x 2 grid, each way of reading"),
    dict(name="add", fn=add, cases=cases_a,
         expect=["stations already present keep their own tables", "exactly the new stations are added", "the stations added come with their positions",
                 "nothing is added from another grid", "equal exactly when the grids are"],
         bounds="any corner, any difference in corner, spacing, node count or unit, every choice of the other table's stations"),
    dict(name="old", fn=old, cases=lambda tier: [dict(keys=k) for k in (["maps", "cells"], ["maps"], ["cells"], [])],
         expect=["old table read: traveltimes", "old table brought up to date: traveltimes", "old table brought up to date: grid"],
         bounds="any corner, one free spacing, free traveltimes of one station and phase; old maps, old cells, both or neither"),
]
