# -*- coding: utf-8 -*-
"""C25: decimated lookup tables keep traveltimes on their nodes."""

import numpy as np

from qmv.props.c24 import near
from qmv.props.common import values
from qmv.props.lutrig import Projection, make, stations

ASSUMPTIONS = ["exact real arithmetic", "the projection is an invertible map (an affine map, different on each axis)"]


def decimate(ctx, count, factors, spacing=(1.0, 0.5, 2.0), inplace=False, twice=None, as_list=True):
    """factors: possible factors on each axis."""
    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    df = [f[0] if len(f) == 1 else ctx.choose(f"df{k}", list(f)) for k, f in enumerate(factors)]
    ur = [a + (c - (1.25 if c > 1 else 1)) * s for a, c, s in zip(ll, count, spacing)]
    names, phases = ["STB", "STA"], ["P", "S"]
    total = int(np.prod(count))
    orig = {}
    with Projection():
        lut = make(ctx, ll, ur, list(spacing))
        lut.phases, lut.station_data = phases, stations(names)
        for i, s in enumerate(names):
            lut.traveltimes[s] = {}
            for p in phases:
                free = s == "STA" and p == "S"
                v = [ctx.real(f"t{j}", 0, 100) if free else 0.5 * j + 1000.0 * i + 500.0 * (p == "S") for j in range(total)]
                t = values(ctx, v) if free else np.array(v)
                lut.traveltimes[s][p] = t.reshape(tuple(count))
                orig[s, p] = [[[t.reshape(tuple(count))[i, j, k] for k in range(count[2])] for j in range(count[1])]
                              for i in range(count[0])]
        # what is known of the grid before
        lut.grid_corners, lut.grid_xyz, lut.max_traveltime
        lut.get_grid_extent(), lut.get_grid_extent(cells=True), lut.grid_extent
        lut.serve_traveltimes(1), lut.index2coord([[0, 0, 0]]), lut.index2grid(0, unravel=True)
        lut.traveltime_to("P", np.array([[0, 0, 0]]), "STA")
        out = lut.decimate(df if as_list else np.array(df), inplace=inplace)
        if inplace:
            ctx.check(out is None, "nothing returned when in place")
            out = lut
        else:
            ctx.check(out is not lut, "a copy")
            ctx.check([int(x) for x in lut.node_count] == list(count), "the original is unchanged")
            for k in range(3):
                ctx.check(ctx.all([near(ctx, lut.ll_corner[k], ll[k]), ctx.eq(lut.node_spacing[k], spacing[k])]),
                          "the original is unchanged")
            for (s, p), t in orig.items():
                have = lut.traveltimes[s][p]
                ctx.check(have.shape == tuple(count), "the original is unchanged")
                for i in range(count[0]):
                    for j in range(count[1]):
                        for k in range(count[2]):
                            ctx.check(ctx.eq(have[i, j, k], t[i][j][k]), "the original is unchanged")
        if twice:
            out.decimate(twice, inplace=True)
            df1, df = df, [a * b for a, b in zip(df, twice)]
        n = [int(x) for x in out.node_count]
        if not twice:
            ctx.check(n == [1 + (c - 1) // d for c, d in zip(count, df)], "as many nodes as fit")
        for k in range(3):
            ctx.check(near(ctx, out.node_spacing[k], spacing[k] * df[k]), "spacing multiplied by the factor")
        first = out.index2grid([[0, 0, 0]])
        ctx.check(list(out.station_data["Name"]) == names and list(out.phases) == phases and
                  set(out.traveltimes) == set(names), "stations and phases kept")
        start = []
        for k in range(3):
            # the node of the original at which the decimated grid starts
            off = (first[0, k] - ll[k]) * (1.0 / spacing[k])
            for o in range(count[k]):
                if bool(near(ctx, off, o, 1e-6)):
                    start.append(o)
                    break
            else:
                ctx.check(False, "nodes of the decimated grid are nodes of the original")
                return
            left = count[k] - 1 - start[k] - df[k] * (n[k] - 1)
            ctx.check(left >= 0, "the decimated grid lies inside the original")
            if not twice:
                ctx.check(abs(left - start[k]) <= 1, "centred to within one node")
        last = [a - 1 for a in n]
        far = [first[0, k] + last[k] * df[k] * spacing[k] for k in range(3)]
        for got in (out.grid_corners[-1], [g[tuple(last)] for g in out.grid_xyz], out.index2grid([last])[0],
                    out.index2grid(int(np.prod(n)) - 1, unravel=True)[0], out.coord2grid(out.get_grid_extent())[1]):
            ctx.check(ctx.all([near(ctx, g, f) for g, f in zip(got, far)]), "the last node is that of the decimated grid")
        ctx.check(out.serve_traveltimes(1).shape == tuple(n) + (4,), "traveltimes are served on the decimated grid")
        for p in phases:
            got = out.traveltime_to(p, np.array([last]), "STB")[0]
            want = orig["STB", p][start[0] + df[0] * last[0]][start[1] + df[1] * last[1]][start[2] + df[2] * last[2]]
            ctx.check(near(ctx, got, want, 1e-6), "traveltimes are served on the decimated grid")
        for (s, p), t in orig.items():
            have = out.traveltimes[s][p]
            ctx.check(have.shape == tuple(n), "table shape is the node count")
            for i in range(n[0]):
                for j in range(n[1]):
                    for k in range(n[2]):
                        ctx.check(ctx.eq(have[i, j, k], t[start[0] + df[0] * i][start[1] + df[1] * j][start[2] + df[2] * k]),
                                  "traveltime of the original at the same position")


def cases(tier):
    out = [
        dict(count=[5, 4, 3], factors=[[1, 2, 3, 4], [1, 2, 3], [1, 2, 3]]),
        dict(count=[6, 3, 4], factors=[[2, 4, 6], [2], [1, 3]], inplace=True),
        dict(count=[2, 6, 1], factors=[[1, 2], [2, 3, 4, 5], [1, 2]], spacing=[0.25, 0.25, 0.25], as_list=False),
        dict(count=[8, 3, 3], factors=[[2], [1, 2], [2]], twice=[2, 2, 1]),
    ]
    if tier == "thorough":
        out += [dict(count=[n, m, 3], factors=[list(range(1, n + 1)), list(range(1, m + 1)), [1, 2]], inplace=b)
                for n, m in ((4, 5), (6, 7), (8, 2)) for b in (False, True)]
    return out


HARNESSES = [
    dict(name="decimate", fn=decimate, cases=cases,
         expect=["traveltime of the original at the same position", "the original is unchanged", "centred to within one node",
                 "as many nodes as fit"],
         bounds="grids of up to 8 nodes per axis, every listed factor on every axis, in place or not, once or twice; any "
                "corner and any traveltimes (one of the four tables)"),
]
