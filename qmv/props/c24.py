# -*- coding: utf-8 -*-
"""C24: indices, grid coordinates and geographic coordinates."""

import numpy as np

from qmv.props.lutrig import Projection, coord, make

ASSUMPTIONS = ["exact real arithmetic", "the projection is an invertible map (an affine map, different on each axis)"]


def near(ctx, a, b, tol=1e-7):
    d = a - b
    return ctx.all([d <= tol, d >= -tol])


def grid(ctx, spacing, most, fixed=None, symsp=False):
    """fixed: node counts known beforehand on some axes (keeps the paths few)."""
    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    if symsp:
        spacing = [ctx.real(f"sp{k}", 0.5, 2) for k in range(3)]
    ext = []
    for k in range(3):
        hi = (most[k] - 1) * (0.5 if symsp else spacing[k])
        ext.append(ctx.real(f"ext{k}", 0, hi) if most[k] > 1 else 0.0)
    ur = [a + e for a, e in zip(ll, ext)]
    with Projection():
        g = make(ctx, ll, ur, spacing if len(set(map(str, spacing))) > 1 else spacing[0])
        n = [int(x) for x in g.node_count]
        for k in range(3):
            ctx.check(near(ctx, g.node_spacing[k], spacing[k]), "declared spacing")
            ctx.check(near(ctx, g.ll_corner[k], ll[k]), "starts at the lower-left corner")
            last = (n[k] - 1) * spacing[k]
            ctx.check(ctx.all([last >= ext[k] - 1e-7, last - spacing[k] < ext[k] + 1e-7]),
                      "fewest nodes that reach the upper-right corner")
        # every node, from its flat index as the scan uses it, and as a list of indices
        total = n[0] * n[1] * n[2]
        flat = list(range(total))
        by_flat = g.index2grid(flat, unravel=True)
        c_flat = g.index2coord(flat, unravel=True)
        idx = [(f // (n[1] * n[2]), (f // n[2]) % n[1], f % n[2]) for f in flat]
        by_idx = g.index2grid(idx)
        one = g.index2grid(list(idx[total // 2]))
        ctx.check(by_flat.shape == (len(flat), 3) and by_idx.shape == (len(flat), 3) and one.shape == (1, 3), "one row of three per index")
        gx = g.grid_xyz
        cc = coord
        for r, ijk in enumerate(idx):
            pos = [ll[k] + ijk[k] * spacing[k] for k in range(3)]
            for k in range(3):
                ctx.check(near(ctx, by_flat[r, k], pos[k]), "flat index in C order")
                ctx.check(near(ctx, by_idx[r, k], pos[k]), "index to grid coordinate")
                ctx.check(near(ctx, gx[k][ijk], pos[k]), "coordinate arrays follow the index")
                ctx.check(near(ctx, c_flat[r, k], cc(pos)[k]), "index to geographic coordinate")
        for k in range(3):
            ctx.check(near(ctx, one[0, k], by_idx[total // 2, k]), "a single index")
        back = g.index2grid(by_idx, inverse=True)
        back2 = g.index2coord(g.index2coord(idx), inverse=True)
        back1 = g.index2coord(list(g.index2coord(list(idx[total - 1]))[0]), inverse=True)
        rt = g.coord2grid(g.coord2grid(by_idx, inverse=True))
        for r, ijk in enumerate(idx):
            for k in range(3):
                ctx.check(ctx.eq(back[r, k], ijk[k]), "grid coordinate back to its index")
                ctx.check(ctx.eq(back2[r, k], ijk[k]), "geographic coordinate back to its index")
                ctx.check(near(ctx, rt[r, k], by_idx[r, k]), "grid to geographic and back")
        for k in range(3):
            ctx.check(ctx.eq(back1[0, k], idx[total - 1][k]), "a single position back to its index")
        corners = g.grid_corners
        ctx.check(corners.shape == (8, 3), "eight corners")
        want = [(i, j, k) for i in (0, n[0] - 1) for j in (0, n[1] - 1) for k in (0, n[2] - 1)]
        for r, ijk in enumerate(want):
            for k in range(3):
                ctx.check(near(ctx, corners[r, k], ll[k] + ijk[k] * spacing[k]), "corners are the outermost nodes")
        for cells in (False, True, None, False, True):  # asking again gives the same
            e = g.get_grid_extent() if cells is None else g.get_grid_extent(cells=cells)
            lo = coord([ll[k] - (spacing[k] / 2 if cells else 0) for k in range(3)])
            hi = coord([ll[k] + (n[k] - 1) * spacing[k] + (spacing[k] / 2 if cells else 0) for k in range(3)])
            for k in range(3):
                ctx.check(ctx.all([near(ctx, e[0][k], lo[k]), near(ctx, e[1][k], hi[k])]), "extent")


def nearest(ctx, spacing, count):
    """Positions off the nodes map to the nearest node."""
    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    ur = [a + (c - (1.25 if c > 1 else 1)) * s for a, c, s in zip(ll, count, spacing)]
    off = [ctx.real(f"off{k}", -0.4, count[k] - 0.6) for k in range(3)]
    with Projection():
        g = make(ctx, ll, ur, spacing)
        pos = [a + o * s for a, o, s in zip(ll, off, spacing)]
        for out, how in ((g.index2grid([pos], inverse=True), "nearest node to a grid position"),
                         (g.index2coord([coord(pos)], inverse=True), "nearest node to a geographic position")):
            ctx.check(out.shape == (1, 3), "one row of three per index")
            for k in range(3):
                ctx.check(near(ctx, out[0, k], off[k], 0.5 + 1e-7), how)


def summary(ctx, spacing, count, units):
    """What is printed for a table; the extent that takes in the stations too."""
    import re

    import pandas as pd

    ll = [ctx.real(f"ll{k}", -50, 50) for k in range(3)]
    ur = [a + (c - (1.25 if c > 1 else 1)) * s for a, c, s in zip(ll, count, spacing)]
    with Projection():
        lut = make(ctx, ll, ur, spacing, units)
        lo = coord(ll)
        hi = coord([a + (c - 1) * s for a, c, s in zip(ll, count, spacing)])
        text = str(lut)
        got = [[ctx.number(x) for x in m] for m in re.findall(r"corner\s*: *(\S+?) *°N *(\S+?) *°E *(\S+) *(?:km|m)\b", text)]
        ctx.check(len(got) == 2, "two corners are printed")
        for g, w in zip(got, (lo, hi)):
            ctx.check(ctx.all([near(ctx, g[0], w[1], 0.6e-5), near(ctx, g[1], w[0], 0.6e-5), near(ctx, g[2], w[2], 0.6e-3)]),
                      "printed corners: latitude, longitude, depth")
        ctx.check(all(u == units for u in re.findall(r"°E *\S+ *(km|m)\b", text)) and lut.unit_name == units
                  and float(lut.unit_conversion_factor) == (1000.0 if units == "km" else 1.0), "units of the grid")
        st = [[ctx.real(f"station{i}{k}", *b) for k, b in enumerate(((-1, 1), (-1, 1), (-60, 60)))] for i in range(2)]
        col = (lambda v: np.array(v, dtype=object)) if ctx.symbolic else np.array
        lut.station_data = pd.DataFrame({"Name": ["A", "B"], **{n: col([s[k] for s in st]) for k, n in enumerate(
            ("Longitude", "Latitude", "Elevation"))}})
        e = lut.station_extent
        m = lut.max_extent
        clo = coord([a - s / 2 for a, s in zip(ll, spacing)])
        chi = coord([a + (c - 0.5) * s for a, c, s in zip(ll, count, spacing)])
        for k in range(3):
            a, b = st[0][k], st[1][k]
            low, high = ctx.ite(a <= b, a, b), ctx.ite(a <= b, b, a)
            ctx.check(ctx.all([ctx.eq(e[0][k], low), ctx.eq(e[1][k], high)]), "extent of the stations")
            low, high = ctx.ite(clo[k] <= low, clo[k], low), ctx.ite(chi[k] >= high, chi[k], high)
            gap = (high - low) / 20
            ctx.check(ctx.all([near(ctx, m[0][k], low - gap), near(ctx, m[1][k], high + gap)]),
                      "extent of the grid and the stations, and a twentieth more on each side")


def cases_s(tier):
    return [dict(spacing=[1.0, 0.5, 2.0], count=[3, 2, 3], units="km"), dict(spacing=[40.0, 50.0, 25.0], count=[2, 3, 2], units="m")]


def cases(tier):
    out = [dict(spacing=[1.0, 0.5, 2.0], most=[4, 1, 3]), dict(spacing=[0.5, 2.0, 0.25], most=[1, 3, 4]),
           dict(spacing=[2.0, 2.0, 2.0], most=[3, 2, 2]), dict(spacing=None, most=[3, 1, 1], symsp=True)]
    if tier == "thorough":
        out += [dict(spacing=[1.0, 0.5, 2.0], most=[4, 3, 4]), dict(spacing=[0.1, 0.2, 3.0], most=[7, 2, 5]),
                dict(spacing=None, most=[2, 3, 2], symsp=True)]
    return out


def cases_n(tier):
    return [dict(spacing=[1.0, 0.5, 2.0], count=[3, 2, 3]), dict(spacing=[0.4, 0.4, 0.4], count=[1, 4, 2])]


HARNESSES = [
    dict(name="grid", fn=grid, cases=cases,
         expect=["fewest nodes that reach the upper-right corner", "flat index in C order", "extent",
                 "grid coordinate back to its index", "geographic coordinate back to its index"],
         bounds="any corners (in the stated range), grids of up to 4 nodes per axis, listed spacings and any spacing on one axis"),
    dict(name="nearest", fn=nearest, cases=cases_n,
         expect=["nearest node to a grid position", "nearest node to a geographic position"],
         bounds="any corner and any position on two grids"),
    dict(name="summary", fn=summary, cases=cases_s,
         expect=["printed corners: latitude, longitude, depth", "extent of the stations", "units of the grid",
                 "extent of the grid and the stations, and a twentieth more on each side"],
         bounds="any corner of two grids (one in metres), any positions of two stations"),
]
