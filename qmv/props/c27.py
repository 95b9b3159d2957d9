# -*- coding: utf-8 -*-
"""C27: traveltime tables come from the geometry and the velocity model given."""

import os
import pathlib
import shutil
import struct
import subprocess
import sys
import types

import numpy as np
import pandas as pd

from qmv.props.c24 import near
from qmv.props.common import col, time_env, values
from qmv.props.lutrig import A, B, Projection, coord, projs
from qmv.props.rig import scratch_dir

ASSUMPTIONS = [
    "exact real arithmetic; the projection is an invertible map (affine); its inverse is exact to 1e-9 where so stated",
    "NonLinLoc and scikit-fmm are correct: only what they are asked and how their answers are used is checked",
]
STUBS = [
    "NonLinLoc's Vel2Grid and Grid2Time: read the control file, write a table of arbitrary values of the grid asked for",
    "skfmm.travel_time: records its arguments, returns a tagged table",
    "SciPy's interp1d: piecewise linear (SciPy's own when replaying)",
]


def env():
    import quakemigrate.util as util

    return time_env() + [(util, "logger", lambda *a, **k: None)]


def spec(ctx, ll, count, spacing, units="km"):
    g, c = projs(units)
    ur = [a + (n - (1.25 if n > 1 else 1)) * s for a, n, s in zip(ll, count, spacing)]
    return dict(ll_corner=coord(ll), ur_corner=coord(ur), node_spacing=list(spacing), grid_proj=g, coord_proj=c)


def stations(ctx, named):
    co = {n: coord(x) for n, x in named.items()}
    d = pd.DataFrame({"Longitude": col(ctx, [c[0] for c in co.values()]), "Latitude": col(ctx, [c[1] for c in co.values()]),
                      "Elevation": col(ctx, [c[2] for c in co.values()]), "Name": list(co)})
    return d


def homogeneous(ctx, count, spacing, speeds, units="km", fixed=()):
    from quakemigrate.lut import compute_traveltimes

    ll = [ctx.real(f"ll{k}", -20, 20) if "ll" not in fixed else 1.0 + k for k in range(3)]
    pos = {"STB": [ctx.real(f"s{k}", -30, 30) for k in range(3)], "STA": [2.5, -4.0, 0.25]}
    phases = list(speeds)
    with Projection():
        lut = compute_traveltimes(spec(ctx, ll, count, spacing, units), stations(ctx, pos), "homogeneous", phases=phases,
                                  **{f"v{p.lower()}": v for p, v in speeds.items()})
        ctx.check(set(lut.traveltimes) == set(pos) and list(lut.phases) == phases, "every station and phase")
        ctx.check([int(n) for n in lut.node_count] == list(count), "node count")
        for s, x in pos.items():
            ctx.check(set(lut.traveltimes[s]) == set(phases), "every station and phase")
            for p, v in speeds.items():
                t = lut.traveltimes[s][p]
                ctx.check(t.shape == tuple(count), "one traveltime per node")
                for idx in np.ndindex(*count):
                    d2 = sum((ll[k] + idx[k] * spacing[k] - x[k]) ** 2 for k in range(3))
                    tv = t[idx] * v
                    e = tv * tv - d2
                    ctx.check(t[idx] >= 0, "not negative")
                    ctx.check(ctx.all([e <= 1e-6, e >= -1e-6]) if ctx.symbolic else abs(tv - d2**0.5) < 1e-6,
                              "distance over velocity")


# ------------------------------------------------------------------ fast marching
class Interp1d:
    def __init__(self, x, y, **k):
        self.x, self.y = list(x), list(y)

    def __call__(self, v):
        from qmv.npsym import SymArray

        v = np.asarray(v, dtype=object)
        out = []
        for z in v.flatten():
            i = 0
            while i < len(self.x) - 2 and bool(z >= self.x[i + 1]):
                i += 1
            a, b = self.x[i], self.x[i + 1]
            out.append(self.y[i] if self.y[i] is self.y[i + 1] or self.y[i] == self.y[i + 1] else
                       self.y[i] + (self.y[i + 1] - self.y[i]) * (z - a) * (1.0 / (b - a)))
        return np.array(out, dtype=object).reshape(v.shape).view(SymArray)


class FMM:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        import quakemigrate.lut.create_lut as C
        import scipy.interpolate as si

        self.calls = []
        calls = self.calls

        def travel_time(phi, speed, dx=1.0, **k):
            calls.append((np.array(phi), speed, dx))
            return np.full(np.shape(phi), 100.0 + len(calls))

        m = types.ModuleType("skfmm")
        m.travel_time = travel_time
        self.mod = sys.modules.get("skfmm")
        sys.modules["skfmm"] = m
        self.saved = (C, getattr(C, "interp1d", None), si, si.interp1d)
        if self.ctx.symbolic:
            if self.saved[1] is not None:
                C.interp1d = Interp1d
            si.interp1d = Interp1d
        return self

    def __exit__(self, *a):
        C, x, si, y = self.saved
        if x is not None:
            C.interp1d = x
        si.interp1d = y
        if self.mod is None:
            sys.modules.pop("skfmm", None)
        else:
            sys.modules["skfmm"] = self.mod


def fmm(ctx, count, spacing, model, phases=("P", "S"), move="ll"):
    """move: what is free - the depth of the grid, or a station's position on one axis."""
    from quakemigrate.lut import compute_traveltimes

    ll = [-3.0, 2.0, ctx.real("top", -5, 25) if move == "ll" else -1.0]
    last = [a + (n - 1) * s for a, n, s in zip(ll, count, spacing)]
    pos = {"STB": [ll[0] + 0.3 * spacing[0], ll[1] + 0.1, ll[2] + 0.6 * spacing[2]], "STA": [ll[0] + 0.7 * spacing[0], ll[1] + 0.1, ll[2] + 0.1]}
    ur = [a + (n - (1.25 if n > 1 else 1)) * s for a, n, s in zip(ll, count, spacing)]
    if move != "ll":
        x = pos["STB"][move] = ctx.real("station", ll[move] - 2, last[move] + 2)
        for edge in (ll[move], ur[move]):  # on the very edge, rounding decides
            ctx.assume(ctx.any([x >= edge + 1e-6, x <= edge - 1e-6]))
    vm = pd.DataFrame({"Depth": model["Depth"], "Vp": model["Vp"], "Vs": model["Vs"]}).rename(columns={"Vp": "VP", "Vs": "VS"})
    vm.columns = ["Depth", "Vp", "Vs"]
    sp = spec(ctx, ll, count, spacing)
    with Projection(), FMM(ctx) as f:
        inside = True
        for k in range(3):
            inside = inside and bool(pos["STB"][k] >= ll[k] - 1e-12) and bool(pos["STB"][k] <= ur[k])
        try:
            lut = compute_traveltimes(sp, stations(ctx, pos), "1dfmm", phases=list(phases), vmod=vm)
        except ValueError:
            ctx.check(not inside, "refused only when a station is outside the grid")
            return
        ctx.check(inside, "stations outside the grid are refused")
        ctx.check(len(f.calls) == 2 * len(phases), "one computation per station and phase")
        for p in phases:
            for s, x in pos.items():
                t = lut.traveltimes[s][p]
                ctx.check(t.shape == tuple(count), "one traveltime per node")
                phi, speed, dx = f.calls[int(t.flat[0]) - 101]
                ctx.check(list(np.asarray(dx)) == list(spacing), "node spacing")
                on = [idx for idx in np.ndindex(*count) if phi[idx] > 0]
                ctx.check(len(on) == 1, "one source node")
                for k in range(3):
                    d = x[k] - (ll[k] + on[0][k] * spacing[k])
                    h = spacing[k] / 2 + 1e-6
                    ctx.check(ctx.all([d <= h, d >= -h]), "the source is the node nearest to the station")
                v = model[f"V{p.lower()}"]
                dep = model["Depth"]
                for idx in np.ndindex(*count):
                    z = ll[2] + idx[2] * spacing[2]
                    if z <= dep[0]:
                        w = v[0]
                    elif z >= dep[-1]:
                        w = v[-1]
                    else:
                        i = 0
                        while not bool(z <= dep[i + 1]):
                            i += 1
                        w = v[i] + (v[i + 1] - v[i]) * (z - dep[i]) * (1.0 / (dep[i + 1] - dep[i]))
                    ctx.check(near(ctx, speed[idx], w, 1e-6), "velocity interpolated between the depths given")
                ctx.check(len({float(q) for q in t.flatten()}) == 1, "traveltimes as computed")


# ------------------------------------------------------------------ NonLinLoc
class NonLinLoc:
    """Stand-ins for Vel2Grid / Grid2Time in a scratch directory."""

    def __init__(self, ctx, tables):
        self.ctx, self.tables = ctx, tables  # tables(station, phase, ny, nz) -> rows

    def __enter__(self):
        self.dir = scratch_dir("c27")
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        self.seen, self.made = [], []
        self.co, self.un = subprocess.check_output, struct.unpack
        subprocess.check_output = self.run
        if self.ctx.symbolic:
            struct.unpack = self.unpack
        return self

    def __exit__(self, *a):
        subprocess.check_output, struct.unpack = self.co, self.un
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)

    def unpack(self, fmt, buf):
        first = self.un("f", buf[:4])[0]
        if len(buf) == 4 * len(fmt) and first < 0 and fmt == "f" * len(fmt):
            return tuple(v for row in self.made[int(-first) - 1] for v in row)
        return self.un(fmt, buf)

    def write(self, stem, rows, header):
        """rows: table flattened to two dimensions."""
        pathlib.Path(stem).parent.mkdir(parents=True, exist_ok=True)
        open(f"{stem}.hdr", "w").write(header)
        flat = [v for r in rows for v in r]
        if self.ctx.symbolic:
            self.made.append(rows)
            flat = [-float(len(self.made))] + [0.0] * (len(flat) - 1)
        open(f"{stem}.buf", "wb").write(struct.pack("f" * len(flat), *[float(v) for v in flat]))

    def run(self, cmd, **k):
        num = self.ctx.number
        lines = [ln.split() for ln in open(cmd[1]).read().splitlines() if ln.strip()]
        c = {}
        for ln in lines:
            c.setdefault(ln[0], []).append(ln[1:])
        self.ctx.check(c["TRANS"][0][0] == "NONE", "no transformation")
        if cmd[0].endswith("Vel2Grid"):
            self.vel = (c["VGOUT"][0][0], c["VGTYPE"][0][0])
            return b""
        assert cmd[0].endswith("Grid2Time"), cmd
        inp, outp, ph = c["GTFILES"][0][:3]
        self.ctx.check(self.vel == (inp, ph), "the phase's own velocity grid")
        g = c["VGGRID"][0]
        self.ctx.check(c["GTMODE"][0][0] == "GRID2D" and int(float(g[0])) == 2, "a two-dimensional grid")
        src = c["GTSRCE"][0]
        ny, nz = [int(num(x)) if not self.ctx.symbolic else self.whole(num(x)) for x in g[1:3]]
        d = [num(x) for x in g[6:9]]
        info = dict(station=src[0], phase=ph, kind=src[1], pos=[num(x) for x in src[2:5]], ny=ny, nz=nz,
                    origin=[num(x) for x in g[3:6]], d=d, kindgrid=g[9],
                    layers=[[num(x) for x in ln] for ln in c["LAYER"]])
        rows = self.tables(src[0], ph, ny, nz)
        info["rows"] = rows
        self.seen.append(info)
        head = f"1 {ny} {nz}  {g[3]} {g[4]} {g[5]}  {g[6]} {g[7]} {g[8]} TIME2D FLOAT\n{src[0]} 0.0 0.0 0.0\nTRANSFORM  NONE\n"
        self.write(f"{outp}.{ph}.{src[0]}.time", rows, head)
        return b"completed"

    @staticmethod
    def whole(x):
        from qmv import sym

        return int(x) if isinstance(x, (int, float)) else sym.CTX.concretize(x.floor().e)


def nlloc(ctx, ll, count, spacing, pos, dx, units="km", model=None, phases=("P", "S"), block=False, free="tables",
          station_z=None, cover=True):
    from quakemigrate.lut import compute_traveltimes

    cf = 1.0 if units == "km" else 1000.0
    pos = {s: list(x) for s, x in pos.items()}
    if station_z:
        pos["STB"][2] = ctx.real("station_z", *station_z)
    model = {k: list(v) for k, v in (model or {"Depth": [-1.0, 2.0, 7.5], "Vp": [4.0, 5.5, 6.0], "Vs": [2.0, 3.2, 3.5]}).items()}
    if free == "model":
        model["Vp"][1] = ctx.real("vp1", 4, 6)
        model["Vs"][2] = ctx.real("vs2", 2, 4)
    vm = pd.DataFrame({k: col(ctx, [x * cf for x in v]) for k, v in model.items()})

    def tables(s, p, ny, nz):
        if free == "tables":
            return [[ctx.real(f"{s}{p}_{i}_{k}", 0, 60) for k in range(nz)] for i in range(ny)]
        return [[ctx.real(f"{s}{p}", 1, 2) * 1 if i == k == 0 else float((7 * i * i + 5 * k * k + 3 * i * k + ord(s[-1]) * (1 + (p == "S"))) % 97) for k in range(nz)] for i in range(ny)]

    ll_u, sp_u = [x * cf for x in ll], [x * cf for x in spacing]
    pos_u = {s: [v * cf for v in x] for s, x in pos.items()}
    with Projection(), NonLinLoc(ctx, tables) as nl:
        lut = compute_traveltimes(spec(ctx, ll_u, count, sp_u, units), stations(ctx, pos_u), "1dnlloc", phases=list(phases),
                                  vmod=vm, nlloc_dx=dx, block_model=block)
        ctx.check(len(nl.seen) == len(pos) * len(phases), "one table per station and phase")
        ctx.check(set(lut.traveltimes) == set(pos), "every station")
        for info in nl.seen:
            s, p = info["station"], info["phase"]
            x = pos[s]
            ctx.check(info["kind"] == "XYZ", "the source position is in kilometres")
            for k in range(3):
                ctx.check(near(ctx, info["pos"][k], x[k], 1e-6), "the source is the station")
            for v in info["d"]:
                ctx.check(near(ctx, v, dx, 1e-9), "node spacing asked for")
            z0 = info["origin"][2]
            v = model[f"V{p.lower()}"]
            ctx.check(len(info["layers"]) == len(v), "every layer")
            for i, ln in enumerate(info["layers"]):
                grad = 0.0
                if not block and i + 1 < len(v):
                    grad = (v[i + 1] - v[i]) * (1.0 / (model["Depth"][i + 1] - model["Depth"][i]))
                at = 1 if p == "P" else 3
                for have, want in zip([ln[0], ln[at], ln[at + 1]], [model["Depth"][i], v[i], grad]):
                    ctx.check(near(ctx, have, want, 1e-6), "layers of the velocity model")
            t = lut.traveltimes[s][p]
            ctx.check(t.shape == tuple(count), "one traveltime per node")
            rows = info["rows"]
            for idx in np.ndindex(*count):
                q = [ll[k] + idx[k] * spacing[k] for k in range(3)]
                r = ((q[0] - x[0]) ** 2 + (q[1] - x[1]) ** 2) ** 0.5
                u, w = r / dx, (q[2] - z0) * (1.0 / dx)
                i = int(np.floor(u + 2e-5))
                k = int(np.floor(w + 2e-5)) if not ctx.symbolic or isinstance(w, float) else self_floor(w)
                ok = 0 <= i < info["ny"] - 1 and 0 <= k < info["nz"] - 1
                ctx.check(ok, "the table covers every node")
                if not ok:
                    return
                a, b = u - i, w - k
                want = (rows[i][k] * (1 - a) + rows[i + 1][k] * a) * (1 - b) + (rows[i][k + 1] * (1 - a) + rows[i + 1][k + 1] * a) * b
                ctx.check(near(ctx, t[idx], want, 1e-2), "interpolated at the node's distance and depth")


def self_floor(w, slack=2e-5):
    from qmv import sym

    return w if isinstance(w, int) else sym.CTX.concretize((w + slack).floor().e)


def bilinear(ctx, origin, dims, shape, xlo, xhi, zlo, zhi):
    """The interpolation itself, any position (skipped where there is no such function)."""
    import quakemigrate.lut.create_lut as C

    f = getattr(C, "_bilinear_interpolate", None)
    x, z = ctx.real("x", xlo, xhi), ctx.real("z", zlo, zhi)
    if f is None:
        return
    t = values(ctx, [[float((11 * i * i + 5 * k + 3 * i * k * k) % 31) for k in range(shape[1])] for i in range(shape[0])])
    try:
        got = f(values(ctx, [[x, z]]), np.array(origin), np.array(dims), t)[0]
    except TypeError:  # called in some other way now: the nlloc harness covers it
        return
    u, w = (x - origin[0]) * (1.0 / dims[0]), (z - origin[1]) * (1.0 / dims[1])
    i, k = [self_floor(v, 0) if ctx.symbolic else int(np.floor(v + 1e-9)) for v in (u, w)]
    cell = [t[i, k], t[i + 1, k], t[i, k + 1], t[i + 1, k + 1]]
    ctx.check(ctx.all([got >= min(cell) - 1e-6, got <= max(cell) + 1e-6]), "between the surrounding values")
    # along the edges of the cell the value is linear; at its corners it is the table's
    for a, b, v in ((0, 0, cell[0]), (1, 0, cell[1]), (0, 1, cell[2]), (1, 1, cell[3])):
        # bounded slope: |T(x) - T(corner)| <= largest difference times the distance from the corner
        far = abs(u - i - a) + abs(w - k - b)
        m = max(cell) - min(cell)
        ctx.check(ctx.all([got - v <= m * far + 1e-6, v - got <= m * far + 1e-6]), "the table's value at its nodes")


ELLIPSOIDS = {  # semi-major axis (m) and inverse flattening (0: a sphere)
    "WGS-84": (6378137.0, 298.257223563), "GRS-80": (6378137.0, 298.257222101), "WGS-72": (6378135.0, 298.26),
    "Australian": (6378160.0, 298.25), "Krasovsky": (6378245.0, 298.3), "International": (6378388.0, 297.0),
    "Hayford-1909": (6378388.0, 297.0), "Clarke-1880": (6378249.145, 293.465), "Clarke-1866": (6378206.4, 294.9786982),
    "Airy": (6377563.396, 299.3249646), "Bessel": (6377397.155, 299.1528128), "Hayford-1830": (6377276.345, 300.8017),
    "Sphere": (6370997.0, 0),
}
LAMBERT = "TRANSFORM  LAMBERT RefEllipsoid {e}  LatOrig 64.8  LongOrig -16.5  FirstStdParal 64.7  SecondStdParal 64.9  RotCW 0.0"
MERCATOR = "TRANSFORM  TRANS_MERC RefEllipsoid {e}  LatOrig 64.8  LongOrig -16.5  RotCW 0.0"


def same_projection(proj, trans):
    """Grid coordinates are those NonLinLoc gives a few points."""
    import math

    from pyproj import Proj

    w = trans.split()
    if w[1] == "SIMPLE":
        la, lo = float(w[3]), float(w[5])
        want = lambda x, y: ((x - lo) * 1000 / 9 * math.cos(math.radians(y)), (y - la) * 1000 / 9)
    else:
        a, rf = ELLIPSOIDS.get(w[3], ELLIPSOIDS["WGS-84"])
        d = dict(lat_0=float(w[5]), lon_0=float(w[7]), units="km", a=a, **(dict(rf=rf) if rf else dict(b=a)))
        if w[1] == "LAMBERT":
            d.update(lat_1=float(w[9]), lat_2=float(w[11]))
        want = Proj(proj={"LAMBERT": "lcc", "TRANS_MERC": "tmerc"}[w[1]], **d)
    for x, y in ((-16.5, 64.8), (-16.0, 65.1), (-17.75, 64.2), (-15.0, 63.9)):
        if any(abs(g - h) > 2e-4 for g, h in zip(proj(x, y), want(x, y))):
            return False
    return True


def ellipsoids(ctx):
    """Every ellipsoid NonLinLoc knows; an unknown transformation is refused."""
    from quakemigrate.lut import read_nlloc

    t = ctx.choose("transform", [k + "|" + e for k in ("LAMBERT", "TRANS_MERC") for e in [*ELLIPSOIDS, "Other"]] +
                   ["SIMPLE", "NONE", "SDC", "AZIMUTHAL_EQUIDIST"])
    if t == "SIMPLE":
        trans = "TRANSFORM  SIMPLE LatOrig 64.8  LongOrig -16.5  RotCW 0.0"
    elif "|" in t:
        trans = {"L": LAMBERT, "T": MERCATOR}[t[0]].format(e=t.split("|")[1])
    else:
        trans = f"TRANSFORM  {t}" + ("" if t == "NONE" else " RefEllipsoid WGS-84 LatOrig 64.8  LongOrig -16.5  RotCW 0.0")
    v = ctx.real("t", 0, 60)
    with NonLinLoc(ctx, None) as nl:
        nl.write("tabs/layer.P.STA.time", [[v] * 8],
                 "2 2 2 -1.0 -2.0 -3.0 1.0 1.0 1.0 TIME FLOAT\nSTA 1.0 2.0 3.0\n" + trans + "\n")
        g = pd.DataFrame({"Longitude": [-16.4], "Latitude": [64.7], "Elevation": [0.0], "Name": ["STA"]})
        try:
            lut = read_nlloc("tabs", g, phases=["P"])
        except NotImplementedError:
            lut = None
    ctx.check((lut is None) == (t != "SIMPLE" and "|" not in t), "transformations that are not supported are refused")
    if lut is not None:
        ctx.check(same_projection(lut.grid_proj, trans), "projection of the tables read")
        ctx.check(all(abs(a - b) < 1e-6 for a, b in zip(lut.ll_corner, (-1.0, -2.0, -3.0))), "origin of the tables read")
        ctx.check(ctx.all([near(ctx, lut.traveltimes["STA"]["P"][i], v, 1e-4) for i in np.ndindex(2, 2, 2)]), "traveltimes as read")


def read(ctx, trans, count, origin, spacing, phases=("P", "S"), slop=True):
    """A set of NonLinLoc tables."""
    from quakemigrate.lut import read_nlloc

    sl = {}

    def err(k):
        sl[k] = sl.get(k, 0) + 1
        return ctx.real(f"rounding{k}_{sl[k]}", -1e-9, 1e-9)

    def tables(s, p):
        return [[ctx.real(f"{s}{p}_{n}", 0, 60) for n in range(int(np.prod(count)))]]

    names = ["STB", "STA"]
    with Projection(slop=err if slop else None) as pr, NonLinLoc(ctx, None) as nl:
        want = {}
        for s in names:
            for p in phases:
                want[s, p] = tables(s, p)
                head = (" ".join(str(v) for v in [*count, *origin, *spacing]) + " TIME FLOAT\n" + f"{s} 1.0 2.0 3.0\n" + trans + "\n")
                nl.write(f"tabs/layer.{p}.{s}.time", want[s, p], head)
        g = pd.DataFrame({"Longitude": 0.0, "Latitude": 0.0, "Elevation": 0.0, "Name": names})
        lut = read_nlloc("tabs", g, phases=list(phases))
        ctx.check([int(n) for n in lut.node_count] == list(count), "node count of the tables read")
        for k in range(3):
            ctx.check(near(ctx, lut.ll_corner[k], origin[k], 1e-6), "origin of the tables read")
            ctx.check(near(ctx, lut.node_spacing[k], spacing[k], 1e-9), "spacing of the tables read")
        ctx.check(same_projection(lut.grid_proj, trans), "projection of the tables read")
        ctx.check(lut.unit_name == "km", "NonLinLoc grids are in kilometres")
        ctx.check(list(lut.phases) == list(phases) and list(lut.station_data["Name"]) == names, "stations and phases")
        for (s, p), v in want.items():
            t = lut.traveltimes[s][p]
            ctx.check(t.shape == tuple(count), "one traveltime per node")
            for n, idx in enumerate(np.ndindex(*count)):
                ctx.check(near(ctx, t[idx], v[0][n], 1e-4), "traveltimes as read")


def cases_h(tier):
    return [dict(count=[2, 1, 3], spacing=[1.0, 2.0, 0.5], speeds={"P": 5.0, "S": 2.5}),
            dict(count=[2, 2, 2], spacing=[0.25, 1.0, 4.0], speeds={"S": 3.0}, units="m"),
            dict(count=[1, 3, 2], spacing=[1.0, 1.0, 1.0], speeds={"S": 2.0, "P": 4.0}, fixed=["ll"])]


M1 = {"Depth": [-1.0, 2.0, 7.5, 20.0], "Vp": [4.0, 5.5, 5.5, 7.0], "Vs": [2.0, 3.2, 3.5, 4.0]}
M2 = {"Depth": [0.0, 3.0], "Vp": [5.0, 4.0], "Vs": [3.0, 2.0]}


def cases_f(tier):
    out = [dict(count=[2, 2, 3], spacing=[1.0, 2.0, 4.0], model=M1), dict(count=[2, 2, 4], spacing=[2.0, 2.0, 1.0], model=M2, phases=("S",)),
           dict(count=[3, 2, 2], spacing=[1.0, 2.0, 4.0], model=M1, phases=("P",), move=0),
           dict(count=[2, 3, 2], spacing=[1.0, 2.0, 4.0], model=M1, phases=("P",), move=1),
           dict(count=[2, 2, 4], spacing=[1.0, 2.0, 2.0], model=M2, phases=("S", "P"), move=2)]
    return out


def cases_nl(tier):
    G = dict(ll=[-0.4, 0.3, -0.5], count=[2, 2, 2], spacing=[0.5, 0.7, 0.6])
    S1 = {"STB": [0.0, 0.5, -0.73]}
    S2 = {"STB": [0.1, 0.5, 0.2], "STA": [-0.2, 0.2, 0.55]}
    out = [dict(G, pos=S1, dx=0.25), dict(G, pos=S2, dx=0.5, phases=("S",), units="m"),
           dict(G, pos={"STA": [0.0, 0.5, 1.9]}, dx=0.2, phases=("P",)),
           dict(G, pos=S2, dx=0.5, free="model"), dict(G, pos=S1, dx=0.5, free="model", units="m", block=True),
           dict(G, pos=S1, dx=0.25, phases=("P",), free="none", station_z=[-1.2, 1.0]),
           dict(G, pos=S2, dx=0.5, phases=("S",), free="none", station_z=[-0.9, 0.0], units="m")]
    if tier == "thorough":
        out += [dict(G, pos=S1, dx=d, phases=("S",), free="none", station_z=[-2.0, 2.0], units=u) for d in (0.1, 0.3) for u in ("km", "m")]
        out += [dict(ll=[-1.0, 0.0, z], count=[3, 2, 3], spacing=[0.5, 0.7, 0.6], pos=S2, dx=0.25) for z in (-0.5, 0.1, 0.33)]
    return out


def cases_b(tier):
    return [dict(origin=[0.0, -0.73], dims=[0.25, 0.25], shape=[4, 4], xlo=0, xhi=0.74, zlo=-0.73, zhi=0.01),
            dict(origin=[0.0, 1.0], dims=[0.5, 0.2], shape=[3, 5], xlo=0, xhi=0.99, zlo=1.0, zhi=1.79)]


def cases_r(tier):
    return [dict(trans=LAMBERT.format(e="WGS-84"), count=[3, 2, 2], origin=[-12.0, -7.5, -1.5], spacing=[0.5, 0.5, 0.5]),
            dict(trans="TRANSFORM  SIMPLE LatOrig 64.8  LongOrig -16.5  RotCW 0.0", count=[2, 4, 1],
                 origin=[3.0, 7.5, 0.0], spacing=[1.0, 2.0, 0.25], phases=("P",)),
            dict(trans=MERCATOR.format(e="Bessel"), count=[2, 2, 3], origin=[-1.0, -2.0, -3.0], spacing=[1.0, 1.0, 2.0],
                 phases=("S", "P"))]


HARNESSES = [
    dict(name="homogeneous", fn=homogeneous, cases=cases_h, env=env, expect=["distance over velocity", "every station and phase"],
         bounds="any corner and any position of one of two stations; grids of up to 8 nodes"),
    dict(name="fmm", fn=fmm, cases=cases_f, env=env,
         expect=["velocity interpolated between the depths given", "the source is the node nearest to the station",
                 "stations outside the grid are refused"],
         bounds="two velocity models; any depth of the grid, or any position of a station on one axis; up to 16 nodes"),
    dict(name="nlloc", fn=nlloc, cases=cases_nl, env=env,
         expect=["interpolated at the node's distance and depth", "layers of the velocity model", "the table covers every node",
                 "the source is the station"],
         bounds="2 x 2 x 2 nodes; any values of the 2-D tables, any depth of a station, or any velocity in one layer; km and m"),
    dict(name="bilinear", fn=bilinear, cases=cases_b, env=env, expect=[], bounds="any position in two small 2-D tables"),
    dict(name="read", fn=read, cases=cases_r, env=env,
         expect=["node count of the tables read", "traveltimes as read", "projection of the tables read"],
         bounds="three sets of tables, any traveltimes, any rounding of the projection up to 1e-9"),
    dict(name="ellipsoids", fn=ellipsoids, cases=lambda tier: [{}], env=env,
         expect=["projection of the tables read", "transformations that are not supported are refused"],
         bounds="every transformation and ellipsoid NonLinLoc knows, one table with any traveltime"),
]
