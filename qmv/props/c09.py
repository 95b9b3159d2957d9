# -*- coding: utf-8 -*-
"""C09: scan results survive the integer encoding on disk."""

import numpy as np

from qmv.props.c10 import Files
from qmv.props.common import time_env, values
from qmv.symtime import at

ASSUMPTIONS = ["arithmetic is exact up to the rounding to integers (double rounding of the products is "
               "far below a quantisation step)"]
STUBS = ["Stream.write / read keep the 32-bit integer samples (miniSEED is lossless); the replay uses "
         "real miniSEED files"]


class FilesRW(Files):
    """Also serves what was written back to `read`."""

    def __enter__(self):
        super().__enter__()
        import obspy

        import quakemigrate.io.scanmseed as sm

        self.sread = sm.read
        if self.ctx.symbolic:
            sm.read = self.read
        return self

    def read(self, filename, starttime=None, endtime=None, format=None, **k):
        import pathlib

        import obspy

        name = pathlib.Path(filename).name
        if name not in self.store:
            raise FileNotFoundError(name)
        st = obspy.Stream()
        for station, t0, delta, data in self.store[name]:
            a = values(self.ctx, data) if not all(isinstance(x, (int, np.integer)) for x in data) \
                else np.array(data, dtype=np.int32)
            tr = obspy.Trace(data=a, header=dict(network="NW", station=station, delta=delta, starttime=t0))
            st += tr
        if starttime is not None:
            st._ltrim(starttime)
        if endtime is not None:
            st._rtrim(endtime)
        st.traces = [t for t in st if t.stats.npts > 0]
        return st

    def __exit__(self, *a):
        import quakemigrate.io.scanmseed as sm

        sm.read = self.sread
        super().__exit__(*a)


def encode(ctx, n, units, big):
    from quakemigrate.io.scanmseed import ScanmSEED, read_scanmseed

    ucf = {"km": 1000.0, "m": 1.0}[units]
    hi = 10**7 if big else 30000
    coa = [ctx.real(f"coa{i}", 0, hi) for i in range(n)]
    norm = [ctx.real(f"norm{i}", 0, hi) for i in range(n)]
    x = [ctx.real(f"x{i}", -180, 180) for i in range(n)]
    y = [ctx.real(f"y{i}", -90, 90) for i in range(n)]
    zmax = 2000000 / ucf
    z = [ctx.real(f"z{i}", -zmax, zmax) for i in range(n)]
    with FilesRW(ctx) as files:
        sm = ScanmSEED(files.run, False, 10)
        sm.append(at(ctx, 40000), values(ctx, coa), values(ctx, norm),
                  values(ctx, [[x[i], y[i], z[i]] for i in range(n)]), ucf)
        sm.write()
        data, stats = read_scanmseed(files.run, at(ctx, 40000), at(ctx, 40000 + (n - 1) / 10), 0.0, ucf)
        ctx.check(len(data) == n, "every sample is read back")
        tiny = 0 if ctx.symbolic else 1e-9
        for i in range(n):
            for c, v in (("COA", coa[i]), ("COA_N", norm[i])):
                want = ctx.min([v, 21474])
                d = data[c].iloc[i] - want
                ctx.check(ctx.all([d <= 0.000005 + tiny, d >= -0.000005 - tiny]),
                          "coalescence survives (clipped at 21474)")
            for c, v, h in (("X", x[i], 0.0000005), ("Y", y[i], 0.0000005), ("Z", z[i], 0.0005 / ucf)):
                d = data[c].iloc[i] - v
                ctx.check(ctx.all([d <= h + tiny, d >= -h - tiny]), "coordinates survive")


def cases(tier):
    out = [dict(n=1, units=u, big=b) for u in ("km", "m") for b in (False, True)]
    out.append(dict(n=2, units="km", big=True))
    if tier == "thorough":
        out += [dict(n=3, units=u, big=True) for u in ("km", "m")]
    return out


HARNESSES = [
    dict(name="encode", fn=encode, cases=cases, env=time_env, subproc=True,
         expect=["coalescence survives (clipped at 21474)", "coordinates survive"],
         bounds="<=2 samples (3 thorough), coalescence 0..1e7, |X|<=180, |Y|<=90, |Z|<=2000 km, km and m grids"),
]
