# -*- coding: utf-8 -*-
"""C01: the 4-D coalescence map is the geometric mean of the time-shifted onsets."""

import numpy as np

from qmv.props.common import core_env, int_table, values

USES_IR = ["migrate", "migrate.omp_outlined"]
ASSUMPTIONS = [
    "doubles are modelled as exact reals (rounding error of log/exp/sum is outside the claim)",
    "exp/log are uninterpreted functions (congruence only)",
    "traveltimes never exceed the post-pad of the onset functions (guaranteed by C06/C07)",
]
STUBS = ["ctypes call boundary: arrays are passed to the LLVM-IR interpreter by reference"]


def migrate(ctx, n_on, grid, ns, fsmp, lsmp, threads, avail):
    from quakemigrate.core import lib

    nt = fsmp + ns + lsmp
    on = [[ctx.real(f"o{i}_{t}", -1, 1000) for t in range(nt)] for i in range(n_on)]
    nodes = int(np.prod(grid))
    tt = [[ctx.int(f"tt{n}_{i}", -2, lsmp) for i in range(n_on)] for n in range(nodes)]
    onsets = values(ctx, on)
    table = int_table(ctx, tt).reshape(tuple(grid) + (n_on,))
    before = [[v for v in row] for row in on]
    out = lib.migrate(onsets, table, fsmp, lsmp, avail, threads)
    ctx.check(tuple(out.shape) == tuple(grid) + (ns,), "map shape is grid + samples")
    flat = out.reshape(nodes, ns)
    logs = [[ctx.f("log", ctx.max([v, 0.01])) for v in row] for row in on]
    conds = []
    for n in range(nodes):
        for t in range(ns):
            s = 0
            for i in range(n_on):
                k = ctx.max([tt[n][i], 0])
                v = logs[i][fsmp + lsmp + t]
                for d in range(lsmp - 1, -1, -1):
                    v = ctx.ite(k == d, logs[i][fsmp + d + t], v)
                s = s + v
            conds.append(ctx.eq(flat[n, t], ctx.f("exp", s / avail)))
    ctx.check(ctx.all(conds), "coalescence = geometric mean of shifted onsets")
    same = [ctx.eq(onsets[i, t], before[i][t]) for i in range(n_on) for t in range(nt)]
    ctx.check(ctx.all(same), "input onsets are not modified")


def mismatch(ctx, n_on, n_lut):
    from quakemigrate.core import lib

    on = [[ctx.real(f"o{i}_{t}", 0, 10) for t in range(3)] for i in range(n_on)]
    tt = [[ctx.int(f"tt{i}", 0, 1) for i in range(n_lut)]]
    try:
        lib.migrate(values(ctx, on), int_table(ctx, tt).reshape(1, 1, 1, n_lut), 1, 1, n_on, 1)
        raised = False
    except ValueError:
        raised = True
    ctx.check(raised, "mismatched onsets / lookup tables are rejected")


def cases(tier):
    out = [
        dict(n_on=1, grid=[1, 1, 1], ns=1, fsmp=0, lsmp=0, threads=1, avail=1),
        dict(n_on=1, grid=[2, 1, 1], ns=2, fsmp=0, lsmp=2, threads=1, avail=1),
        dict(n_on=2, grid=[2, 1, 1], ns=2, fsmp=1, lsmp=2, threads=2, avail=2),
        dict(n_on=2, grid=[1, 2, 1], ns=3, fsmp=2, lsmp=1, threads=1, avail=2),
        dict(n_on=3, grid=[1, 1, 2], ns=2, fsmp=1, lsmp=1, threads=2, avail=3),
        dict(n_on=2, grid=[1, 1, 3], ns=1, fsmp=0, lsmp=3, threads=3, avail=2),
        dict(n_on=2, grid=[2, 2, 1], ns=1, fsmp=1, lsmp=1, threads=3, avail=1),
        dict(n_on=3, grid=[2, 1, 1], ns=2, fsmp=0, lsmp=1, threads=4, avail=2),
    ]
    if tier == "thorough":
        for n_on in (1, 2, 3, 4):
            for ns in (1, 2, 4):
                for fsmp in (0, 1, 2):
                    for lsmp in (0, 1, 3):
                        for grid in ([1, 1, 1], [2, 1, 2]):
                            out.append(dict(n_on=n_on, grid=grid, ns=ns, fsmp=fsmp, lsmp=lsmp,
                                            threads=2, avail=n_on))
    return out


HARNESSES = [
    dict(
        name="migrate", fn=migrate, cases=cases, env=core_env, asan=True,
        expect=["map shape is grid + samples", "coalescence = geometric mean of shifted onsets",
                "input onsets are not modified"],
        bounds="<=4 onset functions, <=4 nodes, <=4 samples, pads <=3 samples, <=4 threads; "
               "onset values any real in [-1, 1000], traveltimes any integer in [-2, post-pad]",
    ),
    dict(
        name="mismatch", fn=mismatch, env=core_env,
        cases=[dict(n_on=a, n_lut=b) for a in (1, 2, 3) for b in (1, 2, 3) if a != b],
        expect=["mismatched onsets / lookup tables are rejected"],
        bounds="1-3 onsets vs 1-3 tables",
    ),
]
