# -*- coding: utf-8 -*-
"""C02: the maximum search returns peak, first node and normalised peak."""

import numpy as np

from qmv.props.common import core_env, values

USES_IR = ["find_max_coa", "find_max_coa.omp_outlined"]
ASSUMPTIONS = ["doubles are modelled as exact reals"]
STUBS = ["ctypes call boundary: arrays are passed to the LLVM-IR interpreter by reference"]


def find_max(ctx, grid, ns, threads, lo=0):
    from quakemigrate.core import lib

    nodes = int(np.prod(grid))
    m = [[ctx.real(f"m{n}_{t}", lo, 1000) for t in range(ns)] for n in range(nodes)]
    arr = values(ctx, m).reshape(tuple(grid) + (ns,))
    mx, mxn, idx = lib.find_max_coa(arr, threads)
    ctx.check(len(mx) == ns and len(mxn) == ns and len(idx) == ns, "one value per sample")
    for t in range(ns):
        col = [m[n][t] for n in range(nodes)]
        ctx.check(ctx.all([ctx.eq(mx[t], ctx.max(col))]), "maximum coalescence")
        k = int(idx[t])
        ctx.check(0 <= k < nodes, "node index is inside the grid")
        ctx.check(
            ctx.all([col[k] >= c for c in col] + [col[k] > c for c in col[:k]]),
            "node index is the first node with the maximum",
        )
        s = 0
        for c in col:
            s = s + c
        ctx.check(
            ctx.implies(s > 0, ctx.eq(mxn[t] * s, ctx.max(col) * nodes)),
            "normalised coalescence = maximum x nodes / sum",
        )
    ctx.check(
        ctx.all([ctx.eq(arr.reshape(nodes, ns)[n, t], m[n][t])
                 for n in range(nodes) for t in range(ns)]),
        "map is not modified",
    )


def cases(tier):
    out = [
        dict(grid=[1, 1, 1], ns=2, threads=1),
        dict(grid=[2, 1, 1], ns=2, threads=1),
        dict(grid=[2, 2, 1], ns=2, threads=2),
        dict(grid=[1, 1, 3], ns=3, threads=2),
        dict(grid=[1, 5, 1], ns=1, threads=4),
        dict(grid=[2, 1, 3], ns=1, threads=3),
        dict(grid=[1, 3, 1], ns=2, threads=2, lo=-10),
    ]
    if tier == "thorough":
        out += [dict(grid=[a, b, c], ns=ns, threads=th)
                for a, b, c in ((2, 2, 2), (7, 1, 1), (1, 3, 3), (1, 1, 10))
                for ns in (1, 2) for th in (1, 5) if a * b * c * ns <= 14]
    return out


HARNESSES = [
    dict(
        name="find_max", fn=find_max, cases=cases, env=core_env,
        expect=["maximum coalescence", "node index is the first node with the maximum",
                "normalised coalescence = maximum x nodes / sum", "map is not modified"],
        bounds="<=6 nodes x <=3 samples (10 nodes thorough), <=5 threads, any real map values",
    ),
]
