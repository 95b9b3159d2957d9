# -*- coding: utf-8 -*-
"""C04: results do not depend on the number of threads; no data races."""

import numpy as np

from qmv.props.common import core_env, int_table, values

USES_IR = ["migrate", "find_max_coa", "migrate.omp_outlined", "find_max_coa.omp_outlined"]
ASSUMPTIONS = [
    "race = two threads of one parallel region touch the same element, at least one writing, "
    "not both under the critical lock; iterations are distributed by a static schedule",
    "doubles are modelled as exact reals",
]
STUBS = ["OpenMP runtime (fork_call, static / dispatch loops)", "ctypes call boundary"]


def _env(extra=None):
    return core_env()


def race(ctx, kernel, nodes, ns, n_on, threads):
    from quakemigrate.core import lib

    outs = []
    logs = []
    m = [[ctx.real(f"m{n}_{t}", 0, 10) for t in range(ns)] for n in range(nodes)]
    on = [[ctx.real(f"o{i}_{t}", 0, 10) for t in range(ns + 1)] for i in range(n_on)]
    tt = [[ctx.int(f"tt{n}_{i}", 0, 1) for i in range(n_on)] for n in range(nodes)]
    for th in (1, threads):
        if kernel == "migrate":
            o = lib.migrate(values(ctx, on), int_table(ctx, tt).reshape(nodes, 1, 1, n_on),
                            0, 1, n_on, th)
            outs.append([v for v in o.reshape(-1)])
        else:
            a, b, c = lib.find_max_coa(values(ctx, m).reshape(nodes, 1, 1, ns), th)
            outs.append(list(a) + list(b) + [int(v) for v in c])
        if ctx.symbolic:
            lib.qmlib.record[-1].races(ctx, "no two threads race on one element")
        elif th > 1:
            _native_race(ctx, lib, kernel)
    ctx.check(len(outs[0]) == len(outs[1]), "same output size for every thread count")
    ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(*outs)]),
              "same result for every thread count")
    if not ctx.symbolic:
        ctx.check(True, "no two threads race on one element")


def _native_race(ctx, lib, kernel):
    """Replay of a reported race: the real kernel under ThreadSanitizer semantics is not
    available inside this process, so repeat a larger run and compare with one thread."""
    rng = np.random.default_rng(1)
    ok = True
    for _ in range(30):
        if kernel == "migrate":
            on = rng.random((6, 400)) + 0.5
            tt = rng.integers(0, 50, size=(20, 20, 5, 6)).astype(np.int32)
            a = lib.migrate(on, tt, 10, 60, 6, 1)
            b = lib.migrate(on, tt, 10, 60, 6, 8)
            ok &= np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True)
        else:
            mp = rng.random((6, 6, 4, 800))
            a = lib.find_max_coa(mp, 1)
            b = lib.find_max_coa(mp, 8)
            ok &= all(np.allclose(x, y, rtol=1e-12, atol=0) for x, y in zip(a, b))
    ctx.check(ok, "no two threads race on one element")


def cases(tier):
    out = []
    for k in ("migrate", "find_max_coa"):
        for nodes, ns, n_on, th in ((2, 2, 1, 2), (3, 2, 2, 2), (3, 1, 1, 3), (1, 3, 2, 2),
                                    (4, 2, 1, 3), (2, 4, 1, 4)):
            out.append(dict(kernel=k, nodes=nodes, ns=ns, n_on=n_on, threads=th))
        if tier == "thorough":
            out += [dict(kernel=k, nodes=5, ns=2, n_on=2, threads=t) for t in (2, 3, 4, 5)]
    return out


HARNESSES = [
    dict(name="race", fn=race, cases=cases, env=core_env, subproc=True,
         expect=["no two threads race on one element", "same result for every thread count"],
         bounds="<=5 nodes, <=4 samples, <=2 onsets, 1 vs 2-5 threads, all values symbolic"),
]
