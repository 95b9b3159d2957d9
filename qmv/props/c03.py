# -*- coding: utf-8 -*-
"""C03: the native kernels stay inside their buffers."""

import numpy as np

from qmv.props.common import core_env, int_table, values

USES_IR = ["migrate", "find_max_coa", "overlapping_sta_lta", "centred_sta_lta",
           "recursive_sta_lta"]
ASSUMPTIONS = [
    "1 <= STA window < LTA window (documented), any data length",
    "traveltimes never exceed the post-pad",
    "large-index harness: array contents unconstrained, one arbitrary loop iteration",
]
STUBS = ["OpenMP runtime (static / dispatch loops)", "ctypes call boundary"]
ASAN = True


def migrate(ctx, n_on, nodes, ns, fsmp, lsmp, threads):
    from quakemigrate.core import lib

    nt = fsmp + ns + lsmp
    on = [[ctx.real(f"o{i}_{t}", 0, 10) for t in range(nt)] for i in range(n_on)]
    tt = [[ctx.int(f"tt{n}_{i}", -3, lsmp) for i in range(n_on)] for n in range(nodes)]
    out = lib.migrate(values(ctx, on), int_table(ctx, tt).reshape(nodes, 1, 1, n_on),
                      fsmp, lsmp, n_on, threads)
    ctx.check(out.shape == (nodes, 1, 1, ns), "kernel ran inside its arrays")


def find_max(ctx, nodes, ns, threads):
    from quakemigrate.core import lib

    m = [[ctx.real(f"m{n}_{t}", 0, 10) for t in range(ns)] for n in range(nodes)]
    a, b, c = lib.find_max_coa(values(ctx, m).reshape(nodes, 1, 1, ns), threads)
    ctx.check(len(a) == ns, "kernel ran inside its arrays")


def stalta(ctx, kind, n, nsta, nlta):
    from quakemigrate.core import lib

    sig = [ctx.real(f"s{t}", 0.5, 10) for t in range(n)]
    out = getattr(lib, kind)(values(ctx, sig), nsta, nlta)
    ctx.check(len(out) == n, "kernel ran inside its arrays")


def bigindex(ctx, kernel):
    """One arbitrary iteration of the parallel loop on arrays of arbitrary size."""
    # Replay runs the same IR on the concrete sizes (arrays of 2^31 elements and more do
    # not fit in memory, so the native code itself cannot be run on them).
    from qmv import sym
    from qmv.irx import BigRegion, Interp, Ptr, module

    sym.set_ctx(ctx)

    it = Interp(module())
    nst, small = 2, 2
    if kernel == "migrate":
        n_nodes = ctx.int("n_nodes", 1, 2**40)
        k = ctx.int("k", 0, 2**40)
        ctx.assume(k < n_nodes)
        on = BigRegion("on", 8, nst * (small + 1 + 1))
        lut = BigRegion("lut", 4, n_nodes * nst, integer=(0, 1))
        m = BigRegion("map", 8, n_nodes * small)
        it.omp_range = (k, k)
        it.call("migrate", [Ptr(on), Ptr(lut), Ptr(m), 1, 1, small, nst, nst, n_nodes, 1])
    else:
        ns = ctx.int("ns", 1, 2**31 - 1)
        k = ctx.int("k", 0, 2**31 - 2)
        ctx.assume(k < ns)
        nodes = 3
        m = BigRegion("map", 8, ns * nodes)
        o = [BigRegion(f"out{i}", 8, ns) for i in range(3)]
        it.omp_range = (k, k)
        it.call("find_max_coa", [Ptr(m), Ptr(o[0]), Ptr(o[1]), Ptr(o[2]), ns, nodes, 1])
    ctx.check(True, "kernel ran inside its arrays")


def st_cases(tier):
    out = []
    top = 7 if tier == "quick" else 10
    for kind in ("overlapping_sta_lta", "centred_sta_lta", "recursive_sta_lta"):
        for n in range(1, top):
            for nlta in range(2, n + 3 if n < 6 else n + 1):
                for nsta in range(1, min(nlta, 4)):
                    out.append(dict(kind=kind, n=n, nsta=nsta, nlta=nlta))
    return out


def mig_cases(tier):
    out = []
    for n_on in (1, 2, 3):
        for nodes in (1, 2, 3):
            for ns, fs, ls in ((1, 0, 0), (2, 1, 2), (3, 0, 1), (1, 2, 3)):
                if n_on * nodes <= (4 if tier == "quick" else 9):
                    out.append(dict(n_on=n_on, nodes=nodes, ns=ns, fsmp=fs, lsmp=ls,
                                    threads=1 + (nodes + ns) % 3))
    return out


LAB = ["kernel ran inside its arrays"]
HARNESSES = [
    dict(name="migrate", fn=migrate, cases=mig_cases, env=core_env, asan=True, expect=LAB,
         bounds="<=3 onsets, <=3 nodes, <=3 samples, pads <=3, traveltimes any int in [-3, post-pad]"),
    dict(name="find_max", fn=find_max, env=core_env, asan=True, expect=LAB,
         cases=[dict(nodes=a, ns=b, threads=c) for a, b, c in
                ((1, 1, 1), (1, 3, 2), (3, 1, 2), (2, 2, 3), (3, 2, 1))],
         bounds="<=3 nodes, <=3 samples"),
    dict(name="stalta", fn=stalta, cases=st_cases, env=core_env, asan=True, expect=LAB,
         bounds="signal length 1-6 (9 thorough), LTA up to 2 samples longer than the signal, STA < LTA"),
    dict(name="bigindex", fn=bigindex, cases=[dict(kernel="migrate"), dict(kernel="find_max_coa")],
         env=core_env, expect=LAB,
         bounds="any number of nodes up to 2^40 / samples up to 2^31-1, one arbitrary node / sample"),
]
