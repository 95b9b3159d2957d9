# -*- coding: utf-8 -*-
"""
Runs the harnesses of one property: symbolic exploration in parallel worker processes,
concrete replay of every counterexample against the real code, evidence.
"""

import argparse
import contextlib
import importlib
import io
import json
import logging
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QMV_REPO", "/repo")


def setup_env():
    for k in ("PYTHONPATH", "PYTHONHOME", "READTHEDOCS", "DISPLAY"):
        os.environ.pop(k, None)
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("PYPROJ_NETWORK", "OFF")
    os.environ.setdefault("PROJ_NETWORK", "OFF")
    os.environ["OMP_NUM_THREADS"] = "2"
    if os.path.isdir("/opt/vp/mplconfig"):
        os.environ.setdefault("MPLCONFIGDIR", "/opt/vp/mplconfig")
    else:
        os.environ.setdefault("MPLCONFIGDIR", tempfile.mkdtemp(prefix="qmv_mpl_"))
    sys.path.insert(0, REPO)
    sys.path.insert(1, VERIF)


def redirect_native(scratch, asan=False):
    """`qmlib` always comes from the current C source, not from an older build."""
    import ctypes

    from qmv import irx

    out = os.path.join(scratch, "qmlib_asan.so" if asan else "qmlib.so")
    irx.build_native(out, asan=asan)
    orig = ctypes.CDLL

    def cdll(name, *a, **k):
        if name is not None and "qmlib" in os.path.basename(str(name)):
            name = out
        return orig(name, *a, **k)

    ctypes.CDLL = cdll


def import_all():
    """Load every module of the package, so that all of them run on symbolic values."""
    import pkgutil

    import quakemigrate

    for m in pkgutil.walk_packages(quakemigrate.__path__, "quakemigrate."):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass


def quiet():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def trace_functions(acc):
    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(REPO + "/quakemigrate"):
                acc.add(f"{fn[len(REPO) + 1:]}:{co.co_qualname}")

    return prof


def load(pid):
    return importlib.import_module(f"qmv.props.{pid.lower()}")


def harnesses(mod, tier):
    hs = [h for h in mod.HARNESSES if tier == "thorough" or not h.get("thorough_only")]
    out = []
    for h in hs:
        cases = h["cases"]
        cases = cases(tier) if callable(cases) else cases
        for c in cases:
            out.append((h, c))
    return out


def run_case(args):
    pid, hname, params, deadline = args
    from qmv import npsym, sym

    if mp.parent_process() is not None:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.RLIM_INFINITY))
    mod = load(pid)
    h = next(x for x in mod.HARNESSES if x["name"] == hname)
    stats = sym.Stats()
    t0 = time.time()
    res = dict(harness=hname, params=params, cands=[], excs=[], inconclusive=None)
    devnull = io.StringIO()
    try:
        extra = h["env"]() if h.get("env") else []
        mpaths = h.get("max_paths")
        with contextlib.redirect_stdout(devnull), npsym.sym_env(extra):
            c, e, stopped = sym.explore(
                h["fn"], params, stats, deadline=deadline, max_paths=mpaths,
                trace_functions=trace_functions,
            )
        res["cands"], res["excs"] = c, e
        if stopped:
            res["inconclusive"], res["tb"] = stopped
        for lab in h.get("expect", ()):
            if lab not in stats.labels and not c and not e:
                if not h.get("expect_any"):
                    res.setdefault("unreached", []).append(lab)
    except sym.Inconclusive as ex:
        res["inconclusive"] = f"{ex}"
        res["tb"] = traceback.format_exc()[-1500:]
    except Exception as ex:
        res["inconclusive"] = f"engine: {type(ex).__name__}: {ex}"
        res["tb"] = traceback.format_exc()[-1500:]
    from qmv import irx

    res["stats"] = stats
    res["wall"] = time.time() - t0
    return res


REPLAY_LIMIT = 60


class Hangs(BaseException):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    def stop(*a):
        raise Hangs()

    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def replay_inproc(pid, hname, params, model, quiet_out=True):
    """Run the harness on the concrete model.  Returns (reproduced, message)."""
    from qmv import sym

    mod = load(pid)
    h = next(x for x in mod.HARNESSES if x["name"] == hname)
    ctx = sym.ConcCtx(model)
    sym.set_ctx(None)
    try:
        with contextlib.redirect_stdout(io.StringIO()), time_limit(REPLAY_LIMIT):
            h["fn"](ctx, **params)
    except Hangs:
        return True, f"does not end within {REPLAY_LIMIT} s"
    except sym.CheckFailed as e:
        return True, f"assertion false: {e}"
    except sym.PathEnd:
        return False, "assumption not met"
    except sym.Inconclusive as e:
        return False, f"inconclusive: {e}"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return True, f"raises {type(e).__name__}: {e} (at {tb[-1].filename}:{tb[-1].lineno})"
    return False, "all assertions hold"


def replay_subproc(path, asan=False):
    env = dict(os.environ)
    env["QMV_REPLAY_CHILD"] = "1"
    if asan:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                             text=True).stdout.strip()
        env["LD_PRELOAD"] = lib
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:detect_odr_violation=0"
        env["QMV_ASAN"] = "1"
    r = subprocess.run(
        [sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
        capture_output=True, text=True, env=env, timeout=REPLAY_LIMIT + 60, cwd=VERIF,
    )
    msg = ""
    for ln in r.stdout.splitlines():
        if ln.startswith("REPLAY "):
            msg = ln[7:]
    if r.returncode == 10:
        return True, msg
    if r.returncode == 77 or r.returncode < 0:
        err = [l for l in r.stderr.splitlines() if "ERROR: AddressSanitizer" in l]
        return True, (err[0] if err else f"killed by signal {-r.returncode}")
    return False, msg or f"exit {r.returncode}: {r.stderr[-300:]}"


def _confirm_hang(pid, r, path):
    lab, model = r["cands"][-1]
    with open(path, "w") as f:
        json.dump(dict(property=pid, harness=r["harness"], params=r["params"], model=model, label=lab), f)
    try:
        return replay_subproc(path)[0]
    except subprocess.TimeoutExpired:
        return True


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                ln = ln.strip()
                if ln:
                    out.append(json.loads(ln))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("QMV_JOBS", "8")))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    setup_env()
    quiet()
    scratch = tempfile.mkdtemp(prefix="qmv_")
    tempfile.tempdir = scratch
    try:
        return _main(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, scratch):
    from qmv import sym

    os.chdir(scratch)
    try:
        redirect_native(scratch, asan=bool(os.environ.get("QMV_ASAN")))
    except Exception as e:
        print(f"INCONCLUSIVE {e}")
        return 2
    import_all()
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        ok, msg = replay_inproc(r["property"], r["harness"], r["params"], r["model"])
        print(f"REPLAY {msg}")
        return 10 if ok else 0
    pid = a.pid.upper()
    tier = a.tier
    if tier == "quick":
        sym.MAX_BRANCH = 3000
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = float(os.environ.get("QMV_BUDGET", 780 if tier == "quick" else 6 * 3600))
    deadline = t0 + budget
    try:
        mod = load(pid)
        work = harnesses(mod, tier)
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={pid}: cannot load the code under test")
        return 2
    if a.only:
        work = [w for w in work if a.only in w[0]["name"]]
    tasks = [(pid, h["name"], c, deadline) for h, c in work]
    for _, _, c, _ in tasks:
        json.dumps(c)
    results = []
    if a.jobs <= 1 or len(tasks) == 1:
        results = [run_case(t) for t in tasks]
    else:
        mpc = mp.get_context("fork")
        with mpc.Pool(min(a.jobs, len(tasks)), maxtasksperchild=8) as pool:
            it, hangs = pool.imap_unordered(run_case, tasks, chunksize=1), 0
            while len(results) < len(tasks):
                try:
                    r = it.next(timeout=max(1.0, deadline + 30 - time.time()))
                except mp.TimeoutError:
                    done = [(r["harness"], r["params"]) for r in results]
                    results += [dict(harness=h, params=c, cands=[], excs=[], stats=sym.Stats(), wall=0.0,
                                     inconclusive="no result in time") for _, h, c, _ in tasks if (h, c) not in done]
                    break
                results.append(r)
                if r["inconclusive"] in (sym.RUNS_ON, sym.BRANCHES) and r["cands"] and hangs < 2:
                    hangs += 1
                    if _confirm_hang(pid, r, os.path.join(scratch, "hang.json")):
                        break  # no need to wait for the other cases to hang
                if a.v:
                    s = r["stats"]
                    print(f"  {r['harness']} {r['params']} paths={s.paths} q={s.queries} "
                          f"{r['wall']:.1f}s cands={len(r['cands'])} excs={len(r['excs'])} "
                          f"{r['inconclusive'] or ''}", flush=True)
    return report(pid, mod, tier, seed, work, results, t0, a)


def report(pid, mod, tier, seed, work, results, t0, a):
    from qmv import sym

    total = sym.Stats()
    per = {}
    inconcl, candidates = [], []
    shown = set()
    for r in results:
        s = r["stats"]
        total.merge(s)
        p = per.setdefault(r["harness"], dict(cases=0, paths=0, queries=0, assertions=0, solver_s=0.0, wall_s=0.0))
        p["cases"] += 1
        p["paths"] += s.paths
        p["queries"] += s.queries
        p["assertions"] += s.checks
        p["solver_s"] = round(p["solver_s"] + s.solver_s, 2)
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        if r["inconclusive"]:
            inconcl.append((r["harness"], r["params"], r["inconclusive"], r.get("tb", "")))
        for lab, m in r["cands"]:
            candidates.append((r["harness"], r["params"], lab, m))
        for lab, m, tb in r["excs"]:
            candidates.append((r["harness"], r["params"], "raises " + lab, m))
            if a.v and tb[-300:] not in shown:
                shown.add(tb[-300:])
                print(tb[-900:])
    # Vacuity: every harness must complete a path and reach each assertion it lists
    hs = {h["name"]: h for h, _ in work}
    for n, h in hs.items():
        labs = {}
        for r in results:
            if r["harness"] == n:
                for k, v in r["stats"].labels.items():
                    labs[k] = labs.get(k, 0) + v
        if not any(c[0] == n for c in candidates) and not any(i[0] == n for i in inconcl):
            miss = [l for l in h.get("expect", ()) if l not in labs]
            if per.get(n, {}).get("paths", 0) == 0 or not labs or miss:
                inconcl.append((n, {}, f"vacuous: assertions not reached {miss or '(none)'}", ""))
    # Replay
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    violations, spurious, kf = [], [], []
    order = {}
    for c in candidates:
        order.setdefault((c[0], c[2]), []).append(c)
    flat = []
    lists = list(order.values())
    while any(lists):
        for l in lists:
            if l:
                flat.append(l.pop(0))
    for n, (h, params, lab, model) in enumerate(flat[:24]):
        path = os.path.join(rdir, f"{pid}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, harness=h, params=params, model=model, label=lab), f, indent=1)
        asan = bool(getattr(mod, "ASAN", False)) or hs[h].get("asan", False)
        try:
            if hs[h].get("subproc") or asan:
                ok, msg = replay_subproc(path, asan=False)
                if not ok and asan:
                    ok, msg = replay_subproc(path, asan=True)
            else:
                ok, msg = replay_inproc(pid, h, params, model)
        except subprocess.TimeoutExpired:
            ok, msg = True, f"does not end within {REPLAY_LIMIT} s"
        except Exception as e:
            ok, msg = False, f"replay error {e}"
        if ok:
            hit = next((k for k in known if k["harness"] == h and k.get("label", lab) == lab
                        and all(params.get(p) == v for p, v in k.get("params", {}).items())), None)
            if hit:
                kf.append(hit)
                continue
            violations.append((h, params, lab, model, path, msg))
            if len(violations) >= 3 or msg.startswith("does not end") or time.time() > t0 + 800:
                break
        elif not lab.startswith(sym.STOPPED):
            spurious.append((h, params, lab, model, msg))
    seen_kf = set()
    for k in kf:
        if k["what"] not in seen_kf:
            seen_kf.add(k["what"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for k in known:
        if k["what"] not in seen_kf:
            print(f"note: known finding not observed on this run: {k['what']}")
    wall = time.time() - t0
    from qmv import sym as _s

    funcs = sorted(total.functions)
    ir = []
    if getattr(mod, "USES_IR", None):
        ir = [f"quakemigrate/core/src (LLVM IR): {x}" for x in mod.USES_IR]
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=total.paths,
            transitions=total.queries,
            traces_validated_against_impl=len(flat) if not violations else len(violations) + len(spurious),
            samples=total.samples[:6] or [{"note": "no symbolic witness recorded"}],
            explanation=(
                "states = symbolic paths of the real code explored to completion (each "
                "covers every value of the symbolic inputs that follows it); transitions "
                "= SMT queries discharged; traces_validated_against_impl = solver "
                "counterexamples re-run on the real code with concrete values"
            ),
            functions_encoded=funcs + ir,
            harnesses=per,
            assertions=total.checks,
            assertions_discharged=total.discharged,
            assertions_constant=total.trivial,
            assertion_labels=total.labels,
            smt_queries=total.queries,
            solver_s=round(total.solver_s, 2),
            solver="z3 " + ".".join(map(str, _s.z3.get_version()[:3])),
            bounds={n: hs[n].get("bounds", "") for n in hs},
            stubs=getattr(mod, "STUBS", []),
            exhaustive_within_bounds=not inconcl and not candidates,
            inconclusive=[f"{h} {p}: {m}" for h, p, m, _ in inconcl][:10],
            spurious=[f"{h} {p}: {l}: {m}" for h, p, l, _, m in spurious][:10],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for h, params, lab, model, path, msg in violations:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  harness {h} {params}: {lab}\n  {msg}\n  inputs {sym._short(model, 30)}")
    print(
        f"{pid} [{tier}] harnesses={len(per)} cases={len(results)} paths={total.paths} "
        f"queries={total.queries} assertions={total.checks} ({total.discharged} discharged) "
        f"solver={total.solver_s:.1f}s wall={wall:.1f}s"
    )
    if violations:
        return 1
    for h, p, m, tb in inconcl[:5]:
        print(f"INCONCLUSIVE {h} {p}: {m}")
        if a.v or os.environ.get("QMV_TB"):
            print(tb)
    for h, p, l, mdl, m in spurious[:5]:
        print(f"NOT-REPRODUCED {h} {p}: {l}: {m} {sym._short(mdl, 30)}")
    if inconcl or spurious:
        return 2
    return 0
