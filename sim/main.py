"""Driver: seeded search over plans, shrinking, replay files, evidence."""
import argparse
import copy
import hashlib
import importlib
import json
import mmap
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def reexec():
    """Fixed environment: everything a run depends on is pinned."""
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
            "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "PYTHONPATH": os.environ.get("SIM_REPO", "/repo") + ":" + VERIF, "SIM_CHILD": "1"}
    if os.environ.get("SIM_CHILD") == "1":
        return
    env = dict(os.environ, **want)
    scratch = tempfile.mkdtemp(prefix="trikit-sim-")
    env["SIM_SCRATCH"] = scratch
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")     # no stale .pyc of /repo
    os.makedirs(env["MPLCONFIGDIR"])
    import subprocess
    p = subprocess.Popen([PY, "-W", "ignore", "-m", "sim.main"] + sys.argv[1:], env=env, cwd=VERIF)

    def stop(sig, frame):
        p.terminate()
    signal.signal(signal.SIGTERM, stop)
    try:
        rc = p.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)


def prepare():
    """Seams first, then the code under test."""
    warnings.simplefilter("ignore")
    from . import seams
    seams.install()
    import numpy as np
    np.seterr(all="ignore")
    import trikit
    from trikit import triangle
    assert os.path.realpath(trikit.__file__).startswith(seams.PKG), trikit.__file__
    import trikit.estimators.base, trikit.estimators.bootstrap, trikit.estimators.mack, trikit.utils
    n = seams.watch_code()
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    return n


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.twin = None

    def start_twin(self):
        from .world import Twin
        self.twin = Twin(os.path.join(os.environ["SIM_SCRATCH"], "twin"))


def run_plan(mod, plan, ctx, timeout=None, again=True):
    """Executes a plan in a fork.  Only trikit's code can make it not return."""
    from . import core, seams
    timeout = timeout or getattr(mod, "TIMEOUT", 60)
    once = lambda s, nm: core.in_child(lambda: mod.run(copy.deepcopy(plan), ctx), s, nm)
    none = {"stats": {}, "faults": {}, "inter": [], "digest": "-", "plan": plan}
    try:
        try:
            return once(timeout, "run")
        except core.ChildDied:
            if not again:
                raise
            return once(max(180, 2 * timeout), "run (again)")
    except core.ChildTimeout as e:
        if not again:
            raise
        return dict(none, violation={"cls": "hang", "detail": str(e)})
    except core.ChildDied:
        raise
    except core.HarnessError as e:
        if seams.PKG not in str(e):
            raise
        return dict(none, violation={"cls": "unexpected", "detail": "trikit failed where it must not: " +
                                     str(e).strip().splitlines()[-1][:300]})


def plan_id(plan):
    return hashlib.blake2b(json.dumps(plan, sort_keys=True, default=str).encode(), digest_size=8).hexdigest()


# -------------------------------------------------------------------- workers

def worker(w, W, mod, prop, seed, tier, N, flags, out, scratch, t_end, twice):
    from . import core
    ctx = Ctx(os.path.join(scratch, "w%d" % w))
    os.makedirs(ctx.scratch, exist_ok=True)
    if getattr(mod, "TWIN", False):
        ctx.start_twin()

    def send(x):
        b = pickle.dumps(x)
        b = struct.pack(">I", len(b)) + b
        while b:
            b = b[os.write(out, b[:1 << 16]):]
    pool = mod.pool(seed)
    i = w
    while i < N:
        if flags[0]:
            break
        if time.monotonic() > t_end:
            send(("deadline", i))
            break
        try:
            rng = core.rng_for(prop, seed, i)
            plan = mod.gen(rng, i, tier, pool)
            rep = run_plan(mod, plan, ctx)
            again = None
            if i < twice:
                again = run_plan(mod, plan, ctx)["digest"]
            v = rep.get("violation")
            send(("run", i, {"violation": v, "stats": rep["stats"], "faults": rep["faults"], "inter": rep["inter"],
                             "digest": rep["digest"], "pid": plan_id(plan),
                             "nontrivial": rep.get("nontrivial", True), "cov": rep.get("cov"),
                             "plan": rep["plan"] if (v or i < 2) else None, "again": again}))
        except Exception:
            send(("error", i, traceback.format_exc()))
            break
        i += W
    if ctx.twin is not None:
        ctx.twin.close()
    send(("done", w))


# ----------------------------------------------------------------- shrinking

LISTS = ("segments", "phases", "ops", "threads", "steps", "faults", "switches", "lost", "reads", "rows",
         "records", "batches")


def _paths(x, path=()):
    """Paths of the lists that may lose elements, outermost first."""
    out = []
    if isinstance(x, dict):
        for k in sorted(x):
            if k.startswith("_"):
                continue
            if k in LISTS and isinstance(x[k], list):
                out.append(path + (k,))
            out += _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for k, y in enumerate(x):
            if isinstance(y, (dict, list)):
                if isinstance(y, list) and path and path[-1] in ("threads", "segments"):
                    out.append(path + (k,))
                out += _paths(y, path + (k,))
    return out


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _with(plan, path, val):
    q = copy.deepcopy(plan)
    x = q
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = val
    return q


def explicit(plan):
    """Replace seeded schedules by the switches that actually happened."""
    q = copy.deepcopy(plan)

    def walk(x):
        if isinstance(x, dict):
            if "_explicit" in x:
                x["policy"] = x.pop("_explicit")
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(q)
    return q


def strip(plan):
    q = copy.deepcopy(plan)

    def walk(x):
        if isinstance(x, dict):
            for k in [k for k in x if k.startswith("_")]:
                del x[k]
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(q)
    return q


def shrink(mod, plan, cls, ctx, budget):
    """ddmin over every list of the plan, keeping the violation class."""
    end = time.monotonic() + budget
    tried = [0]

    def fails(p):
        tried[0] += 1
        try:
            r = run_plan(mod, p, ctx, 20, again=False)
        except Exception:
            return None
        v = r.get("violation")
        return r if v and v["cls"] == cls else None
    best = strip(plan)
    e = strip(explicit(plan))
    if e != best:
        if fails(e):
            best = e
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for path in _paths(best):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = len(lst)
            size = max(1, n // 2)
            while n and size >= 1 and time.monotonic() < end:
                k = 0
                while k < n and time.monotonic() < end:
                    cand = _with(best, path, lst[:k] + lst[k + size:])
                    if fails(cand):
                        best, lst = cand, lst[:k] + lst[k + size:]
                        n = len(lst)
                        progress = True
                    else:
                        k += size
                if size == 1:
                    break
                size //= 2
        # drop single options (interruptions, flags)
        for path in _opts(best):
            if time.monotonic() > end:
                break
            q = copy.deepcopy(best)
            try:
                x = _get(q, path[:-1])
                del x[path[-1]]
            except (KeyError, IndexError, TypeError):
                continue
            if fails(q):
                best, progress = q, True
        for f in getattr(mod, "simplify", lambda p: [])(best):
            if time.monotonic() > end:
                break
            if fails(f):
                best, progress = f, True
                break
    return best, tried[0]


def _opts(x, path=()):
    out = []
    if isinstance(x, dict):
        for k in sorted(x):
            if k in ("int",):
                out.append(path + (k,))
            out += _opts(x[k], path + (k,))
    elif isinstance(x, list):
        for k, y in enumerate(x):
            out += _opts(y, path + (k,))
    return out


# -------------------------------------------------------------------- findings

def findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % prop):
                f = dict(x.split("=", 1) for x in ln.split(" ", 4)[1:4])
                f["text"] = ln.split(" ", 4)[4] if ln.count(" ") >= 4 else ""
                out.append(f)                  # property=, class=, match=
    return out


def known(v, fs):
    for f in fs:
        if f.get("class") == v["cls"] and f.get("match", "") in v["detail"].replace(" ", "_"):
            return f
    return None


# ------------------------------------------------------------------------ main

def check(prop, tier, seed, runs=None, budget=None, workers=None):
    t0 = time.monotonic()
    ncode = prepare()
    mod = importlib.import_module("sim.props." + prop.lower())
    if hasattr(mod, "warm"):
        mod.warm()
    scratch = os.environ["SIM_SCRATCH"]
    W = workers or min(8, os.cpu_count() or 1)
    N = runs or (mod.RUNS if tier == "quick" else 10 ** 9)
    budget = budget or (float(os.environ.get("SIM_BUDGET", 240)) if tier == "quick" else
                        float(os.environ.get("SIM_THOROUGH_S", 720)))
    flags = mmap.mmap(-1, 1)
    twice = 8 if tier == "quick" else 64
    pids, fds = [], {}
    sys.stdout.flush()
    for w in range(W):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                worker(w, W, mod, prop, seed, tier, N, flags, wr, scratch, t0 + budget, twice)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(wr)
        pids.append(pid)
        fds[r] = b""
    fs = findings(prop)
    seen_known, viol, errors = {}, {}, []
    agg, faults, inter, plans, pidset = {}, {}, set(), [], set()
    cov = {}
    n = nontriv = compared = 0
    deadline = False
    done = 0
    found = None
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5)
        if viol:                               # the others finish their runs, unless these hang
            found = found or time.monotonic()
            if time.monotonic() - found > 25:
                for p in pids:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                del fds[r]
                continue
            buf = fds[r] + b
            while len(buf) >= 4:
                ln = struct.unpack(">I", buf[:4])[0]
                if len(buf) < 4 + ln:
                    break
                m = pickle.loads(buf[4:4 + ln])
                buf = buf[4 + ln:]
                if m[0] == "run":
                    i, rep = m[1], m[2]
                    n += 1
                    for k, v in rep["stats"].items():
                        agg[k] = agg.get(k, 0) + v
                    for k, v in rep["faults"].items():
                        faults[k] = faults.get(k, 0) + v
                    for k, v in (rep.get("cov") or {}).items():
                        cov.setdefault(k, set()).update(v)
                    inter.update(rep["inter"])
                    if rep["nontrivial"] and rep["pid"] not in pidset:
                        nontriv += 1
                    pidset.add(rep["pid"])
                    if rep["again"] is not None:
                        compared += 1
                        if rep["again"] != rep["digest"]:
                            errors.append("run %d is not deterministic" % i)
                    if rep["violation"]:
                        f = known(rep["violation"], fs)
                        if f:
                            seen_known[f["class"]] = f
                        else:
                            viol[i] = rep
                            flags[0] = 1
                    if rep["plan"] is not None and i < 2:
                        plans.append(strip(rep["plan"]))
                elif m[0] == "error":
                    errors.append("run %d: %s" % (m[1], m[2]))
                    flags[0] = 1
                elif m[0] == "deadline":
                    deadline = True
                elif m[0] == "done":
                    done += 1
            fds[r] = buf
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st != 0 and not viol:
            errors.append("a worker ended with status %d" % st)
    if done < W and not errors:
        errors.append("only %d of %d workers finished" % (done, W))
    for f in fs:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    rc = 0
    replay = None
    if viol:
        i = min(viol)
        rep = viol[i]
        cls = rep["violation"]["cls"]
        ctx = Ctx(os.path.join(scratch, "shrink"))
        os.makedirs(ctx.scratch, exist_ok=True)
        if getattr(mod, "TWIN", False):
            ctx.start_twin()
        if cls == "hang":
            small, tried = strip(rep["plan"]), 0
        else:
            small, tried = shrink(mod, rep["plan"], cls, ctx, 60 if tier == "quick" else 120)
        try:
            final = rep["violation"] if cls == "hang" else run_plan(mod, small, ctx)["violation"] or rep["violation"]
        except Exception:
            small, final = strip(rep["plan"]), rep["violation"]
        if ctx.twin is not None:
            ctx.twin.close()
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, seed, i))
        with open(replay, "w") as fo:
            json.dump({"property": prop, "seed": seed, "run": i, "violation": final, "plan": small,
                       "shrunk_with": tried, "original": strip(rep["plan"])}, fo, indent=1)
        print("seed=%s run=%d class=%s" % (seed, i, cls))
        print("  " + final["detail"])
        print("  replay: %s/check --replay %s" % (VERIF, replay))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        rc = 1
    if errors and not viol:
        for e in errors[:4]:
            print("HARNESS-ERROR " + e)
        rc = 2
    wall = time.monotonic() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": n, "distinct_nontrivial": nontriv, "rule": mod.RULE,
              "samples": [json.loads(json.dumps(p)) for p in plans][:2],
              "runs_per_hour": round(n / wall * 3600), "seeds_per_hour": round(n / wall * 3600),
              "simulated_time": "none: the code reads no clock; progress is counted in scheduler steps",
              "counts": agg, "faults_fired": dict(sorted(faults.items())),
              "distinct_interleavings": len(inter),
              "interleaving_measure": "hash of the sequence of (thread, function, line) events of a concurrent phase",
              "reached": {k: len(v) for k, v in sorted(cov.items())},
              "determinism": "%d runs executed twice, %s" % (compared, "all identical" if not any(
                  "deterministic" in e for e in errors) else "DIFFERENCES"),
              "real_components": "all of trikit (%d code objects under the scheduler), numpy, pandas, scipy%s" % (
                  ncode, getattr(mod, "REAL", "")),
              "stub_components": getattr(mod, "STUB", "thread scheduling, locks created by trikit, signal delivery"),
              "stopped_by_deadline": deadline, "workers": W},
          "assumptions": getattr(mod, "ASSUME", []) + [
              "threads switch and calls are interrupted only at line and call boundaries of trikit code (in part of "
              "the runs at every bytecode); calls into pandas, numpy and scipy are atomic"],
          "wall_s": round(wall, 1), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    print("%s %s: %d runs in %.0f s, %d distinct non-trivial, %d interleavings, counts %s, faults %d" % (
        prop, tier, n, wall, nontriv, len(inter), agg, sum(faults.values())))
    return rc


def setup():
    """Nothing is built ahead: the checks run /repo's Python sources as they are."""
    import matplotlib                                              # noqa: F401
    import numpy, pandas, scipy, seaborn                           # noqa: F401,E401
    assert sys.version_info[:2] == (3, 12), sys.version
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    print("python %s, numpy %s, pandas %s, scipy %s" % (sys.version.split()[0], numpy.__version__, pandas.__version__,
                                                       scipy.__version__))
    return 0


def replay(path):
    d = json.load(open(path))
    prepare()
    mod = importlib.import_module("sim.props." + d["property"].lower())
    if hasattr(mod, "warm"):
        mod.warm()
    ctx = Ctx(os.path.join(os.environ["SIM_SCRATCH"], "replay"))
    os.makedirs(ctx.scratch, exist_ok=True)
    if getattr(mod, "TWIN", False):
        ctx.start_twin()
    rep = run_plan(mod, d["plan"], ctx)
    if ctx.twin is not None:
        ctx.twin.close()
    v = rep["violation"]
    if v is None:
        print("no violation")
        return 0
    same = v["cls"] == d["violation"]["cls"] and v["detail"] == d["violation"]["detail"]
    print("class=%s\n  %s\n  %s" % (v["cls"], v["detail"],
                                   "identical to the recorded violation" if same else
                                   "recorded: %s" % d["violation"]["detail"]))
    print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(path)))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="check that everything needed is there")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--one", type=int, help="print the plan and report of one run")
    a = ap.parse_args()
    if a.setup:
        sys.exit(setup())
    reexec()
    if a.replay:
        sys.exit(replay(a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.one is not None:
        from . import core
        prepare()
        mod = importlib.import_module("sim.props." + a.prop.lower())
        if hasattr(mod, "warm"):
            mod.warm()
        ctx = Ctx(os.environ["SIM_SCRATCH"])
        if getattr(mod, "TWIN", False):
            ctx.start_twin()
        plan = mod.gen(core.rng_for(a.prop.upper(), seed, a.one), a.one, a.tier, mod.pool(seed))
        print(json.dumps(plan, indent=1)[:6000])
        rep = run_plan(mod, plan, ctx)
        rep.pop("plan")
        print(json.dumps(rep, indent=1, default=str)[:6000])
        return
    print("property=%s tier=%s VERIF_SEED=%d" % (a.prop, a.tier, seed))
    sys.stdout.flush()
    sys.exit(check(a.prop.upper(), a.tier, seed, a.runs, a.budget, a.workers))


if __name__ == "__main__":
    main()
