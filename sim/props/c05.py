import getpass
import multiprocessing
import os
import pickle
import platform
import random
import socket
import subprocess
import sys
import time

from .. import canon as cn
from .. import data, session, world
from . import common as cm

TWIN = True
RUNS = 200
RULE = ("a case is one bootstrap configuration run several times: after other calls, draws and reseedings of the global "
        "generator, next to other threads, after being cut short, and in a pristine process (a few also in a new "
        "interpreter with another hash seed); non-trivial if it was compared at least twice")


def pool(seed):
    return data.pool("C05", seed, 12, nmax=6)


def seeds(rng):
    return rng.choice([0, 1, 516, 2 ** 32 - 1, rng.randrange(2 ** 31), rng.randrange(2 ** 31), rng.randrange(1000)])


def target(rng, spec):
    op = dict(world.gen_boot(rng, spec, sims=(2, 12)), t="A", seed=seeds(rng))
    x = rng.random()
    if x < .3:
        op.update(rs="state", advance=rng.choice([0, 0, 1, 20, 700]))
    elif x < .5:
        op["rs"] = rng.choice(["int64", "uint32", "uint64", "int64"])
        if op["rs"] == "int32":
            op["seed"] %= 2 ** 31
    elif x < .62:
        op.update(seed=None, gseed=seeds(rng))
    if rng.random() < .3:
        op["sims"] = rng.choice([1, 2, 30])
    if op["sims"] == 1:
        op["q"] = [.5]
    return op


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier, .1, nmax=7)
    sib = data.sibling(rng, spec) if rng.random() < .5 else None
    if i % 16 == 5:                                # as many simulations as real work asks for
        big = dict(target(rng, spec), sims=rng.choice([1000, 1000, 1500, 2000]), q=[.5, .9], seed=rng.randrange(2 ** 31))
        big.pop("gseed", None)
        return {"oracle": "twin", "scope": ["boot"], "rngcheck": True, "spec": spec, "target": big, "workers": rng.randrange(10 ** 6),
                "phases": [{"mode": "seq", "ops": [big, {"op": "draw", "k": 5}, big]}]}
    tg = [target(rng, spec) for _ in range(rng.choice([1, 1, 2]))]
    shared = [o for o in tg if o["seed"] is not None]

    def noise():
        if sib and rng.random() < .4:
            return dict(target(rng, sib), t="B", nocheck=rng.random() < .4)
        x = rng.random()
        if x < .3:
            return rng.choice([{"op": "draw", "k": rng.randint(1, 700)}, {"op": "rng", "seed": rng.randrange(1000)}])
        if x < .4:
            return dict(target(rng, spec), nocheck=True)
        if x < .46:
            return dict(world.gen_boot(rng, spec, sims=(2, 5)), t="A", seed=None, nocheck=True)
        if x < .6:
            return dict(world.gen_est(rng, spec, weights=(1, 1, 0)), t="A")
        return dict(world.gen_view(rng, spec), t="A")
    phases = []
    ops = [noise() for _ in range(rng.randint(0, 3))]
    for o in tg:
        if rng.random() < .5:
            ops.append(dict(o, **cm.interrupt(rng)))
        ops += [noise() for _ in range(rng.randint(0, 2))] + [o]
    phases.append({"mode": "seq", "ops": ops})
    if shared and rng.random() < .6:
        ths = []
        for k in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 2)):
                x = rng.random()
                ops.append(rng.choice(shared) if x < .6 or k == 0 else
                           rng.choice([{"op": "draw", "k": 5}, {"op": "rng", "seed": rng.randrange(99)}]) if x < .85 else
                           dict(world.gen_est(rng, spec, weights=(1, 1, 0)), t="A"))
            ths.append(ops)
        ph = cm.par_phase(rng, ths)
        if ph["policy"].get("p", 0) == 1:
            ph["policy"]["p"] = .3
        phases.append(ph)
        phases.append({"mode": "seq", "ops": [noise(), rng.choice(tg)]})
    plan = {"oracle": "twin", "scope": ["boot"], "rngcheck": True, "spec": spec, "phases": cm.bursts(rng, phases), "target": tg[0],
            "workers": rng.randrange(10 ** 6)}
    if sib:
        plan.update(specs={"B": sib}, start=rng.choice([[["A", "cum"], ["B", "cum"]], [["B", "cum"], ["A", "cum"]]]))
    o = tg[0]
    if o["sims"] > 1 and rng.random() < .4:        # a generator in another state
        if o.get("rs") == "state" and rng.random() < .6:
            plan["differs"] = {"advance": o["advance"] + rng.choice([61, 64, 340, 1300])}   # further than draws can be rejected
        else:
            k = "seed" if o["seed"] is not None else "gseed"
            plan["differs"] = {k: (o[k] + rng.choice([1, 2, 1000, 2 ** 8, 2 ** 16, 3 * 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 32 - 1000])) % 2 ** 32}
    if i % 22 == 9:
        plan["hashseed"] = rng.randint(1, 10 ** 6)
        plan["there"] = [o for k in range(5) for o in [dict(target(rng, spec), parametric=k % 2 == 0)] if o["seed"] is not None]
    return plan


class elsewhere:
    """Another machine: number of processors, names, process id, clock."""

    def __init__(self, seed, process=False):
        rng = random.Random(seed)
        cpus, pid, shift = rng.choice([1, 2, 3, 7, 64]), rng.randint(300, 99999), rng.choice([-4e8, -86400. * 200, 3600. * 7, 2e9])
        node, now, now_ns = "host%d" % rng.randrange(99), time.time, time.time_ns
        self.fake = [(os, "cpu_count", lambda: cpus), (platform, "node", lambda: node),
                     (os, "sched_getaffinity", lambda p=0: set(range(cpus))), (socket, "gethostname", lambda: node),
                     (multiprocessing, "cpu_count", lambda: cpus), (time, "time", lambda: now() + shift),
                     (time, "time_ns", lambda: now_ns() + int(shift) * 10 ** 9), (getpass, "getuser", lambda: "user%d" % pid)]
        if process:
            self.fake.append((os, "getpid", lambda: pid))

    def __enter__(self):
        self.real = [(o, n, getattr(o, n)) for o, n, _ in self.fake]
        for o, n, f in self.fake:
            setattr(o, n, f)

    def __exit__(self, *exc):
        for o, n, f in self.real:
            setattr(o, n, f)


def run(plan, ctx):
    with elsewhere(plan["workers"]):
        rep = session.run_session(plan, ctx)
    rep["nontrivial"] = rep["stats"]["checked"] > 1
    if rep["violation"] is None and "differs" in plan:
        o = plan["target"]
        a = ctx.twin.ask(plan["spec"], o)
        b = ctx.twin.ask(plan["spec"], dict(o, **plan["differs"]))
        rep["stats"]["other_seeds"] = 1
        if a[0] == b[0] == "d" and cn.diff(a[1]["sims_data"], b[1]["sims_data"]) is None:
            rep["violation"] = {"cls": "same:boot", "detail": "%s and the same with %s give the same simulations" %
                                                             (session.desc(o), plan["differs"])}
    if rep["violation"] is None and "hashseed" in plan:
        ops = [plan["target"]] + plan["there"]
        env = dict(os.environ, PYTHONHASHSEED=str(plan["hashseed"]))
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim.props.c05"], env=env, timeout=80,
                           input=pickle.dumps((plan["spec"], ops)), capture_output=True)
        rep["stats"]["interpreters"] = 1
        rep["faults"]["new interpreter, other hash seed"] = 1
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-2000:])
        for o, there in zip(ops, pickle.loads(p.stdout)):
            d = cn.diff(there, ctx.twin.ask(plan["spec"], o))
            if not d:
                continue
            rep["violation"] = {"cls": "wrong:boot", "detail": "%s in a new interpreter with hash seed %d: %s" %
                                                              (session.desc(o), plan["hashseed"], d)}
    return rep


if __name__ == "__main__":
    out = os.dup(1)
    os.dup2(2, 1)
    from .. import main as m
    m.prepare()
    sp, ops = pickle.loads(sys.stdin.buffer.read())
    with elsewhere(int(os.environ["PYTHONHASHSEED"]), True):
        ans = [world._twin_one(sp, "cum", [], op, None) for op in ops]
    with os.fdopen(out, "wb") as f:
        f.write(pickle.dumps(ans))
