from .. import data, session, world
from . import common as cm

RUNS = 1000
RULE = ("a case is a session of 9-22 calls with interrupted calls and concurrent phases on a cumulative or incremental "
        "triangle in which every view is compared with its definition; non-trivial if at least one was compared after an "
        "interruption, an exclusion or a concurrent phase")
SCOPE = world.VIEWS + ["a2a", "a2a_lvi", "ranked_a2a", "a2a_assignment", "diagonal", "to_tbl", "cells"]


def pool(seed):
    return data.pool("C17", seed, 30, nmax=8)


def gen(rng, i, tier, pool):
    spec = dict(cm.spec(rng, pool, tier, .5, small=.06, nmax=10, large=.03))
    kind = "incr" if rng.random() < .25 else "cum"
    n = len(spec["origins"])
    if kind == "incr" and n > 2 and rng.random() < .4:    # nothing delivered for some cells
        inner = [[a, b] for a in range(n) for b in range(1, n - 1 - a)]
        spec["gaps"] = sorted(rng.sample(inner, rng.randint(1, max(1, len(inner) // 4))))

    def want(r):
        while True:
            op = world.gen_view(r, spec, cum=kind == "cum") if r.random() < .95 else {"op": "cells"}
            if op["op"] in SCOPE and (n > 3 or op["op"] != "ranked_a2a"):
                return op
    ph = cm.history(rng, spec, want, cum=kind == "cum", length=(8, 18), ests=(3, 2, 1))
    ph[-1]["ops"] += [dict(want(rng), t="A") for _ in range(6)]
    return {"oracle": "model", "scope": SCOPE if n > 3 else [s for s in SCOPE if s != "ranked_a2a"], "spec": spec, "start": [["A", kind]], "phases": cm.bursts(rng, ph)}


def run(plan, ctx):
    rep = session.run_session(plan, ctx)
    s = rep["stats"]
    rep["nontrivial"] = s["checked"] > 0 and (s["masked"] or s["interrupts"] or s["par_phases"]) > 0
    return rep
