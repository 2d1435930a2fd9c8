from .. import data, session, world
from . import common as cm

RUNS = 340
RULE = ("a case is a session of 7-14 calls with exclusions, interrupted calls and concurrent phases in which averages and "
        "chain ladder estimates are compared with a reference implementation; non-trivial if at least one was compared "
        "after an exclusion, an interruption or a concurrent phase")
SCOPE = ["a2a", "a2a_avgs", "base"]


def pool(seed):
    return data.pool("C14", seed, 30, nmax=8)


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier, .5, small=.06, nmax=9, large=.03)

    def want(r):
        x = r.random()
        return {"op": "a2a"} if x < .08 else {"op": "a2a_avgs"} if x < .3 else world.gen_base(r, spec)
    return {"oracle": "model", "scope": SCOPE, "spec": spec, "phases": cm.bursts(rng, cm.history(rng, spec, want))}


def run(plan, ctx):
    rep = session.run_session(plan, ctx)
    s = rep["stats"]
    rep["nontrivial"] = s["checked"] > 0 and (s["masked"] or s["interrupts"] or s["par_phases"]) > 0
    return rep
