from .. import data, session, world
from . import common as cm

RUNS = 360
RULE = ("a case is a session of 7-14 calls with exclusions, interrupted calls and concurrent phases in which Mack estimates "
        "and their quantile queries are compared with a reference implementation; non-trivial if at least one was compared "
        "after an exclusion, an interruption or a concurrent phase")
SCOPE = ["mack", "get_quantiles"]


def pool(seed):
    return data.pool("C15", seed, 30, nmax=8)


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier, .5, nmax=9, large=.03)

    def want(r):
        return world.gen_mack(r, spec)
    return {"oracle": "model", "scope": SCOPE, "spec": spec, "phases": cm.bursts(rng, cm.history(rng, spec, want, ests=(3, 4, 1)))}


def run(plan, ctx):
    rep = session.run_session(plan, ctx)
    s = rep["stats"]
    rep["nontrivial"] = s["checked"] > 0 and (s["masked"] or s["interrupts"] or s["par_phases"]) > 0
    return rep
