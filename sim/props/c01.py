from .. import data, session, world
from . import common as cm

TWIN = True
RUNS = 480
RULE = ("a case is a triangle, a warm-up and 1-2 phases of 2-4 threads with 1-4 calls each on shared triangles and "
        "results under a seeded scheduler; non-trivial if at least one thread switch happened inside a call")


def pool(seed):
    return data.pool("C01", seed, 10, nmax=6)


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier)
    phases, saved, k = [], [], [0]
    mask = set()

    def est(t="A", save=True):
        op = world.gen_est(rng, spec, sims=(3, 12), weights=(4, 3, 2))
        op["t"] = t
        if save:
            k[0] += 1
            op["save"] = "r%d" % k[0]
        return op
    if rng.random() < .55:                         # short: the first calls on something new, at the same time
        kind = rng.random()
        if kind < .5:
            e = est()
            phases.append({"mode": "seq", "ops": [e]})
            pick = lambda: dict(world.gen_query(rng, e["op"]), r=e["save"])
        elif kind < .9:
            pick = lambda: dict(world.gen_view(rng, spec), t="A")
        else:
            pick = lambda: est(save=False)
        a = pick()
        x = rng.random()
        b = dict(a) if x < .35 else pick()
        for _ in range(12):                        # the same question with other arguments
            if x < .35 or x > .75 or b["op"] == a["op"] and b != a:
                break
            b = pick()
        phases.append(cm.par_phase(rng, [[a, dict(a)][:rng.choice([1, 1, 2])], [b]] +
                                   ([[dict(a)]] if rng.random() < .15 else []), .75))
        return {"oracle": "twin", "spec": spec, "phases": phases, "audit": cm.audit(rng, spec, 3)}
    warm = []
    if rng.random() < .4:
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            warm.append(cm.gen_mut(rng, spec, mask) if x < .3 else
                        est() if x < .6 else dict(world.gen_view(rng, spec), t="A"))
    if rng.random() < .5:
        e = est()
        warm.append(e)
    if warm:
        phases.append({"mode": "seq", "ops": warm})
        saved = [o for o in warm if "save" in o]
    style = rng.random()
    for _ in range(rng.choice([1, 1, 2])):
        threads = []
        nt = rng.choice([2, 2, 3, 4])
        same = []
        for _o in range(rng.randint(1, 3)):
            e = rng.choice(saved) if saved and rng.random() < .6 else None
            same.append(dict(world.gen_query(rng, e["op"]), r=e["save"]) if e else
                        dict(world.gen_view(rng, spec), t="A") if rng.random() < .6 else est(save=False))
        for _t in range(nt):
            ops = []
            if style < .3:
                ops = [dict(o) for o in same]
            else:
                for _o in range(rng.randint(1, 4)):
                    x = rng.random()
                    if saved and x < .3:
                        e = rng.choice(saved)
                        ops.append(dict(world.gen_query(rng, e["op"]), r=e["save"]))
                    elif x < .7:
                        ops.append(dict(world.gen_view(rng, spec), t="A"))
                    else:
                        ops.append(est(save=False))
            threads.append(ops)
        phases.append(cm.par_phase(rng, threads))
    return {"oracle": "twin", "spec": spec, "phases": cm.bursts(rng, phases), "audit": cm.audit(rng, spec)}


def run(plan, ctx):
    rep = session.run_session(plan, ctx)
    rep["nontrivial"] = rep["stats"].get("preempts", 0) > 0
    return rep
