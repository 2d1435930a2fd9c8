from .. import data, session, world
from . import common as cm

RUNS = 500
RULE = ("a case is a session of 8-20 loads, views, estimates, tests and quantile queries with reseedings of and draws from "
        "NumPy's global generator in between and at the same time, interruptions and concurrent phases; the generator's "
        "state is compared with a shadow after every call, the tests' answers with a reference implementation; "
        "non-trivial if a test was compared")
SCOPE = world.VIEWS + world.CUMVIEWS + world.QUERIES + [
    "base", "mack", "a2a_avgs", "diagonal", "to_tbl", "str", "cells", "to_incr", "to_cum", "roundtrip", "convert", "set_ind",
    "at_ind", "col_ind", "load", "construct", "lrdb", "lobs", "specs", "datasets"]


def pool(seed):
    return data.pool("C12", seed, 30, nmax=9)


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier, .5, nmax=10, large=.03)
    mask, phases, saved, k = set(), [], [], 0

    def level():
        return rng.choice([.05, .1, .5, .9, .95, .01, .75, .001, round(rng.uniform(.0005, .9995), 4)])

    def ambient():
        x = rng.random()
        return {"op": "draw", "k": rng.choice([1, 3, 630])} if x < .6 else {"op": "rng", "seed": rng.randrange(1000)}

    def probe():
        """A test on a Mack result, or another call that has no business with randomness."""
        macks = [e for e in saved if e["op"] == "mack"]
        x = rng.random()
        if macks and x < .6:
            return {"op": rng.choice(["devp_corr", "devp_corr", "cy_effects"]), "p": level(), "r": rng.choice(macks)["save"]}
        if saved and x < .75:
            e = rng.choice(saved)
            return dict(world.gen_query(rng, e["op"]), r=e["save"])
        if x < .85:
            return rng.choice([{"op": "load", "name": rng.choice(["raa", "ta83", "glre", "amw09", "autoliab", "singinjury",
                                                                  "singproperty"]), "t": "A"},
                               {"op": "load", "name": "raa", "tri": rng.choice(["cum", "incr"]), "t": "A"},
                               {"op": "lrdb", "t": "A",
                                "kw": dict(rng.choice([{}, {"tri_type": "cum"}, {"loss_type": "paid", "tri_type": "incr"},
                                                       {"grcode": None, "train_only": False}, {"grname": "Co 1767"}]),
                                           lob=rng.choice(["comauto", "medmal", "wkcomp"]))},
                               {"op": rng.choice(["lobs", "specs", "datasets"]), "t": "A"},
                               {"op": "construct", "kind": rng.choice(["cum", "incr"]), "t": "A"}])
        if x < .93:
            return dict(world.gen_view(rng, spec), t="A")
        return dict(world.gen_est(rng, spec, weights=(1, 1, 0)), t="A")
    ops = []
    for e in [world.gen_mack(rng, spec)] + [world.gen_est(rng, spec, sims=(2, 6), weights=(1, 2, 1))
                                            for _ in range(rng.randint(0, 2))]:
        k += 1
        e = dict(e, t="A", save="r%d" % k)
        if rng.random() < .3:
            cut = dict(e, **cm.interrupt(rng))
            cut.pop("save")
            ops.append(cut)
        ops.append(e)
        saved.append(e)
    phases.append({"mode": "seq", "ops": ops})
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < .4:
            ths = [[ambient() if rng.random() < .3 else probe() for _o in range(rng.randint(1, 3))]
                   for _t in range(rng.choice([2, 2, 3]))]
            if rng.random() < .25 and ths[0][-1]["op"] not in session.INTERNAL:
                ths[0][-1].update(cm.interrupt_at(rng))
            ph = cm.par_phase(rng, ths)
            # two threads reseeding and drawing have no defined final state; one may
            quiet = [[o for o in th if o["op"] not in session.INTERNAL] for th in ths[1:]]
            ph["threads"] = [ths[0]] + quiet
            ph["threads"] = [t for t in ph["threads"] if t]
            if len(ph["threads"]) > 1:
                phases.append(ph)
            continue
        ops = []
        for _ in range(rng.randint(3, 8)):
            x = rng.random()
            if x < .25:
                ops.append(ambient())
            elif x < .35:
                ops.append(cm.gen_mut(rng, spec, mask, "A"))
            elif x < .4:
                ops.append(dict(world.gen_boot(rng, spec, sims=(2, 4)), t="A", seed=None, nocheck=True))
            else:
                op = probe()
                if rng.random() < .2:
                    ops.append(dict(op, **cm.interrupt(rng)))
                ops.append(op)
        phases.append({"mode": "seq", "ops": ops})
    phases.append({"mode": "seq", "ops": [{"op": "devp_corr", "p": level(), "r": "r1"},
                                          {"op": "cy_effects", "p": level(), "r": "r1"}]})
    return {"oracle": "model", "scope": SCOPE, "compare": ["devp_corr", "cy_effects"], "rngcheck": True, "spec": spec, "phases": cm.bursts(rng, phases, .12, .5)}


def run(plan, ctx):
    rep = session.run_session(plan, ctx)
    rep["nontrivial"] = rep["stats"]["checked"] > 0
    return rep
