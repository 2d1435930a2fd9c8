from .. import data, session, world
from . import common as cm

TWIN = True
RUNS = 360
RULE = ("a case is a session of 4-9 calls of which 2-5 are cut short by KeyboardInterrupt or MemoryError at a chosen "
        "line or call of trikit (the distinct lines a call passes are equally likely); non-trivial if at least one "
        "interruption was delivered")


def pool(seed):
    return data.pool("C02", seed, 10, nmax=6)


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier)
    mask, ops, saved, k = set(), [], [], 0

    def some(weights=(5, 4, 3)):
        nonlocal k
        x = rng.random()
        if saved and x < .25:
            e = rng.choice(saved)
            if rng.random() < .15:
                return {"op": "exhibit", "kind": rng.choice(["plot", "plot", "hist"]) if e["op"] == "boot" else "plot",
                        "r": e["save"]}
            return dict(world.gen_query(rng, e["op"]), r=e["save"])
        if x < .62:
            return dict(world.gen_view(rng, spec), t="A")
        if x < .66:
            return {"op": "to_incr", "t": "A"}
        if x < .7:
            return {"op": "construct", "kind": rng.choice(["cum", "incr"])}
        k += 1
        return dict(world.gen_est(rng, spec, sims=(2, 8), weights=weights), t="A", save="r%d" % k)
    for _ in range(rng.randint(0, 3)):
        op = cm.gen_mut(rng, spec, mask) if rng.random() < .25 else some()
        ops.append(op)
        if "save" in op:
            saved.append(op)
    for _ in range(rng.randint(3, 5)):
        if rng.random() < .12:
            op = {"op": "bad_ind", "how": rng.randrange(4), "t": "A"} if rng.random() < .3 else \
                cm.gen_mut(rng, spec, mask)
            ops += [dict(op, **cm.interrupt(rng)), op]
            if rng.random() < .5:
                ops.append({"op": rng.choice(["a2aind", "a2a_avgs"]), "t": "A"})
            continue
        op = some()
        cut = dict(op, **cm.interrupt(rng))
        cut.pop("save", None)
        for _r in range(rng.choice([1, 1, 1, 2])):
            ops.append(cut)
            cut = dict(op, **cm.interrupt(rng))
            cut.pop("save", None)
        if rng.random() < .75:
            ops.append(op)
            if "save" in op:
                saved.append(op)
        elif rng.random() < .5:
            ops.append(some())
            if "save" in ops[-1]:
                saved.append(ops[-1])
    phases = [{"mode": "seq", "ops": ops}]
    if rng.random() < .2:                          # one thread is cut short while another runs
        ths = [[some() for _ in range(rng.randint(1, 2))] for _ in range(2)]
        for t in ths:
            for o in t:
                o.pop("save", None)
        ths[0][-1].update(cm.interrupt_at(rng))
        phases.append(cm.par_phase(rng, ths))
    return {"oracle": "twin", "spec": spec, "phases": cm.bursts(rng, phases), "audit": cm.audit(rng, spec, 8)}


def run(plan, ctx):
    rep = session.run_session(plan, ctx)
    rep["nontrivial"] = rep["stats"]["interrupts"] > 0
    return rep
