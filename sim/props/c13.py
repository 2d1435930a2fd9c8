from .. import data, session, world
from . import common as cm

TWIN = True
RUNS = 160
RULE = ("a case is 2-3 process lives: work, save, work that is lost in a crash, restore in a process that has done "
        "nothing before; plus copies restored within a process, some while other threads compute; non-trivial if at "
        "least one object was restored and queried")


def pool(seed):
    return data.pool("C13", seed, 10, nmax=6)


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier)
    kinds = {"A": "incr" if rng.random() < .15 else "cum"}
    if rng.random() < .4:
        kinds["B"] = rng.choice(["cum", "incr"])
    start = [[t, kinds[t]] for t in sorted(kinds)]
    masks = {t: set() for t in kinds}
    saved, cnt = [], [0]

    def op_(lost=False):
        t = rng.choice(sorted(kinds))
        x = rng.random()
        if saved and x < .25:
            e = rng.choice(saved)
            if x < .06:
                cnt[0] += 1
                op = {"op": "clone", "r": e["save"], "as": "r%d" % cnt[0], "proto": rng.choice([0, 1, 2, 3, 4, 5])}
                if not lost:
                    saved.append(dict(e, save=op["as"]))
                return op
            return dict(world.gen_query(rng, e["op"]), r=e["save"])
        if x < .37:
            cnt[0] += 1
            op = {"op": "clone", "t": t, "as": "K%d" % cnt[0], "proto": rng.choice([0, 1, 2, 3, 4, 5])}
            if not lost and len(kinds) < 5:
                kinds[op["as"]], masks[op["as"]] = kinds[t], set(masks[t])
            return op
        if kinds[t] == "incr":
            return dict(world.gen_view(rng, spec, cum=False) if rng.random() < .8 else {"op": "to_cum"}, t=t)
        if x < .57:
            return cm.gen_mut(rng, spec, set(masks[t]) if lost else masks[t], t)
        if x < .8:
            return dict(world.gen_view(rng, spec), t=t)
        op = dict(world.gen_est(rng, spec, sims=(2, 6), weights=(3, 3, 2)), t=t)
        if not lost:
            cnt[0] += 1
            op["save"] = "r%d" % cnt[0]
            saved.append(op)
        return op

    def ops(m, lost=False):
        out = []
        for _ in range(m):
            op = op_(lost)
            if op["op"] not in session.MUTATORS and rng.random() < .12:
                cut = dict(op, **cm.interrupt(rng))
                cut.pop("save", None)
                cut.pop("as", None)
                out.append(cut)
            out.append(op)
        return out

    def ask(e):
        return dict(world.gen_query(rng, e["op"]), r=e["save"])
    segs = []
    nseg = rng.choice([2, 2, 3])
    elsewhere = rng.random() < .12
    asked = []
    for k in range(nseg):
        ph = [{"mode": "seq", "ops": [q for q in asked if rng.random() < .7] + ops(rng.randint(1, 6))}]
        if rng.random() < .3:
            t = rng.choice(sorted(kinds))
            if kinds[t] == "cum":
                ths = [[dict(world.gen_view(rng, spec), t=t), {"op": "clone", "t": t}],
                       [dict(world.gen_view(rng, spec), t=t) if rng.random() < .7 else
                        dict(world.gen_est(rng, spec, sims=(2, 5)), t=t) for _ in range(rng.randint(1, 3))]]
                cnt[0] += 1
                if len(kinds) < 5:
                    d = ths[0][1]["as"] = "K%d" % cnt[0]
                    kinds[d], masks[d] = "cum", set(masks[t])
                ph.append(cm.par_phase(rng, ths))
        asked = [ask(e) for e in saved if rng.random() < .5]       # before the save and once more afterwards
        if elsewhere and k == nseg - 2:            # something to lose on the way to the other interpreter
            more = []
            for t in sorted(kinds):
                if kinds[t] == "cum":
                    more += [cm.gen_mut(rng, spec, masks[t], t), dict(world.gen_view(rng, spec), t=t),
                             dict(rng.choice([{"op": "a2a_avgs"}, {"op": "base", "sel": "all-weighted", "tail": 1.0}]), t=t)]
            asked = asked + more
        ph.append({"mode": "seq", "ops": asked})
        asked = [o for o in asked if "r" in o]
        seg = {"phases": cm.bursts(rng, ph)}
        if k < nseg - 1:
            seg["lost"] = ops(rng.randint(0, 4), True)
        elif elsewhere:
            seg["interpreter"] = rng.randint(1, 1000)
        segs.append(seg)
    return {"oracle": "twin", "spec": spec, "start": start, "segments": segs, "proto": rng.choice([2, 4, 5, 0, 2, 4, 5]),
            "audit": cm.audit(rng, spec, 8)}


def run(plan, ctx):
    rep = session.run_segments(plan, ctx)
    rep["nontrivial"] = rep["stats"]["crashes"] > 0
    return rep
