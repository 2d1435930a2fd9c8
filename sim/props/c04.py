from .. import data, session, world
from . import common as cm

RUNS = 260
RULE = ("a case is a session on one to three triangles with exclusions and re-admissions between reads, by assignment or by "
        "editing, some by concurrent threads, some cut short; non-trivial if at least one estimate or average was "
        "checked while a factor was excluded")
SCOPE = ["a2aind", "a2a_avgs", "base", "mack", "get_quantiles"]


def pool(seed):
    return data.pool("C04", seed, 16, nmax=7)


def mutate(rng, spec, mask, t, wild):
    n = len(spec["origins"])
    if wild and rng.random() < .25:
        j = rng.randrange(n - 1)
        mask.update((i, j) for i in range(n - 1 - j))
        return {"op": "col_ind", "d": spec["devs"][j], "t": t}
    if wild and rng.random() < .6:
        j = rng.randrange(n - 1)
        c = (rng.randrange(n - 1 - j), j)
        v = int(c in mask)
        (mask.discard if v else mask.add)(c)
        return {"op": rng.choice(["set_ind", "at_ind"]), "o": spec["origins"][c[0]], "d": spec["devs"][j], "v": v, "t": t}
    return cm.gen_mut(rng, spec, mask, t)


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier, .2)
    other = data.sibling(rng, spec) if rng.random() < .6 else cm.spec(rng, pool, tier, .2)
    start = [["A", "cum"]]
    if rng.random() < .6:
        start.append(["B", "cum"])
    if rng.random() < .3:
        start.append(["C", "cum"])
    rng.shuffle(start)
    specs = {"C": other}
    tids = sorted(t for t, _ in start)
    of = lambda t: specs.get(t, spec)
    masks = {t: set() for t in tids}
    saved, k = [], [0]
    wild = rng.random() < .35

    def read(t, save=True):
        n = len(of(t)["origins"])
        fine = cm.ok_mask(n, masks[t])
        x = rng.random()
        if x < .15:
            return {"op": "a2aind", "t": t}
        if x < .4 or not fine:
            return {"op": "a2a_avgs", "t": t}
        if x < .5:
            return dict(world.gen_view(rng, of(t)), t=t)
        k[0] += 1
        op = dict(world.gen_est(rng, of(t), weights=(4, 5, 0)), t=t)
        if save:
            op["save"] = "r%d" % k[0]
            saved.append(op)
        return op

    def seq(m):
        ops = []
        for _ in range(m):
            t = rng.choice(tids)
            if saved and rng.random() < .12:
                e = rng.choice(saved)
                if e["op"] == "mack":
                    ops.append({"op": "get_quantiles", "q": world.gen_q(rng), "r": e["save"]})
            if rng.random() < .05:
                ops.append({"op": "bad_ind", "how": rng.randrange(4), "t": t})
            if rng.random() < .5:
                was = set(masks[t])
                op = mutate(rng, of(t), masks[t], t, wild)
                if rng.random() < .15:
                    # cut short, then repeated, so that the plan knows the mask
                    ops.append(dict(op, **cm.interrupt(rng)))
                    if rng.random() < .4 and cm.ok_mask(len(of(t)["origins"]), was):
                        ops.append({"op": "a2a_avgs", "t": t})
                ops.append(op)
                if rng.random() < .6:
                    ops.append(read(t))
            else:
                op = read(t)
                if rng.random() < .12:
                    cut = dict(op, **cm.interrupt(rng))
                    cut.pop("save", None)
                    ops.append(cut)
                ops.append(op)
        return {"mode": "seq", "ops": ops}
    phases = []
    if rng.random() < .7:
        phases.append(seq(rng.randint(1, 8)))
    if rng.random() < .55:
        t = rng.choice(tids)
        n = len(of(t)["origins"])
        for _ in range(rng.choice([1, 1, 2])):
            ths = []
            cells = [(a, b) for b in range(n - 1) for a in range(n - 1 - b)]
            rng.shuffle(cells)
            hot = cells[:3]
            for _t in range(rng.choice([2, 2, 3])):
                ops = []
                for _o in range(rng.randint(1, 3)):
                    x = rng.random()
                    if x < .65:
                        c = rng.choice(hot if rng.random() < .4 else cells)
                        ops.append({"op": rng.choice(["set_ind", "at_ind"]), "o": of(t)["origins"][c[0]],
                                    "d": of(t)["devs"][c[1]], "v": int(rng.random() < .3), "t": t})
                        if rng.random() < .1:
                            ops[-1].update(cm.interrupt_at(rng))
                    elif x < .85:
                        ops.append({"op": "a2aind", "t": t})
                    else:
                        ops.append({"op": rng.choice(["a2a_avgs", "a2a", "a2a_lvi"]), "t": t})
                ths.append(ops)
            phases.append(cm.par_phase(rng, ths))
        # what happened is unknown here: reset the plan's idea by re-admitting everything touched
        touched = sorted({(o["o"], o["d"]) for ph in phases if ph["mode"] == "par" for th in ph["threads"]
                          for o in th if o["op"] in session.MUTATORS})
        after = [{"op": "a2a_avgs", "t": t}]
        for o, d in touched:
            c = (of(t)["origins"].index(o), of(t)["devs"].index(d))
            after.append({"op": "set_ind", "o": o, "d": d, "v": int(c not in masks[t]), "t": t})
        phases.append({"mode": "seq", "ops": after})
    if not phases or rng.random() < .6:
        phases.append(seq(rng.randint(2, 8)))
    # re-admitting everything restores the original answers
    end = []
    for t in tids:
        ok = cm.ok_mask(len(of(t)["origins"]), masks[t])
        est = dict(world.gen_est(rng, of(t), weights=(1, 1, 0)), t=t)
        end += [{"op": "a2a_avgs", "t": t}] + ([est] if ok else [])
        if rng.random() < .6:
            cells = sorted(masks[t])
            rng.shuffle(cells)
            end += [{"op": rng.choice(["set_ind", "at_ind"]), "o": of(t)["origins"][c[0]], "d": of(t)["devs"][c[1]],
                     "v": 1, "t": t} for c in cells]
            end += [{"op": "a2a_avgs", "t": t}, est]
    phases.append({"mode": "seq", "ops": end})
    return {"oracle": "model", "scope": SCOPE, "spec": spec, "specs": specs, "start": start, "phases": cm.bursts(rng, phases)}


def run(plan, ctx):
    rep = session.run_session(plan, ctx)
    rep["nontrivial"] = rep["stats"]["masked"] > 0
    return rep
