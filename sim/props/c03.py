from .. import data, session, world
from . import common as cm

TWIN = True
RUNS = 220
RULE = ("a case is a history of 10-26 calls on up to three triangles (two of them built from the same records) and "
        "their results, with caller edits of returned tables, arguments and records in between; non-trivial if at "
        "least one edit took effect")


def warm():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot                                       # noqa: F401
    import seaborn                                                 # noqa: F401


def pool(seed):
    return data.pool("C03", seed, 10, nmax=6)


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier)
    other = data.sibling(rng, spec) if rng.random() < .5 else cm.spec(rng, pool, tier)
    specs = {"C": other}
    start = [["A", "cum"]]
    if rng.random() < .7:
        start.append(["B", rng.choice(["cum", "cum", "incr"])])
    if rng.random() < .6:
        start.append(["C", "cum"])
    rng.shuffle(start)
    kinds = dict(map(tuple, start))
    of = lambda t: specs.get(t, spec)
    masks = {t: set() for t in kinds}
    ops, saved, outs, k = [], [], [], 0
    for _ in range(rng.randint(10, 26)):
        t = rng.choice(sorted(kinds))
        x = rng.random()
        if outs and x < .3:
            # the caller edits something recently returned (or passed), then reads again
            src = rng.choice(outs[-4:])
            how = rng.randrange(600)
            ops.append({"op": "scribble_arg" if rng.random() < (.5 if "q" in src or isinstance(src.get("sel"), dict) else 0) else "scribble", "of": src["out"], "how": how})
            again = {q: v for q, v in src.items() if q not in ("out", "save")}
            if rng.random() < .8:
                ops.append(again)
            continue
        if x < .33:
            ops.append({"op": "scribble_df", "t": t, "how": rng.randrange(6)})
            continue
        if x < .37:
            ops.append(rng.choice([{"op": "rng", "seed": rng.randrange(1000)}, {"op": "draw", "k": 5}, {"op": "gc"}]))
            continue
        if saved and x < .385:
            e = rng.choice(saved)
            kind = {"base": ["plot"], "mack": ["plot", "diagnostics"], "boot": ["plot", "hist"]}[e["op"]]
            if e["op"] == "boot" and e["two_sided"]:
                kind = ["hist"]
            ops.append({"op": "exhibit", "kind": rng.choice(kind), "r": e["save"]})
            continue
        if saved and x < .55:
            e = rng.choice(saved)
            op = dict(world.gen_query(rng, e["op"]), r=e["save"])
        elif kinds[t] == "incr":
            op = dict(world.gen_view(rng, of(t), cum=False) if rng.random() < .8 else {"op": "to_cum"}, t=t)
        elif x < .6:
            op = cm.gen_mut(rng, of(t), masks[t], t)
        elif x < .82:
            op = dict(world.gen_view(rng, of(t)) if rng.random() < .9 else {"op": "to_incr"}, t=t)
        else:
            k += 1
            op = dict(world.gen_est(rng, of(t), sims=(2, 8), weights=(4, 3, 2)), t=t, save="r%d" % k)
            if op["op"] == "boot" and rng.random() < .25:
                op.update(seed=None, nocheck=True)
                del op["save"]
            else:
                saved.append(op)
        if op["op"] not in ("set_ind", "at_ind", "a2aind"):
            op["out"] = "o%d" % len(ops)
            outs.append(op)
        ops.append(op)
    return {"oracle": "twin", "spec": spec, "specs": specs, "start": start,
            "phases": cm.bursts(rng, [{"mode": "seq", "ops": ops}], .12), "audit": cm.audit(rng, spec, 9)}


def run(plan, ctx):
    rep = session.run_session(plan, ctx)
    rep["nontrivial"] = rep["stats"]["scribbles"] > 0
    return rep
