from .. import data, session, world
from . import common as cm

RUNS = 800
RULE = ("a case is a chain of 3-9 conversions over several triangles of either kind, with interrupted and concurrent "
        "conversions, exclusions and caller edits in between; non-trivial if at least one conversion of a conversion was "
        "checked")
SCOPE = ["convert", "to_incr", "to_cum", "roundtrip", "to_tbl", "cells", "construct", "latest_by_origin", "latest"]
FROM_CUM = ["to_incr", "to_incr", "tbl>cum", "tbl>incr", "shuffled>cum", "shuffled>incr", "frame>cum", "frame>incr",
            "typed>cum", "typed>incr", "pivot>cum", "pivot>incr", "given>cum", "given>incr"]
FROM_INCR = ["to_cum", "to_cum"] + FROM_CUM[2:]


def pool(seed):
    return data.pool("C16", seed, 30, nmax=8)


def gen(rng, i, tier, pool):
    spec = dict(cm.spec(rng, pool, tier, .6, small=.06, nmax=9, large=.03))
    n = len(spec["origins"])
    if n > 2 and rng.random() < .3:
        inner = [[a, b] for a in range(n) for b in range(1, n - 1 - a)]
        spec["gaps"] = sorted(rng.sample(inner, rng.randint(1, max(1, len(inner) // 4))))
    if rng.random() < .12:                         # cumulative amounts that return to, or fall below, zero
        spec["cells"] = [list(r) for r in spec["cells"]]
        for _ in range(rng.randint(1, 3)):
            a = rng.randrange(n - 1)
            b = rng.randint(1, n - 1 - a)
            was = data.matrix(spec)[a, b - 1]
            spec["cells"][a][b] = -was - rng.choice([0, 0, 0, abs(was), 5.])
            if data.matrix(spec)[a, b] != 0 and abs(data.matrix(spec)[a, b]) < 1e-6:
                spec["cells"][a][b] = -1. if b else 1.
    if n > 2 and rng.random() < .12:               # amounts tiny next to those accumulated before
        spec["cells"] = [list(r) for r in spec["cells"]]
        for _ in range(rng.randint(1, 3)):
            a = rng.randrange(n - 1)
            b = rng.randint(1, n - 1 - a)
            was = abs(data.matrix(spec)[a, b - 1])
            if 100 < was < 1e7:
                spec["cells"][a][b] = max(1e-3, float("%.3g" % (was * 10 ** rng.uniform(-9, -4)))) * rng.choice([1, 1, -1])
    side = cm.side(rng)
    if side.random() < .08:                        # whole amounts beyond a trillion, still exact
        k = 10. ** side.choice([11, 12.5, 13, 14]) / max(abs(c) for row in spec["cells"] for c in row)
        spec["cells"] = [[float(round(c * k)) or 1. for c in row] for row in spec["cells"]]
    kinds = {"A": rng.choice(["cum", "cum", "incr"])}
    start = [["A", kinds["A"]]]
    cols = {"A": 0}
    phases, k, depth = [], 0, 0

    def look(t):
        x = rng.random()
        if x < .3:
            return {"op": "cells", "t": t}
        if x < .5:
            return {"op": "to_tbl", "dropna": rng.random() < .8, "t": t}
        if x < .6 and kinds[t] == "cum":
            return {"op": rng.choice(["latest_by_origin", "latest"]), "t": t}
        if kinds[t] == "cum":
            return {"op": rng.choice(["to_incr", "roundtrip"]), "t": t}
        return {"op": "to_cum", "t": t}

    def conv(t):
        return {"op": "convert", "t": t, "how": rng.choice(FROM_CUM if kinds[t] == "cum" else FROM_INCR)}
    ops = []
    for _ in range(rng.randint(4, 12)):
        t = rng.choice(sorted(kinds)[-3:])
        x = rng.random()
        if x < .5:
            op = conv(t)
            if rng.random() < .25:
                ops.append(dict(op, **cm.interrupt(rng)))
                if rng.random() < .5:
                    ops.append(look(t))
            k += 1
            op["as"] = "T%02d" % k
            ops.append(op)
            kinds[op["as"]] = op["how"].split("_")[-1] if ">" not in op["how"] else op["how"].split(">")[1]
        elif x < .75:
            ops.append(look(t))
        elif x < .81 and kinds[t] == "cum":
            j = rng.randrange(n - 1)
            ops.append({"op": "set_ind", "o": spec["origins"][rng.randrange(n - 1 - j)], "d": spec["devs"][j],
                        "v": 0, "t": t})
        elif x < .87:
            ops.append(dict(world.gen_view(rng, spec, cum=kinds[t] == "cum"), t=t))
        elif x < .92 and len(kinds) > 2:
            ops.append({"op": "edit_tri", "t": t})
            del kinds[t]
        else:
            phases.append({"mode": "seq", "ops": ops})
            ops = []
            ths = []
            for _t in range(rng.choice([2, 2, 3])):
                ths.append([rng.choice([look, look, conv])(t) for _o in range(rng.randint(1, 3))])
            if rng.random() < .3:
                ths[0][-1].update(cm.interrupt_at(rng))
            phases.append(cm.par_phase(rng, ths))
    phases.append({"mode": "seq", "ops": ops})
    phases.append({"mode": "seq", "ops": [op for t in sorted(kinds) for op in ({"op": "cells", "t": t}, look(t))]})
    return {"oracle": "model", "scope": SCOPE, "spec": spec, "start": start, "phases": cm.bursts(rng, phases)}


def run(plan, ctx):
    rep = session.run_session(plan, ctx)
    rep["nontrivial"] = any(op.get("how") and op["t"] != "A" for ph in plan["phases"] if ph["mode"] == "seq"
                            for op in ph["ops"] if op["op"] == "convert")
    return rep
