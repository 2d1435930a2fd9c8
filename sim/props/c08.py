from .. import loads
from . import common as cm

RUNS = 1000
REAL = ", the dataset files and pandas' reader down to the raw read"
STUB = ("thread scheduling, locks created by trikit, signal delivery, open/read/close of the dataset files (a real file "
        "behind them, any of whose operations can fail, be cut short or be interrupted)")
RULE = ("a case is a history of 4-14 loads of sample datasets, plain or as triangles, under faults of the disk, "
        "interruptions, concurrent loads and caller edits of what was loaded; non-trivial if at least one fault fired, an "
        "edit took effect or loads ran concurrently")
NAMES = ["raa", "ta83", "amw09", "autoliab", "glre", "singinjury", "singproperty"]


def pool(seed):
    return None


def one(rng, k, names):
    op = {"op": "load", "name": rng.choice(names)}
    x = rng.random()
    if x < .5:
        op["tri"] = rng.choice(["cum", "incr", "cum", "c", "i", "cumulative"])
    elif x < .55:
        op["none"] = 1
    if rng.random() < .7:
        op["out"] = "l%02d" % k
    return op


def gen(rng, i, tier, pool):
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 7]))
    phases, outs, k = [], [], 0
    for p in range(rng.choice([1, 2, 3])):
        if rng.random() < .35:
            ths = []
            for _ in range(rng.choice([2, 2, 3])):
                ths.append([])
                for _o in range(rng.randint(1, 3)):
                    k += 1
                    ths[-1].append(one(rng, k, names))
            ph = cm.par_phase(rng, ths)
            ph.pop("fine", None)
            if rng.random() < .3:
                ths[0][-1].update(cm.interrupt_at(rng))
            if rng.random() < .5:
                ph["faults"] = loads.faults(rng)
            ph["buf"] = rng.choice([64, 512, 8192])
            outs += [o["out"] for th in ths for o in th if o.get("out")]
            phases.append(ph)
            continue
        ops = []
        for _ in range(rng.randint(3, 7)):
            k += 1
            if outs and rng.random() < .2:
                ops.append({"op": "scribble", "of": outs.pop(rng.randrange(len(outs))), "how": rng.randrange(6)})
                continue
            if rng.random() < .05:
                ops.append({"op": "datasets", "out": "l%02d" % k})
                outs.append("l%02d" % k)
                continue
            op = one(rng, k, names)
            x = rng.random()
            if x < .45:
                op["faults"] = loads.faults(rng)
                op["buf"] = rng.choice([64, 512, 8192])
            elif x < .65:
                op.update(cm.interrupt(rng))
            ops.append(op)
            if op.get("out"):
                outs.append(op["out"])
            if x < .65 and rng.random() < .7:
                ops.append({q: v for q, v in op.items() if q in ("op", "name", "tri", "none")})
        phases.append({"mode": "seq", "ops": ops})
    phases.append({"mode": "seq", "ops": [{"op": "datasets"}] + [
        q for n in names for q in ({"op": "load", "name": n}, {"op": "load", "name": n, "tri": rng.choice(["cum", "incr"])})]})
    return {"phases": phases}


run = loads.run
