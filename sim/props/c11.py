from .. import data, exhibits, world
from . import common as cm

RUNS = 120
TIMEOUT = 100
REAL = ", matplotlib, seaborn and Pillow down to the raw write"
STUB = ("screen (plt.show records the figure), open/write/close/rename of the exhibit's file (a real file behind them, "
        "any of whose operations can fail, be cut short or be interrupted), signal delivery")
RULE = ("a case is a history of 3-7 exhibits of a triangle and its results, to disk (png, pdf, svg) or to the screen, "
        "between estimates and exclusions, under faults of the disk and interruptions, each failed exhibit asked for "
        "again; non-trivial if at least one fault fired")


def warm():
    exhibits.install()


def pool(seed):
    return None


def spec(rng):
    sp = data.gen(rng, nmin=4, nmax=5, fields=False, sample=.02)
    side = cm.side(rng)
    if side.random() < .06:
        return data.gen(side, nmin=11, nmax=14, fields=False, sample=0)
    x = rng.random()
    if x < .25:                                   # scales and round maxima
        k = rng.choice([1e-4, 1e-6, 1e7, 1e8])
        sp["cells"] = [[c * k for c in row] for row in sp["cells"]]
    elif x < .4:
        top = 10. ** rng.choice([0, 2, 4, 6])
        sp["cells"] = [[top / 2] + [round(c / max(map(abs, row)) * top / 100, 8) for c in row[1:]] for row in sp["cells"]]
        sp["cells"][0] = [top / 4, top / 2] + [top / 4 / (len(sp["devs"]) - 2)] * (len(sp["devs"]) - 2)
    return sp


def kinds(e):
    return {"base": ["plot"], "mack": ["plot", "plot", "diagnostics"], "boot": ["plot", "hist"]}[e["op"]]


def kw(rng, e, kind):
    out = {}
    if rng.random() < .3:
        out["col_wrap"] = rng.choice([2, 3, 6])
    if rng.random() < .2:
        out["axes_style"] = rng.choice(["whitegrid", "ticks"])
    if rng.random() < .2:
        out["context"] = rng.choice(["paper", "talk"])
    if kind == "plot" and e["op"] == "mack" and rng.random() < .5:
        out["q"] = rng.choice([.75, .9, .995])
    if kind == "plot" and e["op"] == "boot" and rng.random() < .5:
        out["q"] = rng.choice([.5, .8, .95])
    if kind == "hist" and rng.random() < .4:
        out["bins"] = rng.choice([5, 12])
    return out


def exhibit(rng, saved, incr):
    if incr or not saved or rng.random() < .2:
        return {"op": "exhibit", "kind": rng.choice(["combined", "faceted"]), "t": "B" if incr else "A"}
    e = rng.choice(saved)
    op = {"op": "exhibit", "kind": rng.choice(kinds(e)), "r": e["save"]}
    if op["kind"] in ("plot", "hist"):
        op["kw"] = kw(rng, e, op["kind"])
        if rng.random() < .85:
            op["fmt"] = rng.choice(["png", "png", "png", "pdf", "svg"])
            op["file"] = rng.choice(["exhibit", "exhibit", "other"])
            op["buf"] = rng.choice([64, 512, 8192, 8192])
            if rng.random() < .15:
                op["old"] = True
            if cm.side(rng).random() < .3:
                op["rel"] = True
    return op


def gen(rng, i, tier, pool):
    sp = spec(rng)
    n = len(sp["origins"])
    mask, saved, ops = set(), [], []

    def est():
        k = rng.choice(["base", "mack", "boot", "boot"])
        op = {"base": world.gen_base, "mack": world.gen_mack}.get(k, lambda r, s: world.gen_boot(r, s, (6, 30)))(rng, sp)
        op["save"] = "r%d" % len(saved)
        saved.append(op)
        ops.append(op)
    est()
    for _ in range(rng.randint(3, 5 if tier == "quick" else 8)):
        x = rng.random()
        if x < .3:
            est()
        elif x < .45:
            ops.append(cm.gen_mut(rng, sp, mask))
        elif x < .55:
            ops.append(dict(world.gen_view(rng, sp), t="A"))
        op = exhibit(rng, saved, False)
        if rng.random() < .1:
            op["close"] = True
        x = rng.random()
        again = {q: v for q, v in op.items() if q != "old"}
        if op.get("fmt") and x < .6:
            op["faults"] = exhibits.faults(rng)
        elif x < .75:
            op.update(cm.interrupt(rng))
        ops.append(op)
        if (op.get("faults") or op.get("int")) and rng.random() < .6:
            ops.append(again)
    if n > 10:
        ops.append({"op": "exhibit", "kind": cm.side(rng).choice(["combined", "combined", "faceted"]), "t": "A"})
    return {"oracle": "model", "spec": sp, "start": [["A", "cum"]], "phases": [{"mode": "seq", "ops": ops}],
            "audit": cm.audit(rng, sp, 5), "compare": ["exhibit"] + world.VIEWS + ["a2a", "cells", "to_tbl"]}


def run(plan, ctx):
    rep = exhibits.run(plan, ctx)
    rep["nontrivial"] = sum(rep["faults"].values()) > 0
    return rep
