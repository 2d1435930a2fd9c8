"""Plan generation shared by the session properties."""
import random

from .. import data, world

POLICIES = ("rand", "pct", "lock")


BURSTS = world.VIEWS + world.CUMVIEWS + world.QUERIES + ["base", "mack", "boot", "a2a_avgs", "to_incr", "to_cum", "to_tbl",
                                                         "diagonal"]


def side(rng):
    """Another stream that depends on, but doesn't disturb, rng."""
    return random.Random(str(rng.getstate()[1][:6]) + str(rng.getstate()[1][-1]))


def bursts(rng, phases, p=.08, queries=0.):
    """Here and there a call is repeated dozens of times, with varying arguments, before it is asked again."""
    rng = side(rng)
    for ph in phases:
        if ph["mode"] != "seq" or rng.random() >= p:
            continue
        at = [x for x, o in enumerate(ph["ops"]) if o["op"] in BURSTS and not o.get("nocheck") and
              not (o["op"] == "boot" and o["seed"] is None)]
        if not at:
            continue
        kind = rng.choice(sorted({ph["ops"][x]["op"] for x in at}))
        x = rng.choice([x for x in at if ph["ops"][x]["op"] == kind])
        op = {q: v for q, v in ph["ops"][x].items() if q not in ("out", "save", "as", "int")}
        ests = [y for y, o in enumerate(ph["ops"]) if o["op"] in ("base", "mack", "boot") and o.get("save")]
        if queries and ests and rng.random() < queries:
            x = rng.choice(ests)
            e = ph["ops"][x]
            op = dict(world.gen_query(rng, e["op"]), r=e["save"])
        ops = [op] * (rng.random() < .9)
        if "r" not in op and op["op"] in world.CUMVIEWS + ["base", "mack", "a2a_avgs"] and rng.random() < .4:
            ops = ops + [{"op": "toggle", "cell": [0, rng.randrange(2)], "how": rng.choice(["set", "edit"]), "t": op.get("t", "A")}]
        slow = op["op"] in ("base", "mack", "boot")
        k = rng.choice([6, 12] if slow else [12, 24, 36, 70])
        ph["ops"][x + 1:x + 1] = [{"op": "burst", "k": k, "ops": ops, "t": op.get("t", "A")}, op]
    return phases


def spec(rng, pool, tier, fresh=.05, small=0., large=.012, **kw):
    """Mostly from the pool: what a fresh session answers is then known already."""
    side_ = side(rng)
    if side_.random() < large:                     # more periods than tables and figures usually have
        return data.gen(side_, nmin=11, nmax=15, sample=0)
    if rng.random() < small:
        return data.gen(rng, nmin=2, nmax=3, sample=0)
    if rng.random() < (fresh if tier == "quick" else 4 * fresh):
        return data.gen(rng, **(kw or {"nmax": 7}))
    return rng.choice(pool)


def policy(rng, target=.4):
    if rng.random() < target:
        want = [[0 if k == 0 else rng.randrange(4), rng.random(), rng.random()] for k in range(rng.choice([1, 1, 2, 3]))]
        return {"kind": "target", "want": want, "seed": rng.randrange(1 << 30), "hot": rng.random() < .5}
    x = rng.random()
    s = rng.randrange(1 << 30)
    if x < .4:
        return {"kind": "rand", "p": rng.choice([.003, .01, .03, .1, .3]), "seed": s}
    if x < .55:
        return {"kind": "rand", "p": 1.0, "seed": s}
    return {"kind": "pct", "depth": rng.randint(1, 5), "horizon": rng.choice([60, 200, 800, 3000, 10000]), "seed": s}


def par_phase(rng, threads, target=.4):
    ph = {"mode": "par", "policy": policy(rng, target), "threads": threads}
    if ph["policy"]["kind"] != "target" and rng.random() < .15:
        ph["fine"] = True
        if ph["policy"].get("p", 0) > .1:
            ph["policy"]["p"] = .1
    return ph


def interrupt(rng, p=1.0):
    if rng.random() >= p:
        return {}
    return {"int": {"kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "u": rng.random(), "u2": rng.random(),
                    "hot": rng.random() < .5}}


def interrupt_at(rng):
    return {"int": {"kind": "MemoryError", "at": int(10 ** rng.uniform(0, 3.3))}}


def audit(rng, spec, k=10, **kw):
    """What is asked of every triangle at the end of a run."""
    ops = world.audit_ops(spec, **kw)
    keep = sorted(rng.sample(range(len(ops)), min(k, len(ops))))
    return [ops[x] for x in keep]


def cells(spec, rng, frac=.15, keep=None):
    """Random admissible cells to exclude."""
    n = len(spec["origins"])
    return [(i, j) for j in range(n - 1) for i in range(n - 1 - j) if rng.random() < frac]


def ok_mask(n, mask):
    """Every estimate stays well defined under the mask."""
    for j in range(n - 1):
        left = (n - 1 - j) - sum(1 for (a, b) in mask if b == j)
        if left < 1 or (j == n - 4 and left < 2):
            return False
    return True


def gen_mut(rng, spec, mask, t="A"):
    """An exclusion or re-admission that keeps estimates well defined; updates mask."""
    n = len(spec["origins"])
    for _ in range(8):
        if mask and rng.random() < .45:
            c, v = rng.choice(sorted(mask)), 1
        else:
            j = rng.randrange(n - 1)
            c, v = (rng.randrange(n - 1 - j), j), 0
        m = set(mask)
        (m.discard if v else m.add)(c)
        if ok_mask(n, m):
            mask.clear()
            mask.update(m)
            op = {"op": rng.choice(["set_ind", "at_ind"]), "o": spec["origins"][c[0]], "d": spec["devs"][c[1]],
                  "v": v, "t": t}
            if op["op"] == "at_ind":
                op["how"] = rng.choice(["at", "at", "loc", "iat", "mask"])
            return op
    return {"op": "a2aind", "t": t}


def history(rng, spec, want, t="A", other=None, muts=True, par=True, cum=True, ests=(4, 3, 1), length=(5, 12), wild=0.):
    """Phases of a session of which the calls made by want(rng) are the point.

    Around them: other views and estimates, exclusions, interrupted calls and concurrent phases."""
    n = len(spec["origins"])
    mask, phases, saved, k = set(), [], [], [0]

    def noise():
        x = rng.random()
        if not cum:
            return dict(world.gen_view(rng, spec, cum=False) if x < .7 else {"op": "to_cum"}, t=t)
        if x < .5:
            return dict(world.gen_view(rng, spec), t=t)
        if x < .6:
            return {"op": "to_incr", "t": t}
        return dict(world.gen_est(rng, spec, sims=(2, 6), weights=ests), t=t)

    def point(save=True):
        op = dict(want(rng), t=t)
        if save and op["op"] in ("base", "mack", "boot"):
            k[0] += 1
            op["save"] = "r%d" % k[0]
            saved.append(op)
        return op
    nph = rng.choice([1, 2, 2, 3])
    for p in range(nph):
        if par and cum and rng.random() < .4:
            ths = []
            for _ in range(rng.choice([2, 2, 3])):
                ops = []
                for _o in range(rng.randint(1, 2)):
                    y = rng.random()
                    if saved and y < .25:
                        e = rng.choice(saved)
                        ops.append(dict(world.gen_query(rng, e["op"]), r=e["save"]))
                    else:
                        ops.append(point(False) if y < .75 else noise())
                ths.append(ops)
            if rng.random() < .25:
                ths[0][-1].update(interrupt_at(rng))
            phases.append(par_phase(rng, ths))
            continue
        ops = []
        for _ in range(rng.randint(*length) // nph + 1):
            if rng.random() < .05:                 # triangles like this one come and go
                q = [dict(want(rng)) for _ in range(rng.randint(1, 2))]
                ops.append({"op": "churn", "t": t, "k": rng.choice([2, 5]), "f": rng.choice([1.3, .7]), "ops": q})
                ops.append(dict(q[0], t=t))
            x = rng.random()
            if muts and cum and x < .2:
                ops.append(gen_mut(rng, spec, mask, t))
            elif x < .35:
                ops.append(noise())
            elif saved and x < .5:
                e = rng.choice(saved)
                ops.append(dict(world.gen_query(rng, e["op"]), r=e["save"]))
            else:
                op = point()
                if rng.random() < .25:
                    cut = dict(op, **interrupt(rng))
                    cut.pop("save", None)
                    ops.append(cut)
                ops.append(op)
        phases.append({"mode": "seq", "ops": ops})
    phases.append({"mode": "seq", "ops": [point(False) for _ in range(2)]})
    return phases
