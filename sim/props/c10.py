"""Loss records arrive in batches over a channel that reorders, delays, loses, splits and repeats."""
import gc

import numpy as np
import pandas as pd

from .. import canon as cn
from .. import core, data, records, session, world
from ..core import HarnessError, OpInterrupt, Violation
from . import common as cm

RUNS = 1800
REAL = ""
STUB = "thread scheduling, locks created by trikit, signal delivery, the delivery of records"
RULE = ("a case is 8-60 loss records delivered in 1-6 batches that are reordered, delayed, lost, split and repeated, with "
        "a triangle of either kind built after each arrival, interrupted and concurrent constructions; non-trivial if "
        "records were out of order, split, repeated or missing")

NAMES = [["origin", "dev", "value"], ["ay", "age", "loss"], ["year", "lag", "paid"], ["o", "d", "v"],
         ["origin", "dev", "cum"], ["origin", "dev", "incr"], ["ay", "dev", "cumval"], ["origin_", "dev_", "value_"],
         ["AY", "Dev Period", "Paid Loss"], ["dev", "origin", "value"], ["value", "dev", "origin"],
         ["index", "dev", "value"], ["origin", "index", "value"], ["origin", "dev", "index"], ["latest", "maturity", "amount"],
         ["cum", "incr", "value"], ["incr", "cum", "loss"], ["origin", "incr", "cum"]]


def pool(seed):
    return None


def frame(op):
    """The records as the caller holds them."""
    f = op["fields"]
    recs = op["records"]
    if op.get("wide"):
        return wide(op)
    df = pd.DataFrame({f[0]: np.array([r[0] for r in recs], dtype=op.get("otype", "int64")),
                       f[1]: np.array([r[1] for r in recs], dtype=op.get("dtype", "int64")),
                       f[2]: np.array([np.nan if r[2] is None else r[2] for r in recs], dtype=float)})
    if op.get("vint") and all(r[2] is not None and r[2] == int(r[2]) for r in recs):
        df[f[2]] = df[f[2]].astype("int64")
    x = op.get("index")
    if x == "rev":
        df.index = range(len(recs))[::-1]
    elif x == "dup":
        df.index = [k // 2 for k in range(len(recs))]
    elif x == "str":
        df.index = ["r%d" % (k * 7 % 11) for k in range(len(recs))]
    elif x == "zero":
        df.index = [0] * len(recs)
    elif x == "named":
        df.index.name = f[0]
    elif x == "field":
        df.index = df[f[1]]
    for k, c in enumerate(op.get("extra", [])):
        df.insert(k % (len(df.columns) + 1), c, [("x%d" % q if k % 2 else q * 1.5) for q in range(len(recs))])
    if op.get("cols"):
        df = df[list(df.columns)[::-1]]
    return df


def wide(op):
    """The same amounts laid out as a triangle, with rows and columns in some order."""
    sums = {}
    for o, d, v in op["records"]:
        if v is not None:
            sums[o, d] = sums.get((o, d), 0.) + v
    O, D = sorted({o for o, d in sums}), sorted({d for o, d in sums})
    w = op["wide"]
    if "rows" in w:
        O = [O[k] for k in np.argsort([(w["rows"] * (k + 1) * 7919) % 101 for k in range(len(O))], kind="stable")]
    if "cols" in w:
        D = [D[k] for k in np.argsort([(w["cols"] * (k + 1) * 7919) % 101 for k in range(len(D))], kind="stable")]
    df = pd.DataFrame([[sums.get((o, d), np.nan) for d in D] for o in O], index=O, columns=D, dtype=float)
    if w.get("str"):
        df.index, df.columns = [str(o) for o in O], [str(d) for d in D]
    df.index.name, df.columns.name = w.get("names", [None, None])
    return df


def construct(op, df):
    import trikit
    f = op["fields"]
    kw = dict(zip(("origin", "dev", "value"), f))
    if f == ["origin", "dev", "value"] and op.get("defaults"):
        kw = {}
    if op["fmt"] == "cum" or op.get("explicit"):
        kw["data_format"] = op["fmt"]
    if op.get("wide"):
        return trikit.totri(df, op["kind"], data_shape="triangle", **(kw if op.get("explicit") else {"data_format": op["fmt"]}))
    if op.get("direct") and op["kind"] == "incr" and op["fmt"] == "incr":
        return trikit.triangle.IncrTriangle(df, **dict(zip(("origin", "dev", "value"), f)))
    return trikit.totri(df, op["kind"], **kw)


def expected(op):
    if op.get("wide"):
        return records.triangle([r for r in op["records"] if r[2] is not None], op["kind"], op["fmt"])
    return records.triangle(op["records"], op["kind"], op["fmt"], op["fields"])


def usable(exp):
    """Every period has something delivered for it, so that rows and columns are defined."""
    c = exp[1]["cells"]
    return c[1] and c[2] and not any(np.isnan(x).all() for x in c[3])


def desc(op):
    return "%s triangle of %d %s records, fields %s%s" % (
        op["kind"], len(op["records"]), op["fmt"], op["fields"],
        " [%s at event %s]" % (op["int"]["kind"], op["int"].get("at", "?")) if op.get("int") else "")


class Arrivals:
    def __init__(self, plan):
        self.plan = plan
        self.log, self.inter = [], []
        self.kindstats = {}
        self.stats = dict(ops=0, checked=0, interrupts=0, par_phases=0, switches=0, steps=0, unusable=0)
        self.held = []

    def one(self, op, df):
        try:
            t = construct(op, df)
            return t, world.canon_any(t)
        except (core.SimAbort, core.SimDeadlock, HarnessError):
            raise
        except BaseException as e:
            return None, ("raise", type(e).__name__, str(e)[:150])

    def judge(self, op, df, was, t, obs, exp, it, mode):
        self.stats["ops"] += 1
        self.log.append((op["kind"], cn.digest(obs)))
        d = cn.diff(cn.canon(df), was)
        if d is None and list(df.dtypes) != was_types(op):
            d = "column types changed"
        if d:
            raise Violation("records-changed", "%s %s: the caller's records changed: %s" % (mode, desc(op), d))
        if it is not None and it.fired is not None:
            self.stats["interrupts"] += 1
            k = "%s in construct" % it.kind
            self.kindstats[k] = self.kindstats.get(k, 0) + 1
            if obs[:2] != ("raise", it.kind):
                raise Violation("swallowed", "%s at %s did not reach the caller" % (it.kind, it.fired[:2]))
            return
        if not usable(exp):
            self.stats["unusable"] += 1
            return
        if obs[0] == "raise":
            raise Violation("error", "%s %s raised %s: %s" % (mode, desc(op), obs[1], obs[2]))
        d = cn.diff(obs, exp, atol=1e-6)
        if d:
            raise Violation("wrong", "%s %s: %s" % (mode, desc(op), d))
        self.stats["checked"] += 1
        self.held.append((t, obs))

    def resolve(self, op):
        q = op.get("int")
        if not q:
            return None
        df = frame(op)
        return core.resolve_interrupt(q, lambda it: self.one(op, df), lambda: [df])

    def run(self):
        df = None
        for st in self.plan["steps"]:
            if st["op"] == "deliver":
                if not st["records"]:
                    continue
                exp = expected(st)
                df = frame(st)
                was = cn.canon(df)
                it = self.resolve(st)
                if it is not None:
                    with core.solo(it):
                        t, obs = self.one(st, df)
                    self.judge(st, df, was, t, obs, exp, it, "after delivery")
                    it = None
                    st2 = {k: v for k, v in st.items() if k != "int"}
                    t, obs = self.one(st2, df)       # the same records, once more
                    self.judge(st2, df, was, t, obs, exp, None, "after an interrupted attempt,")
                else:
                    t, obs = self.one(st, df)
                    self.judge(st, df, was, t, obs, exp, None, "after delivery")
                # what the caller does to the records later doesn't matter to the triangle
                if st.get("scribble") is not None:
                    session.scribble(df, st["scribble"])
                for t, obs in self.held[-3:]:
                    d = cn.diff(world.canon_any(t), obs)
                    if d:
                        raise Violation("shared", "an earlier triangle changed: %s" % d)
            else:                                    # several threads build from the same records
                ths = [t for t in st["threads"] if t["records"]]
                if not ths:
                    continue
                shared = frame(ths[0])
                was = cn.canon(shared)
                ths = [dict(ths[0], **{k: t[k] for k in ("kind",)}) for t in ths]
                exps = [expected(t) for t in ths]
                core.resolve_targets(st["policy"], len(ths), lambda t: self.one(ths[t], shared), lambda: [shared])
                sch = core.Scheduler(st["policy"])
                out = [None] * len(ths)

                def body(n):
                    def f():
                        out[n] = self.one(ths[n], shared)
                    return f
                sch.run([body(n) for n in range(len(ths))])
                self.stats["par_phases"] += 1
                self.stats["switches"] += len(sch.switches)
                self.stats["steps"] += sch.step
                self.inter.append(sch.h.hexdigest())
                st["_explicit"] = {"kind": "list", "first": sch.first, "switches": sch.switches}
                if sch.dead:
                    raise Violation("stuck", sch.dead)
                for n, th in enumerate(ths):
                    self.judge(th, shared, was, out[n][0], out[n][1], exps[n], None, "thread %d:" % n)


def was_types(op):
    return list(frame(op).dtypes)


def gen(rng, i, tier, pool):
    spec = data.gen(rng, nmin=4 if rng.random() < .9 else 2, nmax=8, fields=False)
    extra = cm.side(rng)
    if extra.random() < .03:
        spec = data.gen(extra, nmin=11, nmax=14, fields=False, sample=0)
    n = len(spec["origins"])
    fmt = "cum" if rng.random() < .35 else "incr"
    cells = []
    for a in range(n):
        run = 0.
        for b in range(n - a):
            x = spec["cells"][a][b]
            if rng.random() < .3:
                x = float(round(x))
            if b == 0 and rng.random() < .06:
                x = rng.choice([0., -x])
            elif rng.random() < .02:               # tiny next to what was delivered before
                x = rng.choice([.01, .01, -.01, 0.])
            run = round(run + x, 2)
            cells.append([spec["origins"][a], spec["devs"][b], run if fmt == "cum" else x])
    full = rng.random() < .15
    if full:                                       # the lower right portion is delivered, too
        for a in range(n):
            for b in range(n - a, n):
                cells.append([spec["origins"][a], spec["devs"][b], round(rng.uniform(10, 5000) + (1e5 if fmt == "cum" else 0), 2)])
    faults = {}

    def count(k):
        faults[k] = faults.get(k, 0) + 1
    # loss: some cells are never delivered (but every period keeps something)
    if rng.random() < .45:
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(len(cells))
            o, d, _v = cells[k]
            left = cells[:k] + cells[k + 1:]
            if any(c[0] == o for c in left) and any(c[1] == d for c in left):
                cells = left
                count("record lost")
    # split and repeated
    recs = []
    many = extra.random() < .03                    # every claim a record
    for o, d, v in cells:
        if many:
            parts = extra.randint(30, 60)
            cut = [round(v / parts * extra.uniform(.2, 1.7), 2) for _ in range(parts - 1)]
            recs += [[o, d, x] for x in cut] + [[o, d, round(v - sum(cut), 2)]]
        elif v and rng.random() < .15:
            parts = rng.randint(2, 4)
            cut = [round(v * rng.uniform(-.3, .8), 2) for _ in range(parts - 1)]
            recs += [[o, d, x] for x in cut] + [[o, d, round(v - sum(cut), 2)]]
            count("cell split")
        else:
            recs.append([o, d, v])
    if rng.random() < .25:
        for _ in range(rng.randint(1, 3)):
            recs.append(list(rng.choice(recs)))
            count("record repeated")
    if rng.random() < .2:
        for _ in range(rng.randint(1, 3)):
            r = rng.choice(recs)
            recs.insert(rng.randrange(len(recs)), [r[0], r[1], None])
            count("amount missing")
    if rng.random() < .85:
        if rng.random() < .5:
            rng.shuffle(recs)
        else:
            recs.sort(key=rng.choice([lambda r: (r[1], r[0]), lambda r: (-r[0], r[1]), lambda r: (r[0], -r[1]),
                                      lambda r: (r[2] is None, r[2])]))
        count("reordered")
    # batches arrive with delays: the order of batches is another permutation
    nb = rng.choice([1, 1, 2, 3, 6])
    at = sorted(rng.randrange(len(recs) + 1) for _ in range(nb - 1))
    batches = [recs[a:b] for a, b in zip([0] + at, at + [len(recs)])]
    if nb > 1 and rng.random() < .5:
        rng.shuffle(batches)
        count("batch delayed")
    base = {"fields": rng.choice(NAMES) if rng.random() < .5 else NAMES[0], "fmt": fmt}
    if rng.random() < .5:
        base["index"] = rng.choice(["rev", "dup", "str", "zero", "named", "field"])
    if rng.random() < .4:
        base["extra"] = [c for c in rng.sample(["cum", "incr", "cumval", "index", "lob", "origin", "dev", "value", "zz"],
                                               rng.randint(1, 3)) if c not in base["fields"]]
    for q, p in (("vint", .2), ("cols", .2), ("defaults", .5), ("explicit", .3), ("direct", .2)):
        if rng.random() < p:
            base[q] = 1
    if rng.random() < .2:
        base["otype"] = rng.choice(["int32", "int16" if max(spec["origins"]) < 32768 else "int32"])
        base["dtype"] = rng.choice(["int32", "int16", "int64"])
    steps, got = [], []
    for k, b in enumerate(batches):
        got = got + b
        op = dict(base, op="deliver", kind=rng.choice(["cum", "cum", "incr"]), records=[list(r) for r in got])
        if rng.random() < .3:
            op.update(cm.interrupt(rng))
        if rng.random() < .5:
            op["scribble"] = rng.randrange(6)
        if rng.random() < .15:
            op["wide"] = {q: rng.randrange(100) for q in ("rows", "cols") if rng.random() < .4}
            if rng.random() < .3:
                op["wide"]["str"] = 1
            op["wide"]["names"] = [rng.choice([None, "origin", "index", "dev", base["fields"][0]]),
                                   rng.choice([None, "origin", "dev", "value", base["fields"][1]])]
            count("laid out as a triangle")
        steps.append(op)
    if rng.random() < .6:                          # delivered again in yet another order
        again = [list(r) for r in got]
        rng.shuffle(again)
        steps.append(dict(base, op="deliver", kind=rng.choice(["cum", "incr"]), records=again))
    if rng.random() < .35:
        steps.append({"op": "par", "policy": cm.policy(rng), "threads": [
            dict(base, op="deliver", kind=rng.choice(["cum", "incr"]), records=[list(r) for r in got])
            for _ in range(rng.choice([2, 3]))]})
    return {"steps": steps, "delivery": faults}


def run(plan, ctx):
    s = Arrivals(plan)
    v = None
    try:
        s.run()
    except Violation as e:
        v = {"cls": e.cls, "detail": e.detail}
    for k, x in plan["delivery"].items():
        s.kindstats[k] = x
    rep = session.report(s, plan, v)
    rep["nontrivial"] = bool(plan["delivery"])
    return rep
