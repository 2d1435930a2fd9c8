import numpy as np

from .. import canon as cn
from .. import core, data, rngs, session, world
from . import c06
from . import common as cm

RUNS = 400
RULE = ("a case is one to three bootstraps by scripted or genuine generators and 4-12 later calls on their results (quantile "
        "queries, failing queries, interrupted ones, exhibits' data, concurrent ones), each compared with statistics "
        "recomputed from the simulations the result held when it was returned; non-trivial if a query was compared after "
        "other use of the result")
STUB = "thread scheduling, locks created by trikit, signal delivery, the random generator in part of the runs"
SCOPE = ["boot", "get_quantiles", "origin_dist"]


def pool(seed):
    return data.pool("C07", seed, 20, nmax=6)


def boot(rng, spec):
    op = dict(world.gen_boot(rng, spec, sims=(1, 40)), t="A")
    if rng.random() < .5:
        op.update(rs="script", pick=rng.choice(rngs.PICKS), noise=rng.choice(rngs.NOISES))
    return op


def query(rng, r):
    x = rng.random()
    if x < .12:
        return {"op": "origin_dist", "r": r}
    if x < .18:
        return {"op": "residuals", "r": r}
    if x < .24:
        return {"op": "str_result", "r": r}
    if x < .34:
        return rng.choice([{"op": "get_quantiles", "q": [1.5], "r": r, "nocheck": True},
                           {"op": "get_quantiles", "q": [.5], "interp": "cubic", "r": r, "nocheck": True}])
    q = rng.choice(world.QS + [sorted({round(rng.random(), rng.choice([3, 3, 6])) for _ in range(rng.randint(1, 6))}), [0.], [1.], [0., 1.]])
    if isinstance(q, list) and rng.random() < .2:
        q = {"array": q if rng.random() < .6 else q[::-1]}
    op = {"op": "get_quantiles", "q": q, "r": r}
    if rng.random() < .8:
        op["interp"] = rng.choice(["linear", "lower", "higher", "midpoint", "nearest"])
    if rng.random() < .45:
        op["lb"] = rng.choice([0, 0, 0., 10., 1e4, -1e3, 1e9])
    return op


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier, .5, nmax=8, large=.03)
    while not c06.bootable(spec):
        spec = data.gen(rng, nmax=8)
    phases, saved, ops = [], [], []

    def newboot():
        op = dict(boot(rng, spec), save="r%d" % (len(saved) + 1))
        if rng.random() < .15:
            cut = dict(op, **cm.interrupt(rng))
            del cut["save"]
            ops.append(cut)
        saved.append(op["save"])
        ops.append(op)
    newboot()
    for _ in range(rng.randint(4, 12)):
        x = rng.random()
        if x < .08 and len(saved) < 3:
            newboot()
        elif x < .16:
            ops.append(dict(world.gen_view(rng, spec), t="A") if rng.random() < .6 else
                       dict(world.gen_est(rng, spec, weights=(1, 1, 0)), t="A"))
        elif x < .2:
            ops.append({"op": "rng", "seed": rng.randrange(99)})
        else:
            op = query(rng, rng.choice(saved))
            if rng.random() < .2:
                ops.append(dict(op, **cm.interrupt(rng)))
            if rng.random() < .15:
                op["out"] = "o%d" % len(ops)
                ops.append(op)
                ops.append({"op": "scribble", "of": op["out"], "how": rng.randrange(60)})
                op = {k: v for k, v in op.items() if k != "out"}
            ops.append(op)
    phases.append({"mode": "seq", "ops": ops})
    if rng.random() < .35:
        r = rng.choice(saved)
        ths = [[query(rng, r if rng.random() < .8 else rng.choice(saved)) for _ in range(rng.randint(1, 3))]
               for _ in range(rng.choice([2, 2, 3]))]
        if rng.random() < .3:
            ths[0][-1].update(cm.interrupt_at(rng))
        phases.append(cm.par_phase(rng, ths))
    phases.append({"mode": "seq", "ops": [query(rng, r) for r in saved]})
    return {"oracle": "sims", "scope": SCOPE, "spec": spec, "phases": cm.bursts(rng, phases)}


def frame(c):
    """Columns of a canonical table by name."""
    return dict(zip(c[2], c[3]))


def pct(v, q, how):
    """Percentile q (0..1) of v: candidates, as rounding decides at (half) integer positions."""
    v = np.sort(v)
    out, last = [], len(v) - 1
    for pos in (q * last - 1e-9, q * last, q * last + 1e-9):
        pos = min(max(pos, 0.), float(last))
        lo = int(np.floor(pos))
        hi = min(lo + 1, last) if pos > lo else lo
        if how == "lower":
            x = v[lo]
        elif how == "higher":
            x = v[hi]
        elif how == "midpoint":
            x = (v[lo] + v[hi]) / 2.
        elif how == "nearest":
            x = v[lo] if pos - lo < .5 else v[hi]
        else:
            x = v[lo] + (v[hi] - v[lo]) * (pos - lo)
        out.append(x)
    return out


def qlist(q, two_sided=False):
    q = np.atleast_1d(np.asarray(q, float))
    if two_sided:
        q = np.append((1 - q) / 2., (1 + q) / 2.)
    return np.unique(q)


class Sims(session.Session):
    def dist(self, rd):
        """reserve_dist as {origin: {column: values by sim}}"""
        f = frame(rd)
        sim = np.asarray(f["sim"], float)
        out = {}
        org = [cn.lab(x) for x in f["origin"]]
        for o in sorted(set(org), key=str):
            k = np.array([x == o for x in org])
            order = np.argsort(sim[k], kind="stable")
            out[o] = {c: np.asarray(f[c], float)[k][order] for c in ("sim", "latest", "ultimate", "reserve")}
        return out

    def expect(self, op, tid, mask, est=None, estmask=None):
        return ("d", {})

    def compare(self, op, obs, exp):
        if obs[0] == "raise":
            return "raised " + obs[1]
        if op["op"] == "boot":
            return self.boot(op, obs)
        can = self.results[op["r"]]["canon"]
        D = self.dist(can[1]["reserve_dist"])
        rows = can[1]["summary"][1]
        if op["op"] == "origin_dist":
            G = self.dist(obs)
            for o in rows:
                if o not in G:
                    return "no origin %s" % o
                for c in ("sim", "latest", "ultimate", "reserve"):
                    if not cn.close(G[o][c], D[o][c], 1e-9, 1e-6):
                        return "origin_dist of %s: %s differs from the simulations" % (o, c)
            return None
        qs = qlist(world.plain(op["q"]))
        if obs[0] != "df" or obs[1] != rows:
            return "rows %s, expected %s" % (obs[1], rows)
        if len(obs[3]) != len(qs):
            return "%d columns for quantiles %s" % (len(obs[3]), list(qs))
        return self.quantiles(D, rows, list(qs), obs[3], op.get("interp", "linear"), op.get("lb"), obs[2])

    def quantiles(self, D, rows, qs, cols, how, lb, names):
        for q, c, nm in zip(qs, cols, names):
            for k, o in enumerate(rows):
                v = D[o]["reserve"]
                x2 = pct(v, q, how)
                if lb is not None:
                    x2 = [max(y, lb) for y in x2]
                if not any(cn.close(c[k], y, 1e-9, 1e-6) for y in x2):
                    return "quantile %r (%s) of %s is %r, the simulations give %r" % (q, nm, o, float(c[k]), float(x2[0]))
        return None

    def boot(self, op, obs):
        """The summary against the simulations returned along with it."""
        r = obs[1]
        D = self.dist(r["reserve_dist"])
        sm = r["summary"]
        rows, f = sm[1], frame(sm)
        sp = self.sp("A")
        O = sp["origins"]
        if rows != O + ["total"]:
            return "summary has rows %s" % rows
        C = data.matrix(sp, True)
        n = len(O)
        latest = np.array([C[i, n - 1 - i] for i in range(n)])
        for o in O:
            if o not in D or len(D[o]["sim"]) != op["sims"]:
                return "%s has not %d simulations" % (o, op["sims"])
        sims = D[O[0]]["sim"]
        if "total" not in D or not cn.close(D["total"]["sim"], sims):
            return "totals are not one per simulation"
        for c in ("latest", "ultimate", "reserve"):
            s = sum(D[o][c] for o in O)
            if not cn.close(D["total"][c], s, 1e-9, 1e-6 * (1 + np.abs(s).max())):
                return "total %s is not the sum over origins within each simulation" % c
        ult = np.array([latest[0]] + [D[o]["ultimate"].mean() for o in O[1:]])
        with np.errstate(all="ignore"):
            sd = np.array([D[o]["reserve"].std(ddof=1) if op["sims"] > 1 else np.nan for o in O + ["total"]])
            res = np.append(ult - latest, (ult - latest).sum())
            cv = sd / res
        tol = 1e-6 * (1 + np.abs(ult).max())
        for c, e in (("latest", np.append(latest, latest.sum())), ("ultimate", np.append(ult, ult.sum())), ("reserve", res),
                     ("std_error", sd)):
            if not cn.close(f[c], e, 1e-9, tol):
                k = int(np.flatnonzero(~(np.abs(np.asarray(f[c], float) - e) <= tol) & ~(np.isnan(e)))[:1].sum())
                return "summary %s of %s is %r, the simulations give %r" % (c, rows[k], f[c][k], e[k])
        for k in range(n + 1):
            if np.abs(res[k]) > 1e-3 and not cn.close(f["cv"][k], cv[k], 1e-6, 1e-6):
                return "summary cv of %s is %r, the simulations give %r" % (rows[k], f["cv"][k], cv[k])
        qs = list(qlist(world.plain(op["q"]), op["two_sided"]))
        names = [c for c in sm[2] if str(c).endswith("%")]
        if len(names) != len(qs):
            return "summary has quantile columns %s for %s" % (names, qs)
        return self.quantiles(D, rows, qs, [f[c] for c in names], op["interp"], None, names)


def run(plan, ctx):
    s = Sims(plan, ctx)
    v = None
    try:
        s.run()
    except core.Violation as e:
        v = {"cls": e.cls, "detail": e.detail}
    rep = session.report(s, plan, v)
    rep["nontrivial"] = s.stats["checked"] > 2
    return rep
