"""Runs a plan: phases of sequential or concurrent calls, with interruptions,
caller edits and crashes, against the oracle of the property."""
import math
import os
import pickle

import numpy as np
import pandas as pd

from . import canon as cn
from . import core, data, model, seams, world
from .core import HarnessError, OpInterrupt, Violation

INTERNAL = ("edit_tri", "scribble", "scribble_arg", "scribble_df", "rng", "draw", "build", "checkpoint", "restore", "gc", "churn", "burst")


MUTATORS = ("set_ind", "at_ind", "col_ind")


def linearizable(h, init):
    """Is there an order of the operations on one register, consistent with real time, that explains the reads?

    h: (kind, value, start, end, maybe); an operation marked maybe may not have happened."""
    def go(left, val):
        if all(x[4] for x in left):
            return True
        for x in left:
            if any(y is not x and y[3] < x[2] and not y[4] for y in left):
                continue
            rest = [y for y in left if y is not x]
            if x[0] == "w":
                if go(rest, x[1]):
                    return True
            elif x[1] == val and go(rest, val):
                return True
        return False
    if all(x[0] == "r" for x in h):
        return all(x[1] == init for x in h)
    return go(h, init)


def expected_model(op, M, fields, est=None, estM=None):
    """Canonical expectation from the model, or None where the model is silent."""
    o = op["op"]
    if o in ("latest", "latest_by_origin", "latest_by_devp", "devp", "maturity", "nbr_cells", "triind", "rlvi",
             "clvi", "a2a", "a2aind", "a2a_lvi", "ranked_a2a", "a2a_assignment", "a2a_avgs"):
        return getattr(M, o)()
    if o == "origins":
        return M.origins_()
    if o == "diagonal":
        return M.diagonal(op["k"])
    if o == "to_tbl":
        return M.to_tbl(fields, op["dropna"])
    if o == "cells":
        return M.table()
    tri = lambda name, cells: ("d", {"type": ("v", name), "fields": ("l", [("v", f) for f in fields]),
                                     "cells": ("df", M.origins, M.devs, [cells[:, j] for j in range(M.n)])})
    if o == "construct":
        return tri("CumTriangle", M.C) if op["kind"] == "cum" else tri("IncrTriangle", M.incremental())
    if o == "to_incr":
        return tri("IncrTriangle", M.incremental())
    if o == "to_cum":
        return tri("CumTriangle", np.cumsum(M.C, axis=1))
    if o == "roundtrip":
        return tri("CumTriangle", M.C)
    if o == "base":
        s = op.get("sel", "all-weighted")
        f = M.ldfs(s) if isinstance(s, str) else s["vals"]
        return ("d", M.base(f, op.get("tail", 1.)))
    if o == "mack":
        q = world.plain(op["q"])
        m = M.mack(op["alpha"], op["dist"], q, op["two_sided"])
        return None if m is None else ("d", m)
    if o == "get_quantiles" and est is not None and est["op"] == "mack":
        return estM.mack_quantiles(dict(alpha=est["alpha"], dist=est["dist"]), world.plain(op["q"]))
    if o == "devp_corr" and est is not None:
        return M.devp_corr(op["p"])
    if o == "cy_effects" and est is not None:
        return M.cy_effects(op["p"])
    return None


def subset(obs, exp):
    """Keep of a result's attributes those the model speaks about."""
    if obs[0] == "d" and exp[0] == "d" and "type" not in exp[1]:
        return ("d", {k: obs[1].get(k, ("v", "<missing>")) for k in exp[1]})
    return obs


def scribble(x, how):
    """What a careless caller does to a table it was given."""
    if isinstance(x, pd.DataFrame):
        if x.shape[0] == 0 or x.shape[1] == 0:
            return False
        h = how % 6
        if h == 0:
            x.iloc[0, x.shape[1] - 1] = -123456
        elif h == 1:
            x.drop(index=x.index[:1], inplace=True)
        elif h == 2:
            x[x.columns[0]] = -1
        elif h == 3:
            for k in range(x.shape[1]):
                v = x.iloc[:, k].values
                if v.flags.writeable and v.dtype.kind in "fiO":
                    v[:] = 7
        elif h == 4:
            x.columns = ["c%d" % k for k in range(x.shape[1])]
            x.index = range(1000, 1000 + x.shape[0])
        else:
            x["extra"] = 1.
            x.iloc[-1, 0] = -5
        return True
    if isinstance(x, pd.Series):
        if not len(x):
            return False
        h = how % 3
        if h == 0:
            x.iloc[0] = -123456
        elif h == 1:
            v = x.values
            if v.flags.writeable and v.dtype.kind in "fiO":
                v[:] = 7
        else:
            x.drop(index=x.index[:1], inplace=True)
        return True
    if isinstance(x, np.ndarray) and x.size and x.flags.writeable:
        x[...] = 0
        return True
    if isinstance(x, list) and x:
        x[0] = .5
        x.append(.25)
        return True
    return False


def scribble_result(r, how):
    attrs = [k for k in sorted(vars(r)) if not k.startswith("_") and k != "tri" and
             isinstance(vars(r)[k], (pd.DataFrame, pd.Series, np.ndarray))]
    if not attrs:
        return False
    return scribble(vars(r)[attrs[how // 6 % len(attrs)]], how)


class Session:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.scope = plan.get("scope")
        self.oracle = plan["oracle"]
        self.tris, self.masks, self.kinds = {}, {}, {}
        self.results = {}
        self.raw, self.args = {}, {}
        self.log = []
        self.ckpt = None
        self.stats = dict(ops=0, checked=0, interrupts=0, switches=0, steps=0, scribbles=0, crashes=0,
                          missed_interrupts=0, par_phases=0, masked=0)
        self.kindstats = {}
        self.inter = []
        self.frames = {}
        self.cur = []
        self.clock = 0
        self.fields, self.holes = {}, {}
        world.lrdb_file()
        self.folder = os.getcwd()
        self.shadow = np.random.RandomState(4711)     # where NumPy's global generator should be

    def converted(self, op):
        """Kind, field names and holes of what a conversion returns."""
        tid, how = op["t"], op["how"]
        kind = how.split("_")[-1] if ">" not in how else how.split(">")[1]
        f = self.fields.get(tid) or self.sp(tid)["fields"]
        if how.split(">")[0] in ("frame", "typed", "pivot", "given"):
            f = ["origin", "dev", "value"]
        return kind, f, kind == "incr" and self.hole(tid)

    def hole(self, tid):
        return self.holes.get(tid, self.kinds.get(tid) == "incr" and bool(self.sp(tid).get("gaps")))

    def tri_expected(self, kind, fields, holes, tid):
        sp = self.sp(tid)
        C = data.matrix(sp, kind == "cum")
        if holes:
            for i, j in sp["gaps"]:
                C[i, j] = np.nan
        return ("d", {"type": ("v", "CumTriangle" if kind == "cum" else "IncrTriangle"),
                      "fields": ("l", [("v", f) for f in fields]),
                      "cells": ("df", sp["origins"], sp["devs"], [C[:, j] for j in range(len(sp["devs"]))])})

    # ------------------------------------------------------------- expectation
    def sp(self, tid):
        return self.plan.get("specs", {}).get(tid) or self.plan["spec"]

    def M(self, tid, mask=None):
        sp = self.sp(tid)
        cum = self.kinds.get(tid, "cum") == "cum"
        C = data.matrix(sp, cum)
        if not cum and self.hole(tid):
            for i, j in sp["gaps"]:
                C[i, j] = np.nan
        m = model.Model(C, sp["origins"], sp["devs"], not cum)
        for i, j in (self.masks.get(tid, set()) if mask is None else mask):
            m.W[i, j] = 0
        return m

    def expect(self, op, tid, mask, est=None, estmask=None):
        if self.oracle == "twin":
            return self.ctx.twin.ask(self.sp(tid), op, estmask if est is not None else mask, est,
                                     self.kinds.get(tid, "cum"))
        f = self.fields.get(tid) or self.sp(tid)["fields"]
        if op["op"] == "convert":
            return self.tri_expected(*self.converted(op), tid)
        if op["op"] in ("to_incr", "to_cum", "roundtrip"):
            kind = {"to_incr": "incr", "to_cum": "cum", "roundtrip": "cum"}[op["op"]]
            return self.tri_expected(kind, f, False, tid)
        if op["op"] == "to_tbl" and op["dropna"] and self.hole(tid):
            tb = expected_model(dict(op, dropna=True), self.M(tid, mask), f)
            keep = ~np.isnan(tb[3][2])
            return ("df", list(range(int(keep.sum()))), tb[2], [c[keep] for c in tb[3]])
        return expected_model(op, self.M(tid, mask), f, est,
                              self.M(tid, estmask) if est is not None else None)

    def compare(self, op, obs, exp):
        if exp is None:
            return None
        if self.oracle == "twin":
            return cn.diff(obs, exp)
        if obs[0] != "raise":
            obs = subset(obs, exp)
        return cn.diff(obs, exp, align=True, rtol=1e-7, atol=1e-7)

    def in_scope(self, op):
        return self.scope is None or op["op"] in self.scope

    # -------------------------------------------------------------------- ops
    def target(self, op):
        if "r" in op:
            R = self.results.get(op["r"])
            if R is None or R["dead"]:
                return None
            return R
        return self.tris.get(op.get("t", "A"))

    def one(self, op, it=None):
        """Performs op; returns an observation to be judged later."""
        o = op["op"]
        tid = op.get("t", "A")
        ob = {"op": op, "tid": tid, "it": it}
        if o in INTERNAL:
            self.internal(op)
            return None
        if o == "construct":
            ob["args"] = world.Args(op)
            ob["mask"] = set()
            try:
                ob["obs"], raw = world.outcome(dict(op, _spec=self.sp(tid), _df=self.df(tid)))
            except KeyboardInterrupt:
                ob["obs"], raw = ("raise", "KeyboardInterrupt"), None
            return ob
        tgt = self.target(op)
        if tgt is None:
            return None
        if "r" in op:
            ob.update(est=tgt["est"], estmask=tgt["mask"], tid=tgt["tid"])
            r, t = tgt["obj"], None
        else:
            r, t = None, tgt
        tid = ob["tid"]
        if o not in MUTATORS + ("base", "mack", "boot", "get_quantiles", "devp_corr", "cy_effects",
                     "origin_dist", "residuals", "str_result", "exhibit", "clone") and "r" in op:
            return None
        ob["mask"] = set(self.masks.get(tid, set()))
        a = world.Args(op, t)
        ob["args"] = a
        self.cur = [a.sel, a.q]
        try:
            obs, raw = world.outcome(op, t, r, a)
        except KeyboardInterrupt:
            obs, raw = ("raise", "KeyboardInterrupt"), None
        ob["obs"] = obs
        if o == "convert" and obs[0] != "raise" and op.get("as"):
            kind, fields, holes = self.converted(op)
            d = op["as"]
            self.tris[d], self.masks[d], self.kinds[d] = raw, set(), kind
            self.fields[d], self.holes[d] = fields, holes
        if o == "clone" and obs[0] != "raise" and op.get("as"):
            if "r" in op:
                self.results[op["as"]] = dict(tgt, obj=raw)
            else:
                d = op["as"]
                self.tris[d], self.masks[d], self.kinds[d] = raw, set(ob["mask"]), self.kinds[tid]
        if op.get("out"):
            self.raw[op["out"]] = (raw, op)
            self.args[op["out"]] = a
        if op.get("save") and obs[0] == "d" and o in ("base", "mack", "boot"):
            self.results[op["save"]] = {"obj": raw, "est": op, "mask": ob["mask"], "tid": tid, "canon": obs,
                                        "dead": False}
        return ob

    def internal(self, op):
        o = op["op"]
        if o == "rng":
            np.random.seed(op["seed"])
            self.shadow.seed(op["seed"])
        elif o == "draw":
            np.random.rand(op.get("k", 3))
            self.shadow.rand(op.get("k", 3))
        elif o == "edit_tri":
            t = self.tris.pop(op["t"], None)         # the caller edits the cells of a triangle of their own
            if t is not None:
                t.iloc[:, :] = -1.
                self.stats["scribbles"] += 1
        elif o == "gc":
            import gc
            gc.collect()
        elif o == "scribble":
            if op["of"] in self.raw:
                x, src = self.raw[op["of"]]
                if src["op"] == "a2aind" or x is None or isinstance(x, BaseException):
                    return
                if type(x).__name__.endswith("Result"):
                    ok = scribble_result(x, op["how"])
                    for R in self.results.values():
                        if R["obj"] is x:
                            R["dead"] = True
                else:
                    ok = False
                    try:
                        ok = scribble(x, op["how"])
                    except (ValueError, TypeError):
                        pass
                self.stats["scribbles"] += bool(ok)
        elif o == "scribble_df":                   # edits the records after the triangle was built
            tid = op["t"]
            key = tid if tid in self.plan.get("specs", {}) else ""
            if key in self.frames:
                try:
                    self.stats["scribbles"] += bool(scribble(self.frames[key][0], op["how"]))
                except (ValueError, TypeError):
                    pass
                del self.frames[key]
        elif o == "scribble_arg":
            a = self.args.get(op["of"])
            if a is not None:
                for x in (a.sel, a.q):
                    if x is not None:
                        try:
                            self.stats["scribbles"] += bool(scribble(x, op["how"]))
                        except (ValueError, TypeError, IndexError):
                            pass
        elif o == "churn":
            self.churn(op)
        elif o == "burst":
            self.burst(op)
        elif o == "build":
            self.build(op["t"], op.get("kind", "cum"))
        elif o == "checkpoint":
            self.checkpoint()
        elif o == "restore":
            pass                                 # handled by run()

    def df(self, tid):
        """The caller's records of triangle tid."""
        key = tid if tid in self.plan.get("specs", {}) else ""
        if key not in self.frames:
            df = data.records(self.sp(tid))
            self.frames[key] = [df, cn.canon(df)]
        return self.frames[key][0]

    def build(self, tid, kind="cum"):
        self.kinds[tid], self.masks[tid] = kind, set()
        self.tris[tid] = data.build(self.sp(tid), kind, self.df(tid))

    def churn(self, op):
        """Triangles of the same size and labels come and go; the last one is that of the session again."""
        import gc
        tid = op["t"]
        if self.tris.pop(tid, None) is None:
            return
        sp, kind = self.sp(tid), self.kinds[tid]

        def exclude(t):
            for i, j in sorted(self.masks[tid]):
                t.a2aind.at[sp["origins"][i], sp["devs"][j]] = 0
            return t
        for k in range(op["k"]):
            gc.collect()
            f = op["f"] ** (k + 1)
            t = exclude(data.build(dict(sp, cells=[[x * (f if j else 1) for j, x in enumerate(row)]
                                                   for row in sp["cells"]]), kind))
            for q in op["ops"]:
                world.outcome(q, t)
            del t
        gc.collect()
        self.tris[tid] = exclude(data.build(sp, kind, self.df(tid)))

    def burst(self, op):
        """The same calls over and over, with other arguments each time."""
        for k in range(op["k"]):
            for q in op["ops"]:
                tgt = self.target(q)
                if tgt is None:
                    return
                q = dict(q)
                if "q" in q and q["op"] != "boot":
                    q["q"] = [(k + 1.) / (op["k"] + 2)]
                if q["op"] == "boot" and q.get("rs", "int") == "int":
                    q["seed"] = q["seed"] + k + 1
                if "p" in q:
                    q["p"] = (k + 1.) / (op["k"] + 2)
                if q["op"] == "toggle":
                    ind, (i, j) = tgt.a2aind, q["cell"]
                    j = j % ind.shape[1]
                    was = ind.iat[i, j]
                    for v in (0 if was else 1, was):
                        if q["how"] == "set":
                            tgt.a2aind = (ind.index[i], ind.columns[j], v)
                        else:
                            tgt.a2aind.iat[i, j] = v
                elif "r" in q:
                    world.outcome(q, None, tgt["obj"])
                else:
                    world.outcome(q, tgt)

    # ------------------------------------------------------------- judgements
    def judge(self, ob, mode):
        if ob is None:
            return
        op, obs, it = ob["op"], ob["obs"], ob["it"]
        self.stats["ops"] += 1
        tid = ob["tid"]
        name = op["op"]
        fired = it is not None and it.fired is not None
        if fired:
            self.stats["interrupts"] += 1
            k = "%s in %s" % (it.kind, name)
            self.kindstats[k] = self.kindstats.get(k, 0) + 1
        elif it is not None and it.at is not None:
            self.stats["missed_interrupts"] += 1
        self.log.append((name, cn.digest(obs), fired))
        if name in MUTATORS:
            m = self.masks[tid]
            after = set(m)
            for c, v in self.writes(op, tid):
                (after.discard if v else after.add)(c)
            if fired:
                got = cn.canon(self.tris[tid].a2aind)
                for cand in (m, after):
                    if cn.diff(got, self.M(tid, cand).a2aind(), align=True) is None:
                        self.masks[tid] = cand
                        break
                else:
                    raise Violation("mask", "after an interrupted exclusion the indicator table is neither "
                                            "as before nor as requested")
            elif obs[0] == "raise":
                raise Violation("error:" + name, "raised %s" % obs[1])
            else:
                self.masks[tid] = after
            return
        if fired:
            if obs != ("raise", it.kind):
                if self.in_scope(op):
                    raise Violation("swallowed:" + name, "%s at %s did not reach the caller; the call returned %s" %
                                    (it.kind, it.fired[:2], cn.brief(obs)))
            self.args_ok(ob)
            return
        self.args_ok(ob)
        if not self.in_scope(op) or op.get("nocheck") or name not in self.plan.get("compare", [name]):
            return
        if name == "exhibit":
            if obs[0] == "raise":
                raise Violation("error:exhibit", "%s raised %s" % (desc(op), obs[1]))
            return
        exp = self.expect(op, tid, ob["mask"], ob.get("est"), ob.get("estmask"))
        if exp is None:
            return
        self.stats["checked"] += 1
        self.stats["masked"] += bool(ob.get("estmask") if ob.get("est") is not None else ob["mask"])
        d = self.compare(op, obs, exp)
        if d:
            kind = "error" if obs[0] == "raise" else "wrong"
            msg = d
            raise Violation("%s:%s" % (kind, name), "%s %s: %s" % (mode, desc(op), msg))

    def writes(self, op, tid):
        """Cells an exclusion or re-admission sets, and to what."""
        sp = self.sp(tid)
        j = sp["devs"].index(op["d"])
        if op["op"] == "col_ind":
            return [((i, j), 0) for i in range(len(sp["origins"]) - 1 - j)]
        return [((sp["origins"].index(op["o"]), j), op["v"])]

    def args_ok(self, ob):
        if self.plan.get("check_args", True):
            d = ob["args"].touched()
            if d:
                raise Violation("argument:" + ob["op"]["op"], d)

    def rng_ok(self, what, name):
        """Has anything but the harness used NumPy's global generator?"""
        a, b = np.random.get_state(), self.shadow.get_state()
        if not (a[0] == b[0] and (a[1] == b[1]).all() and a[2:] == b[2:]):
            raise Violation("rng:" + name, "%s used or changed NumPy's global generator" % what)

    def after(self, op):
        if not self.plan.get("rngcheck") or op["op"] in INTERNAL:
            return
        if op["op"] == "boot" and op["seed"] is None:
            self.shadow.set_state(np.random.get_state())
        elif self.in_scope(op):
            self.rng_ok(desc(op), op["op"])
        else:
            self.shadow.set_state(np.random.get_state())

    def here(self, when):
        if os.getcwd() != self.folder:
            raise Violation("folder", "%s: the process's working folder is %s, it was %s" % (when, os.getcwd(), self.folder))

    def unchanged(self, when):
        """Results already returned are what they were; so are the records and the working folder."""
        self.here(when)
        for k, R in self.results.items():
            if R["dead"]:
                continue
            d = cn.diff(world.canon_result(R["obj"]), R["canon"])
            if d:
                raise Violation("result-changed", "%s: result %s of %s changed: %s" % (when, k, desc(R["est"]), d))
        for df, was in self.frames.values():
            d = cn.diff(cn.canon(df), was)
            if d:
                raise Violation("records-changed", "%s: the caller's records changed: %s" % (when, d))

    # ----------------------------------------------------------------- phases
    def resolve(self, op):
        """Turn an interruption request into an explicit event index."""
        q = op.get("int")
        if not q:
            return None
        return core.resolve_interrupt(q, lambda it: self.one(op, it), self.roots)

    def roots(self):
        """What the calls of a session share."""
        return [self.tris, [R["obj"] for R in self.results.values()], self.cur, [f[0] for f in self.frames.values()]]

    def seq(self, ops):
        for op in ops:
            it = self.resolve(op)
            if it is not None:
                with core.solo(it):
                    try:
                        ob = self.one(op, it)
                    finally:
                        seams.S.hook = None
                if ob is None and it.fired is not None:
                    raise HarnessError("interrupt outside an op")
                self.judge(ob, "sequential")
                self.after(op)
                if it.fired is not None and self.plan.get("after_int", True):
                    self.unchanged("after interrupted %s" % desc(op))
            else:
                self.judge(self.one(op), "sequential")
                self.after(op)

    def alone(self, ops):
        for op in ops:
            try:
                self.one(op)
            except BaseException:
                pass

    def par(self, ph):
        core.resolve_targets(ph["policy"], len(ph["threads"]), lambda t: self.alone(ph["threads"][t]), self.roots)
        large = len(self.plan["spec"]["origins"]) > 10
        sch = core.Scheduler(ph["policy"], ph.get("max_steps", 6000000 if large else 600000))
        obs = [[] for _ in ph["threads"]]

        def body(t, ops):
            def f():
                for op in ops:
                    it = None
                    if op.get("int"):
                        it = OpInterrupt(op["int"]["kind"], op["int"]["at"])
                        sch.interrupts[t] = it
                    self.clock += 1
                    t0 = self.clock
                    ob = self.one(op, it)
                    self.clock += 1
                    if ob is not None:
                        ob.update(t0=t0, t1=self.clock)
                    obs[t].append(ob)
                    sch.interrupts.pop(t, None)
            return f
        seams.set_fine(bool(ph.get("fine")) and not large)
        try:
            sch.run([body(t, ops) for t, ops in enumerate(ph["threads"])])
        finally:
            seams.set_fine(False)
        self.stats["par_phases"] += 1
        self.stats["switches"] += len(sch.switches)
        self.stats["preempts"] = self.stats.get("preempts", 0) + sch.preempts
        self.stats["steps"] += sch.step
        self.inter.append(sch.h.hexdigest())
        ph["_explicit"] = {"kind": "list", "first": sch.first, "switches": sch.switches}
        if sch.dead:
            raise Violation("stuck", "%s; threads: %s" % (sch.dead, [[desc(o) for o in t] for t in ph["threads"]]))
        if self.plan.get("rngcheck"):
            if all(self.in_scope(o) or o["op"] in INTERNAL for th in ph["threads"] for o in th):
                self.rng_ok("a concurrent phase of " + "; ".join(desc(o) for th in ph["threads"] for o in th), "phase")
            else:
                self.shadow.set_state(np.random.get_state())
        moving = {o.get("t", "A") for t in ph["threads"] for o in t if o["op"] in MUTATORS}
        for tid in sorted(moving):
            self.registers(tid, [[ob for ob in lst if ob is not None and ob["tid"] == tid] for lst in obs])
        for t, lst in enumerate(obs):
            for ob in lst:
                if ob is not None and ob["tid"] in moving:
                    self.loose(ob)
                else:
                    self.judge(ob, "thread %d" % t)

    def loose(self, ob):
        """A call made while exclusions were changing: it must not fail."""
        op, obs, it = ob["op"], ob["obs"], ob["it"]
        self.stats["ops"] += 1
        self.log.append((op["op"], obs[0]))
        if it is not None and it.fired is not None:
            self.stats["interrupts"] += 1
            k = "%s in %s" % (it.kind, op["op"])
            self.kindstats[k] = self.kindstats.get(k, 0) + 1
            if obs != ("raise", it.kind) and self.in_scope(op):
                raise Violation("swallowed:" + op["op"], "%s at %s did not reach the caller" % (it.kind, it.fired[:2]))
            return
        if obs[0] == "raise" and (self.in_scope(op) or op["op"] in MUTATORS):
            raise Violation("error:" + op["op"], "%s, while exclusions were changing: raised %s" % (desc(op), obs[1]))

    def registers(self, tid, obs):
        """Each indicator is an atomic register; the table read after the phase is the last read of all."""
        M = self.M(tid, set())
        n = M.n
        last = cn.canon(self.tris[tid].a2aind)
        valid = M.a2aind()
        if last[0] != "df" or last[1] != valid[1] or last[2] != valid[2]:
            raise Violation("mask", "after concurrent exclusions the indicator table has index %s, columns %s" %
                            (last[1], last[2]))
        hist = {}
        for lst in obs:
            for ob in lst:
                cut = ob["it"] is not None and ob["it"].fired is not None
                if ob["op"]["op"] in MUTATORS:
                    for c, v in self.writes(ob["op"], tid):
                        hist.setdefault(c, []).append(("w", v, ob["t0"], ob["t1"], cut))
        reads = [(ob["obs"], ob["t0"], ob["t1"]) for lst in obs for ob in lst
                 if ob["op"]["op"] == "a2aind" and ob["obs"][0] == "df"] + [(last, 10 ** 12, 10 ** 12)]
        new = set()
        for j in range(n - 1):
            for i in range(n - 1):
                init = 0 if (i, j) in self.masks[tid] else float(valid[3][j][i])
                h = list(hist.get((i, j), []))
                for tb, t0, t1 in reads:
                    if tb[1] != valid[1] or tb[2] != valid[2]:
                        raise Violation("mask", "a reader saw an indicator table with columns %s" % tb[2])
                    h.append(("r", float(tb[3][j][i]), t0, t1, False))
                if not linearizable(h, init):
                    raise Violation("mask", "link ratio %s/%s of %s: no order of the concurrent exclusions explains what "
                                    "was read: %s (before: %s)" % (M.origins[i], M.devs[j], tid,
                                                                   [x[:4] for x in h], init))
                if last[3][j][i] == 0 and valid[3][j][i] == 1:
                    new.add((i, j))
        self.stats["checked"] += len(hist)
        self.masks[tid] = new

    # ------------------------------------------------------- save and restore
    def checkpoint(self):
        self.ckpt = pickle.dumps({
            "tris": pickle.dumps(self.tris, protocol=self.plan.get("proto", 4)),
            "results": {k: (pickle.dumps(R["obj"], protocol=self.plan.get("proto", 4)),
                            dict({q: R[q] for q in ("est", "mask", "tid", "canon", "dead")}, held=self.held(R)))
                        for k, R in self.results.items()},
            "masks": self.masks, "kinds": self.kinds})

    def held(self, R):
        """The exclusions of the triangle a result holds, if it is one of the session's."""
        t = getattr(R["obj"], "tri", None)
        return set(self.masks.get(R["tid"], ())) if t is not None and t is self.tris.get(R["tid"]) else R.get("held")

    def holdings(self):
        """The triangles that restored results hold are what they were when saved."""
        for k, R in sorted(self.results.items()):
            if R["dead"] or R.get("held") is None:
                continue
            for op in ({"op": "a2aind"}, {"op": "cells"}):
                obs = world.outcome(dict(op, t=R["tid"]), R["obj"].tri)[0]
                d = self.compare(op, obs, self.expect(op, R["tid"], R["held"]))
                if d:
                    raise Violation("wrong:held", "the triangle held by result %s (%s) after its restore, %s: %s" % (
                        k, desc(R["est"]), op["op"], d))

    def load(self, blob):
        d = pickle.loads(blob)
        self.tris = pickle.loads(d["tris"])
        self.results = {}
        for k, (b, meta) in d["results"].items():
            self.results[k] = dict(meta, obj=pickle.loads(b))
        self.masks, self.kinds = d["masks"], d["kinds"]
        self.raw, self.args = {}, {}

    def audit(self):
        ops = self.plan.get("audit")
        if ops is None:
            return
        for tid in sorted(self.tris):
            cum = self.kinds[tid] == "cum"
            for op in ops:
                if not cum and op["op"] not in world.VIEWS + ["diagonal", "to_tbl", "cells", "str", "to_cum"]:
                    continue
                if cum and op["op"] == "to_cum":
                    continue
                self.judge(self.one(dict(op, t=tid)), "audit of %s" % tid)
        self.unchanged("audit")

    def run_phases(self, phases):
        for ph in phases:
            if ph["mode"] == "seq":
                self.seq(ph["ops"])
            else:
                self.par(ph)
            if self.plan.get("each_phase", True):
                self.unchanged("after phase")

    def run(self):
        np.random.seed(4711)
        self.shadow.seed(4711)
        for t in self.plan.get("start", [["A", "cum"]]):
            self.build(*t)
        self.run_phases(self.plan["phases"])
        self.audit()


def desc(op):
    return " ".join([op["op"]] + ["%s=%s" % (k, v) for k, v in sorted(op.items())
                                  if k not in ("op", "out", "save", "int")]) + \
        (" [%s at event %s]" % (op["int"]["kind"], op["int"].get("at", "?")) if op.get("int") else "")


def run_session(plan, ctx):
    s = Session(plan, ctx)
    v = None
    seams.S.workers = w = seams.Workers(plan["workers"]) if "workers" in plan else None
    try:
        s.run()
    except Violation as e:
        v = {"cls": e.cls, "detail": e.detail}
    finally:
        seams.S.workers = None
    if w is not None and w.held:
        s.kindstats["worker thread late"] = w.held
    return report(s, plan, v)


def segment(plan, ctx, k, blob, fresh=False):
    """One process life: restore what was saved, work, save, work on, crash."""
    seg = plan["segments"][k]
    sub = dict(plan, phases=seg["phases"])
    s = Session(sub, ctx)
    v = None
    try:
        np.random.seed(4711 + k)
        if blob is None:
            for t in plan.get("start", [["A", "cum"]]):
                s.build(*t)
        else:
            try:
                s.load(blob)
            except Exception as e:
                raise Violation("restore", "restoring failed: %s: %s" % (type(e).__name__, e))
            s.unchanged("after restore")
            s.holdings()
        s.run_phases(seg["phases"])
        try:
            s.checkpoint()
        except Exception as e:
            raise Violation("save", "saving failed: %s: %s" % (type(e).__name__, e))
        if k == len(plan["segments"]) - 1:
            s.audit()
        else:
            lost = seg.get("lost", [])
            s.run_phases([{"mode": "seq", "ops": lost}])
            s.stats["crashes"] += 1
    except Violation as e:
        v = {"cls": e.cls, "detail": "process %d: %s" % (k, e.detail)}
    rep = report(s, sub, v)
    rep["blob"] = s.ckpt
    rep["seg"] = seg
    return rep


def run_segments(plan, ctx):
    """Each segment in a process that has done nothing before."""
    blob, reps = None, []
    for k, seg in enumerate(plan["segments"]):
        if seg.get("interpreter") and blob is not None:
            rep = in_interpreter(plan, ctx, k, blob)
        else:
            rep = core.in_child(lambda: segment(plan, ctx, k, blob), 80, "segment")
        plan["segments"][k] = rep.pop("seg")
        blob = rep.pop("blob")
        reps.append(rep)
        if rep["violation"]:
            break
    out = dict(reps[-1], plan=plan)
    for key in ("stats", "faults"):
        out[key] = {}
        for r in reps:
            for q, x in r[key].items():
                out[key][q] = out[key].get(q, 0) + x
    out["faults"]["process crash"] = out["stats"]["crashes"]
    out["inter"] = [x for r in reps for x in r["inter"]]
    out["digest"] = cn.digest([r["digest"] for r in reps])
    return out


def in_interpreter(plan, ctx, k, blob):
    """The same in a newly started interpreter with another hash seed."""
    import base64
    import os
    import subprocess
    import sys
    env = dict(os.environ, PYTHONHASHSEED=str(plan["segments"][k]["interpreter"]))
    seg = dict(plan, segments=[dict(s, interpreter=0) for s in plan["segments"]])
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim.segment"], env=env, timeout=80,
                       input=pickle.dumps((seg, k, blob)), capture_output=True)
    if p.returncode != 0:
        raise HarnessError("segment interpreter: " + p.stderr.decode()[-2000:])
    rep = pickle.loads(p.stdout)
    rep["seg"]["interpreter"] = plan["segments"][k]["interpreter"]
    return rep


def report(s, plan, v):
    return {"violation": v, "stats": s.stats, "faults": s.kindstats, "inter": s.inter,
            "digest": cn.digest([list(map(str, x)) for x in s.log], s.inter, str(v)), "plan": plan}
