"""Sessions of loads from disk: datasets and the loss reserving database."""
import csv
import functools
import gc
import os

from . import canon as cn
from . import core, records, seams, session, world
from .core import HarnessError, OpInterrupt, Violation

FS = seams.FS
HEAD = ["loss_key", "grcode", "grname", "origin", "dev", "incrd_loss", "paid_loss", "train_ind"]


def desc(op):
    return " ".join([op["op"]] + ["%s=%s" % (k, v) for k, v in sorted(op.items())
                                  if k not in ("op", "out", "int", "faults", "rows", "buf")]) + \
        (" [%s at event %s]" % (op["int"]["kind"], op["int"].get("at", "?")) if op.get("int") else "") + \
        (" under %s" % [(f["op"], f["at"], f["kind"]) for f in op["faults"]] if op.get("faults") else "")


class Loads:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.dir = os.path.join(ctx.scratch, "db-%d" % os.getpid())
        self.folder = os.getcwd()
        self.dbs = {}
        self.held = {}                     # what was returned, and how it looked then
        self.log, self.inter = [], []
        self.stats = dict(ops=0, exact=0, failed=0, interrupts=0, par_phases=0, switches=0, steps=0, scribbles=0,
                          reads=0)
        self.kindstats = {}
        self.published = {}

    # -------------------------------------------------------------- the files
    def path(self, db):
        return os.path.join(self.dir, "lrdb%s.csv" % db)

    def writedb(self, db, rows):
        os.makedirs(self.dir, exist_ok=True)
        tmp = self.path(db) + ".new"
        with open(tmp, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(HEAD)
            w.writerows(rows)
        st = os.path.exists(self.path(db))
        os.replace(tmp, self.path(db))
        if st:                             # same time stamp and often the same size: only the content tells
            os.utime(self.path(db), (1.6e9, 1.6e9))
        self.dbs[db] = [list(r) for r in rows]

    def roots(self):
        import trikit
        return [os.path.dirname(p) for p in trikit.dataref.values()] + [self.dir]

    # ------------------------------------------------------------- the oracle
    def expect(self, op):
        """Canonical answer; None where the selection matches nothing (an error, or nothing)."""
        import trikit
        o = op["op"]
        if o == "datasets":
            return ("l", [("v", n) for n in sorted(trikit.dataref) if n != "lrdb"])
        if o == "load":
            if op["name"] not in self.published:
                self.published[op["name"]] = records.parse(trikit.dataref[op["name"]])
            recs = self.published[op["name"]]
        else:
            rows = self.dbs[op["db"]]
            if o == "lobs":
                return ("l", [("v", x) for x in sorted({r[0] for r in rows})])
            if o == "specs":
                return sorted({(r[0], r[1], r[2]) for r in rows})
            kw = dict({"lob": "comauto", "grcode": 1767, "grname": None, "train_only": True,
                       "loss_type": "incurred"}, **op["kw"])
            for k, c in (("lob", 0), ("grcode", 1), ("grname", 2)):
                if kw[k] is not None:
                    rows = [r for r in rows if r[c] == kw[k]]
            if not rows:
                return None
            if kw["train_only"]:
                rows = [r for r in rows if r[7] == 1]
            k = 5 if kw["loss_type"][0] == "i" else 6
            recs = [[r[3], r[4], r[k]] for r in rows]
        if op.get("tri"):
            if not recs:
                return None
            return records.triangle(recs, "cum" if op["tri"][0] == "c" else "incr")
        return records.table(recs)

    def differs(self, op, obs, raw, exp):
        if op["op"] == "specs":
            if obs[0] != "df" or obs[2] != ["loss_key", "grcode", "grname"]:
                return "specs are %s" % cn.brief(obs)
            got = list(zip(*[list(raw[c]) for c in obs[2]]))
            got = [(str(a), int(b), str(c)) for a, b, c in got]
            if sorted(got) != exp:
                return "specs list %s, expected %s" % (sorted(got)[:6], exp[:6])
            if [g[:2] for g in got] != [e[:2] for e in exp]:
                return "specs are not in order of line of business and company code"
            return None
        return cn.diff(obs, exp, align=op.get("tri") is not None)

    # ------------------------------------------------------------------- ops
    def call(self, op):
        import trikit
        o = op["op"]
        if o == "datasets":
            return trikit.get_datasets()
        if o == "load":
            if op.get("tri") or op.get("none"):
                return trikit.load(op["name"], tri_type=op.get("tri"))
            return trikit.load(op["name"])
        ref = {"lrdb": self.path(op["db"])}
        if o == "lrdb":
            kw = dict(op["kw"])
            if op.get("tri"):
                kw["tri_type"] = op["tri"]
            return trikit.load_lrdb(dataref=ref, **kw)
        if o == "lobs":
            return trikit.get_lrdb_lobs(lrdb_path=ref["lrdb"])
        if o == "specs":
            return trikit.get_lrdb_specs(lrdb_path=ref["lrdb"])
        raise HarnessError(o)

    def one(self, op):
        """(observation, raw value, exception): the exception is kept, as a caller's debugger would."""
        exc = raw = None
        try:
            raw = self.call(op)
            obs = world.canon_any(raw)
        except (core.SimAbort, core.SimDeadlock, HarnessError):
            raise
        except BaseException as e:
            exc, obs = e, ("raise", type(e).__name__)
        return {"op": op, "obs": obs, "raw": raw, "exc": exc}

    def judge(self, ob, faulty, cut, mode):
        op, obs = ob["op"], ob["obs"]
        self.stats["ops"] += 1
        self.log.append((op["op"], cn.digest(obs)))
        exp = ob["exp"]
        if obs[0] == "raise":
            self.stats["failed"] += 1
            if exp is None and obs[1] in ("ValueError", "KeyError"):
                return
            if not faulty and not cut:
                raise Violation("error:" + op["op"], "%s %s raised %s: %s" % (mode, desc(op), obs[1],
                                                                           str(ob["exc"])[:200]))
            return
        if exp is None:
            d = None if obs[0] == "df" and not obs[1] else \
                "nothing matches, but the answer was %s" % cn.brief(obs)
        else:
            d = self.differs(op, obs, ob["raw"], exp)
        if d:
            raise Violation("wrong:" + op["op"], "%s %s: %s" % (mode, desc(op), d))
        self.stats["exact"] += 1
        if op.get("out"):
            self.held[op["out"]] = (ob["raw"], obs)

    def handles(self, op, cut, ob):
        """What a call opened is closed: at once after a failure of the disk (the caller may keep the
        exception), and when the exception is gone after an interruption (pandas itself needs that)."""
        if cut or isinstance(ob["exc"], KeyboardInterrupt):
            ob["exc"] = ob["raw"] = None
            gc.collect()
        left = FS.open_handles()
        if left:
            raise Violation("leak:" + op["op"], "%s left %s open" % (desc(op), sorted(
                os.path.basename(f) for f in left)))

    def count(self):
        self.stats["reads"] += FS.counts.get("read", 0)
        for k in FS.fired:
            self.kindstats["disk " + k] = self.kindstats.get("disk " + k, 0) + 1

    def unchanged(self, when):
        if os.getcwd() != self.folder:
            raise Violation("folder", "%s: the process's working folder is %s, it was %s" % (when, os.getcwd(), self.folder))
        for k, (raw, was) in self.held.items():
            d = cn.diff(world.canon_any(raw), was)
            if d:
                raise Violation("shared", "%s: what %s returned changed: %s" % (when, k, d))

    def seq(self, ops):
        for op in ops:
            if op["op"] == "newdb":
                self.writedb(op["db"], op["rows"])
                continue
            if op["op"] == "scribble":
                if op["of"] in self.held:
                    raw = self.held.pop(op["of"])[0]
                    try:
                        if hasattr(raw, "to_tbl"):
                            raw.iloc[:, :] = -1.
                            self.stats["scribbles"] += 1
                        else:
                            self.stats["scribbles"] += bool(session.scribble(raw, op["how"]))
                    except (ValueError, TypeError, IndexError):
                        pass
                    self.unchanged("after %s was edited" % op["of"])
                continue
            if op["op"] in ("lrdb", "lobs", "specs") and op["db"] not in self.dbs:
                continue
            exp = self.expect(op)
            it = self.resolve(op)
            seams.FS_BUFFER[0] = op.get("buf", 8192)
            FS.arm(self.roots(), op.get("faults", []))
            try:
                if it is None:
                    ob = self.one(op)
                else:
                    with core.solo(it):
                        ob = self.one(op)
            finally:
                FS.disarm()
                seams.S.hook = None
            cut = it is not None and it.fired is not None
            if cut:
                self.stats["interrupts"] += 1
                k = "%s in %s" % (it.kind, op["op"])
                self.kindstats[k] = self.kindstats.get(k, 0) + 1
            self.count()
            ob["exp"] = exp
            self.handles(op, cut, ob)
            self.judge(ob, bool(FS.fired), cut, "sequential")
            self.unchanged("after " + desc(op))

    def resolve(self, op):
        q = op.get("int")
        if not q:
            return None
        return core.resolve_interrupt(q, lambda it: self.one(op), lambda: [])

    def par(self, ph):
        ths = [[op for op in th if op["op"] in ("load", "datasets") or op.get("db") in self.dbs]
               for th in ph["threads"]]
        exps = [[self.expect(op) for op in th] for th in ths]

        def alone(t):
            for op in ths[t]:
                self.one(op)
        core.resolve_targets(ph["policy"], len(ths), alone, lambda: [])
        sch = core.Scheduler(ph["policy"])
        obs = [[] for _ in ths]
        its = []

        def body(t, ops):
            def f():
                for op, exp in zip(ops, exps[t]):
                    it = None
                    if op.get("int"):
                        it = OpInterrupt(op["int"]["kind"], op["int"]["at"])
                        its.append(it)
                        sch.interrupts[t] = it
                    ob = self.one(op)
                    sch.interrupts.pop(t, None)
                    ob.update(exp=exp, cut=it is not None and it.fired is not None)
                    obs[t].append(ob)
            return f
        seams.FS_BUFFER[0] = ph.get("buf", 8192)
        FS.arm(self.roots(), ph.get("faults", []))
        try:
            sch.run([body(t, ops) for t, ops in enumerate(ths)])
        finally:
            FS.disarm()
        self.stats["par_phases"] += 1
        self.stats["switches"] += len(sch.switches)
        self.stats["steps"] += sch.step
        self.inter.append(sch.h.hexdigest())
        ph["_explicit"] = {"kind": "list", "first": sch.first, "switches": sch.switches}
        if sch.dead:
            raise Violation("stuck", "%s; threads: %s" % (sch.dead, [[desc(o) for o in t] for t in ths]))
        self.count()
        cut = any(it.fired for it in its)
        flat = [ob for t in obs for ob in t]
        self.stats["interrupts"] += cut
        soft = [ob for ob in flat if ob["cut"] or isinstance(ob["exc"], KeyboardInterrupt)]
        for ob in soft:
            ob["exc"] = ob["raw"] = None
        if soft:
            gc.collect()
        self.handles({"op": "concurrent loads"}, False, {"exc": None})
        for t, lst in enumerate(obs):
            for ob in lst:
                self.judge(ob, bool(FS.fired), ob["cut"], "thread %d" % t)
        self.unchanged("after concurrent loads")

    def run(self):
        try:
            for ph in self.plan["phases"]:
                if ph["mode"] == "seq":
                    self.seq(ph["ops"])
                else:
                    self.par(ph)
        finally:
            import shutil
            shutil.rmtree(self.dir, ignore_errors=True)


def run(plan, ctx):
    s = Loads(plan, ctx)
    v = None
    try:
        s.run()
    except Violation as e:
        v = {"cls": e.cls, "detail": e.detail}
    rep = session.report(s, plan, v)
    rep["nontrivial"] = sum(s.kindstats.values()) + s.stats["scribbles"] + s.stats["par_phases"] > 0
    return rep


def faults(rng, kinds=None):
    """A disk that misbehaves during one call."""
    out = []
    k = rng.choice(["open", "read", "read", "read", "slow", "slow+"])
    if k.startswith("slow"):
        out.append({"op": "read", "at": 0, "kind": "short", "n": rng.choice([1, 2, 7, 13, 100, 300]), "sticky": True})
        if rng.random() < .3:
            out[0]["sticky"] = False
    if k == "open":
        out.append({"op": "open", "at": rng.choice([0, 0, 0, 1]),
                    "kind": rng.choice(["EIO", "EMFILE", "EACCES", "ENOENT", "MemoryError", "KeyboardInterrupt"])})
    elif k in ("read", "slow+"):
        for _ in range(rng.choice([1, 1, 2])):
            at = rng.choice([0, 0, 1, 1, 2, 3, 5, 9, 20]) if k == "slow+" or rng.random() < .3 else rng.choice([0, 1])
            out.insert(0, {"op": "read", "at": at, "kind": rng.choice(
                ["EIO", "EIO", "ESTALE", "EINTR", "EINTR", "ENOMEM", "MemoryError", "KeyboardInterrupt"])})
    if rng.random() < .1:
        out.append({"op": "close", "at": 0, "kind": "EIO"})
    return out
