"""Operations on triangles and results, and what a fresh process answers to them."""
import hashlib
import io
import json
import os
import pickle
import select
import socket
import struct
import sys

import numpy as np
import pandas as pd

from . import canon as cn
from . import core, data, model, rngs

VIEWS = ["latest", "latest_by_origin", "latest_by_devp", "devp", "origins", "maturity", "nbr_cells",
         "triind", "rlvi", "clvi"]
CUMVIEWS = ["a2a", "a2aind", "a2a_lvi", "ranked_a2a", "a2a_assignment"]
ESTIMATORS = ["base", "mack", "boot"]
QUERIES = ["get_quantiles", "devp_corr", "cy_effects", "origin_dist", "residuals", "str_result"]


def canon_tri(t):
    return ("d", {"type": ("v", type(t).__name__), "cells": cn.canon(pd.DataFrame(t)),
                  "fields": ("l", [("v", t.origin), ("v", t.dev), ("v", t.value)])})


def canon_result(r):
    out = {}
    for k in sorted(vars(r)):
        if k.startswith("_") or k in ("tri", "dsuffix", "qtlhdrs"):
            continue
        c = cn.canon(vars(r)[k])
        if c[0] != "?":
            out[k] = c
    return ("d", out)


def is_tri(x):
    return isinstance(x, pd.DataFrame) and hasattr(x, "_latest_by_origin") or type(x).__name__.endswith("Triangle")


def canon_any(x):
    if type(x).__name__ in ("CumTriangle", "IncrTriangle"):
        return canon_tri(x)
    if type(x).__name__.endswith("Result"):
        return canon_result(x)
    return cn.canon(x)


def mk_sel(op, t):
    """The sel argument of base_cl as the caller would build it."""
    s = op.get("sel", "all-weighted")
    if isinstance(s, str):
        return s
    kind, vals = s["as"], s["vals"]
    if kind == "list":
        return list(vals)
    if kind == "tuple":
        return tuple(vals)
    if kind == "array":
        return np.array(vals, dtype=float)
    if kind == "intlist":
        return [int(v) for v in vals]
    x = pd.Series(vals, index=s["index"], dtype=float)
    return x.iloc[s["order"]] if s.get("order") else x


def mk_q(q):
    if isinstance(q, dict):
        return np.array(q["array"], dtype=float)
    return list(q) if isinstance(q, list) else q


def plain(q):
    """The quantiles an op asks for."""
    return q["array"] if isinstance(q, dict) else q


def gen_q(rng):
    q = rng.choice(QS)
    if isinstance(q, list) and rng.random() < .35:
        return {"array": q if rng.random() < .5 else q[::-1]}
    return q


def mk_state(op):
    """The random_state argument: an integer of some type, or a generator in a given state."""
    s, how = op["seed"], op.get("rs", "int")
    if s is None:
        if "gseed" in op:
            np.random.seed(op["gseed"])
        return None
    if how == "state":
        rs = np.random.RandomState(s)
        rs.rand(op.get("advance", 0))
        return rs
    if how == "script":
        return rngs.Scripted(s, op["pick"], op["noise"])
    return getattr(np, how)(s) if how != "int" else s


def lrdb_file():
    """A small loss reserving database (the real one isn't in the repository)."""
    p = os.path.join(os.environ["SIM_SCRATCH"], "lrdb.csv")
    if not os.path.exists(p):
        with open("%s.%d" % (p, os.getpid()), "w") as f:
            f.write("loss_key,grcode,grname,origin,dev,incrd_loss,paid_loss,train_ind\n")
            for lob in ("comauto", "medmal", "wkcomp"):
                for c in (1767, 86):
                    for i in range(6):
                        for j in range(6):
                            f.write("%s,%d,Co %d,%d,%d,%d,%d,%d\n" % (lob, c, c, 1988 + i, 1 + j, 900 // (j + 1) + 7 * i + c % 5,
                                                                    500 // (j + 1) + 5 * i, i + j < 6))
        os.replace("%s.%d" % (p, os.getpid()), p)
    return p


class Args:
    """Arguments of one call, so that the caller's copies can be checked."""

    def __init__(self, op, t=None):
        self.sel = mk_sel(op, t) if op["op"] == "base" else None
        self.q = mk_q(op["q"]) if "q" in op else None
        self.before = (cn.canon(self.sel), cn.canon(self.q))

    def touched(self):
        now = (cn.canon(self.sel), cn.canon(self.q))
        for nm, a, b in zip(("sel", "q"), now, self.before):
            d = cn.diff(a, b, nm)
            if d:
                return "caller's argument changed: " + d
        return None


DEFAULTS = dict(sel="all-weighted", tail=1.0, alpha=1, dist="lognorm", q=[.75, .95], two_sided=False,
                parametric=False, interpolation="linear")
ORDER = {"base": ["sel", "tail"], "mack": ["alpha", "tail", "dist", "q", "two_sided"],
         "boot": ["sims", "q", "procdist", "parametric", "two_sided", "interpolation", "random_state"]}


def estimate(t, op, kw):
    """Asks for an estimate in one of the ways a caller can: every argument named, those left out that have
    their documented default, by position, or through the estimator's own class (made for this call, or used
    for another question before)."""
    how, o = op.get("via", "named"), op["op"]
    if how in ("short", "again", "class"):
        kw = {k: v for k, v in kw.items() if k not in DEFAULTS or isinstance(v, np.ndarray) or
              type(v) is not type(DEFAULTS[k]) or v != DEFAULTS[k]}
    if how in ("class", "again"):
        from trikit.estimators import base, bootstrap, mack
        e = {"base": base.BaseChainLadder, "mack": mack.MackChainLadder, "boot": bootstrap.BootstrapChainLadder}[o](t)
        if how == "again":
            st = np.random.get_state()
            e(**{"base": dict(tail=1.25), "mack": dict(alpha=2, dist="norm", q=[.6], two_sided=True),
                 "boot": dict(sims=2, q=[.6], two_sided=True, random_state=3 if op.get("seed") is None else op["seed"])}[o])
            if kw.get("random_state", 0) is None:      # drawn from numpy's own generator
                np.random.set_state(st)
        return e(**kw)
    f = getattr(t, o + "_cl")
    if how == "placed":
        full = dict(DEFAULTS, procdist="gamma")
        full.update(kw)
        return f(*[full[k] for k in ORDER[o]])
    return f(**kw)


def gen_via(rng, op):
    """How the question is asked."""
    x = rng.random()
    if x < .5:
        return op
    op["via"] = "short" if x < .75 else "placed" if x < .85 else "class" if x < .93 else "again"
    return op


def call(op, t=None, r=None, args=None):
    """Performs the call an op stands for and returns what trikit returned."""
    a = args or Args(op, t)
    o = op["op"]
    if o in VIEWS or o in CUMVIEWS:
        return getattr(t, o)
    if o == "diagonal":
        return t.diagonal() if op["k"] == 0 else t.diagonal(offset=op["k"])
    if o == "to_tbl":
        return t.to_tbl() if op["dropna"] else t.to_tbl(dropna=False)
    if o == "a2a_avgs":
        return t.a2a_avgs()
    if o == "str":
        return str(t)
    if o == "cells":
        return pd.DataFrame(t)
    if o == "to_incr":
        return t.to_incr()
    if o == "to_cum":
        return t.to_cum()
    if o == "roundtrip":
        return t.to_incr().to_cum()
    if o == "base":
        return estimate(t, op, dict(sel=a.sel, tail=op.get("tail", 1.0)))
    if o == "mack":
        return estimate(t, op, dict(alpha=op["alpha"], dist=op["dist"], q=a.q, two_sided=op["two_sided"]))
    if o == "boot":
        return estimate(t, op, dict(sims=op["sims"], q=a.q, parametric=op["parametric"], two_sided=op["two_sided"],
                                    interpolation=op["interp"], random_state=mk_state(op)))
    if o == "get_quantiles":
        kw = {}
        if op.get("interp"):
            kw["interpolation"] = op["interp"]
        if "lb" in op:
            kw["lb"] = op["lb"]
        return r.get_quantiles(q=a.q, **kw)
    if o == "devp_corr":
        return r.devp_corr_test() if op["p"] == .5 else r.devp_corr_test(p=op["p"])
    if o == "cy_effects":
        return r.cy_effects_test() if op["p"] == .05 else r.cy_effects_test(op["p"])
    if o == "origin_dist":
        return r.origin_dist
    if o == "residuals":
        return r.residuals_detail
    if o == "str_result":
        return str(r)
    if o == "clone":
        return pickle.loads(pickle.dumps(r if r is not None else t, protocol=op.get("proto", 4)))
    if o == "convert":
        return convert(t, op["how"])
    if o == "exhibit":
        exhibit(op, t, r)
        return None
    if o == "load":
        import trikit
        return trikit.load(op["name"], tri_type=op["tri"]) if op.get("tri") else trikit.load(op["name"])
    if o == "lrdb":
        import trikit
        return trikit.load_lrdb(dataref={"lrdb": lrdb_file()}, **op["kw"])
    if o in ("lobs", "specs"):
        import trikit
        return (trikit.get_lrdb_lobs if o == "lobs" else trikit.get_lrdb_specs)(lrdb_path=lrdb_file())
    if o == "datasets":
        import trikit
        return trikit.get_datasets()
    if o == "construct":
        return data.build(op["_spec"], op["kind"], op["_df"])
    if o == "set_ind":
        t.a2aind = (op["o"], op["d"], op["v"])
        return None
    if o == "bad_ind":                           # refused, or without effect
        try:
            t.a2aind = [(t.index[0], t.columns[0]), (t.index[0], t.columns[0], 0, 0), 0, ()][op["how"]]
        except (TypeError, ValueError):
            pass
        return None
    if o == "at_ind":
        ind, how = t.a2aind, op.get("how", "at")
        o_, d_, v_ = op["o"], op["d"], op["v"]
        if how == "at":
            ind.at[o_, d_] = v_
        elif how == "loc":
            ind.loc[o_, d_] = v_
        elif how == "iat":
            ind.iat[ind.index.get_loc(o_), ind.columns.get_loc(d_)] = v_
        elif how == "mask":
            ind.loc[ind.index == o_, d_] = v_
        return None
    if o == "col_ind":
        t.a2aind.loc[:, op["d"]] = 0
        return None
    raise core.HarnessError("unknown op %r" % (op,))


def convert(t, how):
    """One conversion between representations, as the documentation shows it."""
    import trikit
    f = dict(origin=t.origin, dev=t.dev, value=t.value)
    fmt = "cum" if type(t).__name__ == "CumTriangle" else "incr"
    if how == "to_incr":
        return t.to_incr()
    if how == "to_cum":
        return t.to_cum()
    src, to = how.split(">")
    if src == "tbl":
        return trikit.totri(t.to_tbl(), to, data_format=fmt, **f)
    if src == "shuffled":                       # tabular form, delivered in another order
        df = t.to_tbl()
        return trikit.totri(df.iloc[::-1], to, data_format=fmt, **f)
    if src == "pivot":                          # laid out by pandas, columns in another order
        w = t.to_tbl().pivot(index=t.origin, columns=t.dev, values=t.value)
        return trikit.totri(w[w.columns[::-1]], to, data_format=fmt, data_shape="triangle")
    if src == "given":
        return trikit.totri(pd.DataFrame(t), to, data_format=fmt, data_shape="triangle", **f)
    if src == "frame":
        return trikit.totri(pd.DataFrame(t), to, data_format=fmt, data_shape="triangle")
    return trikit.totri(t, to, data_format=fmt, data_shape="triangle")


def exhibit(op, t, r, path=None):
    """Draws an exhibit; to a throw-away file unless told where."""
    import matplotlib.pyplot as plt
    kind, kw = op["kind"], dict(op.get("kw", {}))
    try:
        if kind in ("plot", "hist"):
            getattr(r, kind)(exhibit_path=path or io.BytesIO(), **kw)
        elif kind == "diagnostics":
            r.diagnostics()
        else:
            t.plot(display=kind)
    finally:
        plt.close("all")


def outcome(op, t=None, r=None, args=None):
    """(canonical outcome, raw value).  Exceptions raised by the call are outcomes."""
    try:
        v = call(op, t, r, args)
    except (core.SimAbort, core.SimDeadlock, core.HarnessError):
        raise
    except Exception as e:
        return ("raise", type(e).__name__), e
    return canon_any(v), v


# --------------------------------------------------------- random ops (JSON)

def gen_view(rng, spec, cum=True):
    n = len(spec["origins"])
    o = rng.choice(VIEWS + (CUMVIEWS if cum else []) + ["diagonal", "to_tbl", "str"] + (["a2a_avgs"] if cum else []))
    op = {"op": o}
    if o == "diagonal":
        op["k"] = -rng.randrange(0, n)
    if o == "to_tbl":
        op["dropna"] = rng.random() < .7
    return op


def gen_base(rng, spec, avg=True):
    n = len(spec["origins"])
    op = {"op": "base", "tail": rng.choice([1.0, 1.0, 1.05, 1.2, .97, 1.0004, round(rng.uniform(.8, 3.), 3)])}
    x = rng.random()
    if x < .6 or not avg:
        nm = [m[0] for m in model.Model(np.ones((n, n)), range(n), range(n)).avg_names()]
        op["sel"] = "all-weighted" if x < .2 else rng.choice(nm)
    else:
        vals = [round(1 + rng.uniform(.02, 1.5) / (j + 1), 4) for j in range(n - 1)]
        for j in range(n - 1):
            if rng.random() < .1:
                vals[j] = rng.choice([1., 1., .98, .7, 1.0001])
        k = rng.choice(["list", "array", "series", "tuple", "series", "intlist"])
        if k == "intlist":
            vals = [float(rng.choice([1, 2, 3][:1 + (j < n // 2) + (j < 2)])) for j in range(n - 1)]
        op["sel"] = {"as": k, "vals": vals}
        if k == "series":
            op["sel"]["index"] = spec["devs"][:-1]
            if rng.random() < .3:                  # factors in another order, labelled all the same
                op["sel"]["order"] = rng.sample(range(n - 1), n - 1)
    return gen_via(rng, op)


QS = [[.75, .95], [.75, .95], [.75, .95], [.5], .9, [.05, .25, .5, .75, .995], [.333], [.95, .75], [.1, .1, .6], [0.001, .999],
      [.99985], [.12345, .12346], [.9999, .00025], .66667]


def gen_mack(rng, spec):
    return gen_via(rng, {"op": "mack", "alpha": rng.choice([0, 1, 1, 2]), "dist": rng.choice(["norm", "lognorm"]),
                         "q": gen_q(rng), "two_sided": rng.random() < .35})


def gen_boot(rng, spec, sims=(4, 25)):
    return gen_via(rng, {"op": "boot", "sims": rng.randint(*sims), "q": gen_q(rng), "two_sided": rng.random() < .3,
                         "parametric": rng.random() < .25, "seed": rng.randrange(10 ** 6),
                         "interp": rng.choice(["linear", "linear", "lower", "higher", "midpoint", "nearest"])})


def gen_query(rng, kind):
    if kind == "base":
        return {"op": "str_result"}
    if kind == "mack":
        o = rng.choice(["get_quantiles", "devp_corr", "cy_effects", "str_result"])
    else:
        o = rng.choice(["get_quantiles", "get_quantiles", "origin_dist", "residuals", "str_result"])
    op = {"op": o}
    if o == "get_quantiles":
        op["q"] = gen_q(rng)
        if kind == "boot":
            if rng.random() < .8:
                op["interp"] = rng.choice(["linear", "lower", "higher", "midpoint", "nearest"])
            if rng.random() < .4:
                op["lb"] = rng.choice([0, 10., 1000.])
    if o in ("devp_corr", "cy_effects"):
        op["p"] = rng.choice([.05, .1, .5, .01, .75, .001, .999])
    return op


def gen_est(rng, spec, sims=(4, 25), weights=(4, 3, 3)):
    k = rng.choices(["base", "mack", "boot"], weights)[0]
    return {"base": gen_base, "mack": gen_mack}.get(k, lambda r, s: gen_boot(r, s, sims))(rng, spec)


def audit_ops(spec, cum=True, est=True, boot=False):
    ops = [{"op": v} for v in VIEWS + (CUMVIEWS if cum else [])]
    ops += [{"op": "diagonal", "k": 0}, {"op": "diagonal", "k": -1}, {"op": "to_tbl", "dropna": True},
            {"op": "cells"}, {"op": "str"}]
    if cum:
        ops += [{"op": "a2a_avgs"}, {"op": "to_incr"}]
        if est:
            ops += [{"op": "base", "sel": "all-weighted", "tail": 1.0},
                    {"op": "mack", "alpha": 1, "dist": "lognorm", "q": [.75, .95], "two_sided": False,
                     "via": "short"}]
        if boot:
            ops += [{"op": "boot", "sims": 5, "q": [.75, .95], "two_sided": False, "parametric": False,
                     "seed": 516, "interp": "linear"}]
    else:
        ops += [{"op": "to_cum"}]
    return ops


# ----------------------------------------------------------------------- twin

def _twin_one(spec, kind, mask, op, est):
    if op["op"] == "clone":                       # a restored object looks like the original
        t = data.build(spec, kind)
        if est is None:
            return canon_any(t)
        for i, j in mask:
            t.a2aind.at[spec["origins"][i], spec["devs"][j]] = 0
        return canon_any(call(est, t))
    if op["op"] == "construct":
        return outcome(dict(op, _spec=spec, _df=data.records(spec)))[0]
    t = data.build(spec, kind)
    for i, j in mask:
        t.a2aind.at[spec["origins"][i], spec["devs"][j]] = 0
    if est is not None:
        r = call(est, t)
        return outcome(op, t, r)[0]
    return outcome(op, t)[0]


class Twin:
    """A pristine process that answers what a call returns in a fresh session.

    The server is forked before the first trikit call; it forks again for every
    request, so that no request sees another one's traces.
    """

    def __init__(self, cachedir):
        self.dir = cachedir                     # answers are shared between workers
        os.makedirs(cachedir, exist_ok=True)
        # One connection per question: a run that is ended while it waits for an
        # answer leaves nothing behind that the next one could take for its own.
        self.name = os.path.join(cachedir, "s%d.%s" % (os.getpid(), os.urandom(4).hex()))
        if len(self.name) > 100:
            self.name = "\0sim-%d-%s" % (os.getpid(), os.urandom(8).hex())
        lst = socket.socket(socket.AF_UNIX)
        lst.bind(self.name)
        lst.listen(64)
        self.r1, self.w1 = os.pipe()                # closed when the harness ends
        self.pid = os.fork()
        self.asked = 0
        if self.pid == 0:
            try:
                os.close(self.w1)
                self._serve(lst)
            finally:
                os._exit(0)
        os.close(self.r1)
        lst.close()

    @staticmethod
    def _read(fd, n):
        b = b""
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                raise EOFError
            b += x
        return b

    @staticmethod
    def _write(fd, b):
        b = struct.pack(">Q", len(b)) + b
        while b:
            k = os.write(fd, b[:1 << 16])
            b = b[k:]

    def _serve(self, lst):
        while True:
            if self.r1 in select.select([lst, self.r1], [], [])[0]:
                return
            con = lst.accept()[0]
            try:
                req = self._read(con.fileno(), struct.unpack(">Q", self._read(con.fileno(), 8))[0])
                spec, kind, mask, op, est = json.loads(req)
                try:
                    ans = pickle.dumps(("ok", core.in_child(
                        lambda: _twin_one(spec, kind, mask, op, est), 100, "twin")))
                except Exception as e:
                    ans = pickle.dumps(("exc", repr(e)))
                self._write(con.fileno(), ans)
            except (EOFError, OSError):             # whoever asked is gone
                pass
            finally:
                con.close()

    def ask(self, spec, op, mask=(), est=None, kind="cum"):
        clean = lambda x: None if x is None else {k: v for k, v in x.items()
                                                  if k not in ("int", "save", "t", "r", "out")}
        req = json.dumps([spec, kind, sorted(list(m) for m in mask), clean(op), clean(est)]).encode()
        path = os.path.join(self.dir, hashlib.blake2b(req, digest_size=16).hexdigest())
        try:
            with open(path, "rb") as f:
                return pickle.loads(f.read())
        except FileNotFoundError:
            pass
        self.asked += 1
        con = socket.socket(socket.AF_UNIX)
        con.connect(self.name)
        self._write(con.fileno(), req)
        n = struct.unpack(">Q", self._read(con.fileno(), 8))[0]
        st, val = pickle.loads(self._read(con.fileno(), n))
        con.close()
        if st != "ok":
            raise core.HarnessError("twin: " + val)
        tmp = "%s.%d" % (path, os.getpid())
        with open(tmp, "wb") as f:
            f.write(pickle.dumps(val, protocol=4))
        os.rename(tmp, path)
        return val

    def close(self):
        os.close(self.w1)
        os.waitpid(self.pid, 0)
