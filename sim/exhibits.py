"""Sessions in which exhibits are drawn, to disk or to the screen, while the disk or the caller misbehaves."""
import io
import os
import re

import numpy as np

from . import canon as cn
from . import core, data, seams, session
from .core import HarnessError, Violation

FS = seams.FS
CUR = [None]                                  # the exhibit call that is being watched


def install():
    """Look over matplotlib's shoulder: which figure is written or shown, and what it looks like."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import seaborn.axisgrid
    from matplotlib.backend_bases import FigureCanvasBase
    if getattr(plt.show, "_sim", False):
        return
    os.environ["SOURCE_DATE_EPOCH"] = "0"
    matplotlib.rcParams["svg.hashsalt"] = "sim"
    matplotlib.rcParams["savefig.dpi"] = 40
    real = FigureCanvasBase.print_figure

    def print_figure(self, filename, *a, **k):
        out = real(self, filename, *a, **k)
        c = CUR[0]
        if c is not None:
            CUR[0] = None
            armed, FS.armed = FS.armed, False
            hook, seams.S.hook = seams.S.hook, None
            try:
                fmt = k.get("format") or (os.path.splitext(os.fspath(filename))[1][1:]
                                          if isinstance(filename, (str, os.PathLike)) else None)
                b = io.BytesIO()
                real(self, b, *a, **dict(k, format=fmt))
                c["renders"].append(b.getvalue())
                c["panels"] = panels(self.figure)
            finally:
                FS.armed, seams.S.hook, CUR[0] = armed, hook, c
        return out

    def show(*a, **k):
        c = CUR[0]
        if c is not None:
            c["shown"] += 1
            c["panels"] = panels(plt.gcf())
    show._sim = True
    FigureCanvasBase.print_figure = print_figure
    # Spacing of the panels costs half the time and is not looked at.
    seaborn.axisgrid.Grid.tight_layout = lambda self, *a, **k: self
    plt.show = show


def panels(fig):
    """What can be read off each panel of a figure."""
    out = []
    for ax in fig.axes:
        out.append({"title": ax.get_title(), "texts": [t.get_text() for t in ax.texts],
                    "lines": [(str(ln.get_label()), np.array(ln.get_xdata(), dtype=object),
                               np.array(ln.get_ydata(), dtype=float)) for ln in ax.lines],
                    "bars": [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches
                             if hasattr(p, "get_height")],
                    "visible": ax.get_visible()})
    return out


def pts(x, y):
    return sorted((float(a), float(b)) for a, b in zip(x, y) if not np.isnan(b))


def same(a, b):
    return len(a) == len(b) and all(abs(p[0] - q[0]) <= 1e-9 * max(1, abs(q[0])) and
                                    abs(p[1] - q[1]) <= 1e-7 * max(1., abs(q[1])) for p, q in zip(a, b))


def vlines(p):
    return [float(x[0]) for _, x, y in p["lines"] if len(x) == 2 and x[0] == x[1]]


class Bad(Exception):
    pass


def by_label(ps, labels, exact=False):
    """Panels by the origin written on them."""
    out = {}
    for p in ps:
        for lb in labels:
            if lb in p["texts"] or p["title"] == lb:
                if lb in out:
                    raise Bad("two panels for %s" % lb)
                out[lb] = p
    miss = [lb for lb in labels if lb not in out]
    if miss:
        raise Bad("no panel for %s" % miss)
    return out


def line(p, label, want, where):
    got = [pts(x, y) for lb, x, y in p["lines"] if lb == label]
    got = [g for g in got if g] or got
    want = [w for w in want if not np.isnan(w[1])]      # undefined estimates aren't drawn
    if not want and not got:
        return
    if len(got) != 1:
        raise Bad("panel %s has %d lines labelled %s (of %s)" % (where, len(got), label,
                                                                 [ln[0] for ln in p["lines"]]))
    if not same(got[0], sorted(want)):
        raise Bad("panel %s shows %s %s, expected %s" % (where, label, got[0], sorted(want)))


def percent(label):
    """The percentage a line is labelled with: 97.5% or 97.5th."""
    m = re.match(r"^([0-9.]+)(%|th|st|nd|rd)$", label)
    return round(float(m.group(1)), 4) if m else None


def verify(op, ps, spec, r):
    """Does a drawn exhibit show the losses of the triangle and the estimates of the result?"""
    kind = op["kind"]
    O, D = spec["origins"], spec["devs"]
    n = len(O)
    ultx = D[-1] + 2 * (D[1] - D[0]) if kind == "plot" else None
    C = data.matrix(spec)
    if op.get("incr"):
        C = data.matrix(spec, False)
    act = {O[i]: [(D[j], C[i, j]) for j in range(n - i)] for i in range(n)}
    if kind in ("combined", "faceted"):
        if kind == "combined":
            for o in O:
                line(ps[0], str(o), act[o], "the triangle")
            return
        P = by_label(ps, [str(o) for o in O])
        for o in O:
            got = [pts(x, y) for _, x, y in P[str(o)]["lines"]]
            got = [g for g in got if g]
            if len(got) != 1 or not same(got[0], act[o]):
                raise Bad("panel %s shows %s, expected %s" % (o, got, act[o]))
        return
    est = r["est"]
    R = r["obj"]
    if kind == "plot" and est["op"] in ("base", "boot"):
        T = R.trisqrd
        labels = [str(o) for o in O] + (["total"] if est["op"] == "base" else [])
        P = by_label(ps, labels)
        extra = {}
        if est["op"] == "boot":
            q = op.get("kw", {}).get("q", .90)
            s = R.sims_data[["origin", "dev", "ultimate"]]
            for x in sorted({(1 - q) / 2, (1 + q) / 2}):
                extra[round(100 * x, 4)] = x
        for i, o in enumerate(O):
            p = P[str(o)]
            fc = [(D[j], float(T.loc[o, D[j]])) for j in range(n - 1 - i, n)]
            fc[0] = (D[n - 1 - i], C[i, n - 1 - i])
            ult = [pt for pt in pts(*[z for lb, x, y in p["lines"] if lb == "forecast" for z in (x, y)][:2])
                   if pt[0] > D[-1]]
            want = float(T.loc[o, "ultimate"])
            if len(ult) != np.isfinite(want):      # a factor may be undefined, then so is the estimate
                raise Bad("panel %s shows %d ultimates" % (o, len(ult)))
            line(p, "forecast", fc + ([(ult[0][0], want)] if ult else []), o)
            line(p, "actual", act[o], o)
            for lb, x in extra.items():
                want = [(D[n - 1 - i], C[i, n - 1 - i])]
                for j in range(n - i, n):
                    v = s[(s["origin"] == o) & (s["dev"] == D[j])]["ultimate"].values
                    want.append((D[j], float(np.quantile(v, x))))
                v = s[(s["origin"] == o) & (s["dev"] == s["dev"].max())]["ultimate"].values
                want.append((ult[0][0], float(np.quantile(v, x))))
                names = {z[0] for z in p["lines"] if percent(z[0]) == lb}
                if len(names) != 1:
                    raise Bad("panel %s has no line for %s%% (lines %s)" % (o, lb, [z[0] for z in p["lines"]]))
                line(p, names.pop(), want, o)
        if est["op"] == "base":
            tot = [pts(x, y) for lb, x, y in P["total"]["lines"] if lb == "forecast"]
            want = float(R.summary.loc["total", "ultimate"])
            if not tot or not tot[0] or abs(tot[0][-1][1] - want) > 1e-7 * max(1, abs(want)):
                raise Bad("the total panel shows ultimate %s, expected %s" % (tot and tot[0][-1:], want))
    elif kind == "hist":
        P = by_label(ps, [str(o) for o in O] + ["total"])
        for o in O + ["total"]:
            v = R.reserve_dist[R.reserve_dist["origin"] == o]["reserve"].values.astype(float)
            p = P[str(o)]
            h, e = np.histogram(v, bins=op.get("kw", {}).get("bins", 20))
            got = [b[2] for b in p["bars"]]
            if len(v) != est["sims"] or len(got) != len(h) or not np.allclose(got, h) or \
                    not np.allclose([b[0] for b in p["bars"]], e[:-1], rtol=1e-9, atol=1e-9 * max(1, abs(e).max())):
                raise Bad("panel %s shows bars %s, expected %s" % (o, got, list(h)))
            m = max(0., float(np.median(v)))
            if not any(abs(x - m) <= 1e-7 * max(1, abs(m)) for x in vlines(p)):
                raise Bad("panel %s marks %s, median is %s" % (o, vlines(p), m))
    elif kind == "plot":
        q = op.get("kw", {}).get("q", .95)
        drawn = [o for o in O[1:] + ["total"] if np.isfinite(R.rvs[o].ppf(.5))]      # a distribution exists
        P = by_label(ps, [str(o) for o in drawn])
        for o in drawn:
            p, rv = P[str(o)], R.rvs[o]
            mean = float(R.summary.loc[o, "reserve"])
            want = [mean] + [float(rv.ppf(x)) for x in (q if isinstance(q, list) else [q])]
            got = vlines(p)
            for w in want:
                if not any(abs(g - w) <= 1e-6 * max(1, abs(w)) for g in got):
                    raise Bad("panel %s marks %s, expected %s" % (o, got, want))
            dens = [(np.array(x, float), y) for _, x, y in p["lines"] if len(x) > 2]
            if len(dens) != 1 or not np.allclose(dens[0][1], rv.pdf(dens[0][0]), rtol=1e-7) or \
                    dens[0][0][0] > rv.ppf(.02) or dens[0][0][-1] < rv.ppf(.98):
                raise Bad("panel %s does not show the density of the reserve" % o)
    elif kind == "diagnostics":
        tot = float(R.summary.loc["total", "reserve"])
        if not any(abs(x - tot) <= 1e-7 * max(1, abs(tot)) for p in ps for x in vlines(p)):
            raise Bad("no panel marks the total reserve %s" % tot)
        T = R.trisqrd
        for o in O:
            cand = [(p, x, y) for p in ps for lb, x, y in p["lines"] if lb == str(o)]
            if len(cand) != 1:
                raise Bad("%d development lines for %s" % (len(cand), o))
            _, x, y = cand[0]
            if list(x) != D or not np.allclose(y, T.loc[o, D].values.astype(float), rtol=1e-9):
                raise Bad("development of %s shown as %s, expected %s" % (o, list(y), list(T.loc[o])))
    else:
        raise HarnessError("exhibit %s" % kind)


def whole(path, fmt):
    """Is the file a complete image of its format?"""
    with open(path, "rb") as f:
        b = f.read()
    if fmt == "png":
        import zlib
        if b[:8] != b"\x89PNG\r\n\x1a\n":
            return "not a PNG file (%d bytes)" % len(b)
        k, last = 8, None
        while k < len(b):
            n = int.from_bytes(b[k:k + 4], "big")
            if len(b) < k + 12 + n:
                return "PNG cut off after %d bytes" % len(b)
            if zlib.crc32(b[k + 4:k + 8 + n]) != int.from_bytes(b[k + 8 + n:k + 12 + n], "big"):
                return "damaged PNG chunk at byte %d" % k
            last, k = b[k + 4:k + 8], k + 12 + n
        return None if last == b"IEND" else "PNG without end"
    if fmt == "pdf":
        t = b.rstrip().split(b"\n")
        if b[:5] != b"%PDF-" or t[-1] != b"%%EOF" or t[-3] != b"startxref" or b[int(t[-2]):int(t[-2]) + 4] != b"xref":
            return "incomplete PDF (%d bytes)" % len(b)
        return None
    if fmt == "svg":
        import xml.etree.ElementTree as ET
        try:
            ET.fromstring(b)
        except ET.ParseError as e:
            return "SVG does not parse: %s" % e
    return None


class Exhibits(session.Session):
    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        self.dir = os.path.join(ctx.scratch, "ex-%d" % os.getpid())
        os.makedirs(os.path.join(self.dir, "out"), exist_ok=True)
        os.chdir(self.dir)                          # of this run's own process
        self.folder = os.getcwd()
        self.stats.update(exhibits=0, written=0, failed=0, shown=0)
        self.nfile = 0

    def one(self, op, it=None):
        if op["op"] != "exhibit":
            return super().one(op, it)
        tgt = self.target(op)
        if tgt is None:
            return None
        import matplotlib.pyplot as plt
        if op.get("close"):
            plt.close("all")
        R, t = (tgt, None) if "r" in op else (None, tgt)
        kind, kw, path = op["kind"], dict(op.get("kw", {})), None
        if op.get("fmt"):
            name = "%s.%s" % (op.get("file", "exhibit"), op["fmt"])
            path = os.path.join(self.dir, *([] if op.get("rel") else ["out"]) + [name])
            if op.get("old"):
                with open(path, "wb") as f:
                    f.write(b"an older and much longer exhibit " * 40000)
            kw["exhibit_path"] = name if op.get("rel") else path
        c = {"renders": [], "panels": None, "shown": 0}
        seams.FS_BUFFER[0] = op.get("buf", 8192)
        FS.live.clear()
        FS.fds.clear()
        FS.arm([self.dir], op.get("faults", []))
        CUR[0] = c
        exc = None
        try:
            if kind in ("plot", "hist"):
                getattr(R["obj"], kind)(**kw)
            elif kind == "diagnostics":
                R["obj"].diagnostics()
            else:
                t.plot(display=kind)
            obs = ("v", "None")
        except (core.SimAbort, core.SimDeadlock, HarnessError):
            raise
        except BaseException as e:
            exc, obs = e, ("raise", type(e).__name__, str(e)[:200])
        finally:
            CUR[0] = None
            FS.disarm()
        return {"op": op, "tid": R["tid"] if R else op.get("t", "A"), "it": it, "obs": obs, "exc": exc, "c": c,
                "path": path, "R": R, "fired": list(FS.fired)}

    def judge(self, ob, mode):
        if ob is None or ob["op"]["op"] != "exhibit":
            return super().judge(ob, mode)
        op, obs, it, c = ob["op"], ob["obs"], ob["it"], ob["c"]
        self.stats["ops"] += 1
        self.stats["exhibits"] += 1
        cut = it is not None and it.fired is not None
        if cut:
            self.stats["interrupts"] += 1
            k = "%s in exhibit" % it.kind
            self.kindstats[k] = self.kindstats.get(k, 0) + 1
        for k in ob["fired"]:
            k = "disk " + k
            self.kindstats[k] = self.kindstats.get(k, 0) + 1
        self.log.append(("exhibit", obs[:2], cn.digest([len(x) for x in c["renders"]])))
        name = session.desc({k: v for k, v in op.items() if k not in ("faults", "buf")}) + (
            " under %s" % [(f["op"], f["at"], f["kind"]) for f in op["faults"]] if op.get("faults") else "")
        if obs[0] == "raise":
            self.stats["failed"] += 1
            if not cut and not ob["fired"]:
                raise Violation("error:exhibit", "%s raised %s: %s" % (name, obs[1], obs[2]))
        else:
            if ob["path"]:
                bad = None
                if not os.path.exists(ob["path"]):
                    bad = "nothing was written"
                else:
                    with open(ob["path"], "rb") as f:
                        b = f.read()
                    bad = whole(ob["path"], op["fmt"])
                    if not bad and c["renders"] and b not in c["renders"]:
                        bad = "the file (%d bytes) is not the exhibit drawn (%s bytes)" % (
                            len(b), [len(x) for x in c["renders"]])
                if bad:
                    raise Violation("torn:exhibit", "%s returned normally, but %s" % (name, bad))
                self.stats["written"] += 1
            else:
                if not c["shown"]:
                    raise Violation("missing:exhibit", "%s returned without showing anything" % name)
                self.stats["shown"] += 1
            ps = c["panels"]
            if ps is None:
                import matplotlib.pyplot as plt
                ps = panels(plt.gcf())
            try:
                verify(dict(op, incr=self.kinds.get(ob["tid"]) == "incr"), ps, self.sp(ob["tid"]), ob["R"])
            except Bad as e:
                raise Violation("wrong:exhibit", "%s: %s" % (name, e))
            self.stats["checked"] += 1
        # After a failure matplotlib's own writers may keep their file until the figure goes; trikit may not.
        left = FS.open_handles(by_trikit=obs[0] == "raise")
        ob["exc"] = None
        if left:
            raise Violation("leak:exhibit", "%s left %s open" % (name, [os.path.basename(str(x)) for x in left]))
        if cut:
            self.here("after " + name)
        else:
            self.unchanged("after " + name)

    def run(self):
        try:
            super().run()
        finally:
            import shutil
            shutil.rmtree(self.dir, ignore_errors=True)


def run(plan, ctx):
    s = Exhibits(plan, ctx)
    v = None
    try:
        s.run()
    except Violation as e:
        v = {"cls": e.cls, "detail": e.detail}
    return session.report(s, plan, v)


def faults(rng):
    """A disk that misbehaves while an exhibit is written."""
    out = []
    k = rng.choice(["open", "write", "write", "write", "full", "full", "slow", "slow+", "close"])
    at = lambda: int(10 ** rng.uniform(0, 2.2)) - 1
    if k == "open":
        out.append({"op": "open", "at": 0, "kind": rng.choice(
            ["ENOSPC", "EACCES", "EROFS", "EMFILE", "ENOENT", "EIO", "MemoryError", "KeyboardInterrupt"])})
    if k.startswith("slow"):
        out.append({"op": "write", "at": 0, "kind": "short", "n": rng.choice([1, 7, 60, 200, 1000]), "sticky": True})
        if rng.random() < .4:
            out[0].update(sticky=False, at=at())
    if k in ("write", "slow+"):
        for _ in range(rng.choice([1, 1, 2])):
            out.insert(0, {"op": "write", "at": at(), "n": rng.choice([0, 1, 30, 500]), "kind": rng.choice(
                ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "torn", "torn", "EINTR", "EINTR", "MemoryError",
                 "KeyboardInterrupt"])})
    if k == "full":
        a = at()
        out.append({"op": "write", "at": a, "kind": "torn", "n": rng.choice([0, 3, 100])})
        out.append({"op": "write", "at": a + 1, "kind": "ENOSPC", "sticky": True})
    if k == "close" or rng.random() < .1:
        out.append({"op": "close", "at": 0, "kind": rng.choice(["EIO", "ENOSPC", "EDQUOT"])})
    if rng.random() < .1:
        out.append({"op": "rename", "at": 0, "kind": rng.choice(["EIO", "EXDEV", "ENOSPC"])})
    return out
