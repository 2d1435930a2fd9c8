"""Executable reference model: definitions applied to a triangle's cells (numpy only).

Written from the documentation and the literature it cites, not from trikit's code
structure.  Square triangles, n >= 4; cells[i][j] known iff i + j < n.
"""
import math

import numpy as np
from scipy.special import ndtri

NAN = float("nan")
WILD = float("inf")          # expected value: not specified


def lab(v):
    return "{:.5f}".format(v).rstrip("0").rstrip(".")


class Model:
    def __init__(self, cells, origins, devs, incr=False):
        self.C = np.asarray(cells, dtype=float)
        self.n = len(origins)
        self.origins = list(origins)
        self.devs = list(devs)
        self.incr = incr
        n = self.n
        self.W = np.array([[1 if i + j < n - 1 else 0 for j in range(n - 1)] for i in range(n - 1)])

    def copy(self):
        m = Model(self.C.copy(), self.origins, self.devs, self.incr)
        m.W = self.W.copy()
        return m

    # ------------------------------------------------------------------ views
    def table(self):
        return ("df", self.origins, self.devs, [self.C[:, j] for j in range(self.n)])

    def latest_vals(self):
        n = self.n
        return np.array([self.C[i, n - 1 - i] for i in range(n)])

    def latest(self):
        return ("df", list(range(self.n)), ["origin", "dev", "latest"],
                [np.array(self.origins, float), np.array(self.devs[::-1], float), self.latest_vals()])

    def latest_by_origin(self):
        return ("s", self.origins, self.latest_vals())

    def latest_by_devp(self):
        return ("s", self.devs, self.latest_vals()[::-1].copy())

    def devp(self):
        return ("s", list(range(self.n)), np.array(self.devs, float))

    def origins_(self):
        return ("s", list(range(self.n)), np.array(self.origins, float))

    def maturity(self):
        return ("s", self.origins, np.array(self.devs[::-1], float))

    def nbr_cells(self):
        return ("v", float((~np.isnan(self.C)).sum()))

    def triind(self):
        n = self.n
        return ("df", self.origins, self.devs,
                [np.array([0. if i + j < n else 1. for i in range(n)]) for j in range(n)])

    def rlvi(self):
        n = self.n
        return ("df", self.origins, ["dev", "col_offset"],
                [np.array(self.devs[::-1], float), np.arange(n - 1, -1, -1, dtype=float)])

    def clvi(self):
        n = self.n
        return ("df", self.devs, ["origin", "row_offset"],
                [np.array(self.origins[::-1], float), np.arange(n - 1, -1, -1, dtype=float)])

    def diagonal(self, offset=0):
        n = self.n
        rec = [(self.origins[i], self.devs[n - 1 - i + offset], self.C[i, n - 1 - i + offset])
               for i in range(n) if n - 1 - i + offset >= 0]
        return ("df", list(range(len(rec))), ["origin", "dev", "value"],
                [np.array([r[k] for r in rec], float) for k in range(3)])

    def to_tbl(self, fields, dropna=True):
        n = self.n
        rec = [(self.origins[i], self.devs[j], self.C[i, j]) for i in range(n) for j in range(n)
               if i + j < n or not dropna]
        return ("df", list(range(len(rec))), list(fields),
                [np.array([r[k] for r in rec], float) for k in range(3)])

    def incremental(self):
        I = self.C.copy()
        I[:, 1:] = self.C[:, 1:] - self.C[:, :-1]
        return I

    # -------------------------------------------------------------- residuals
    def fitted(self):
        """Fitted increments: factors applied backwards from the latest diagonal."""
        n, C, f = self.n, self.C, self.ldfs("all-weighted")
        fit = np.full((n, n), NAN)
        with np.errstate(all="ignore"):
            for i in range(n):
                j = n - 1 - i
                fit[i, j] = C[i, j]
                for k in range(j - 1, -1, -1):
                    fit[i, k] = fit[i, k + 1] / f[k]
        m = fit.copy()
        m[:, 1:] = fit[:, 1:] - fit[:, :-1]
        return m

    def unscaled(self):
        m = self.fitted()
        with np.errstate(all="ignore"):
            return np.where(m != 0, (self.incremental() - m) / np.sqrt(np.abs(m)), NAN)

    def residuals_defined(self):
        """No loss where nothing, but for rounding, is expected."""
        m, I, tiny = self.fitted(), self.incremental(), 1e-9 * np.nanmax(np.abs(self.C))
        return not ((np.abs(m) < tiny) & (np.abs(I) > tiny)).any()

    def bootable(self):
        """Are there residuals to resample?"""
        x = self.unscaled()[:-1, :-1]
        return bool(self.residuals_defined() and (np.abs(x[~np.isnan(x)]) > 1e-7).sum() > 1)

    # ------------------------------------------------------------ link ratios
    def F(self):
        n = self.n
        with np.errstate(all="ignore"):
            return np.array([[self.C[i, j + 1] / self.C[i, j] if i + j < n - 1 else NAN
                              for j in range(n - 1)] for i in range(n - 1)])

    def a2a(self):
        F = self.F()
        return ("df", self.origins[:-1], self.devs[:-1], [F[:, j] for j in range(self.n - 1)])

    def a2aind(self):
        return ("df", self.origins[:-1], self.devs[:-1], [self.W[:, j].astype(float) for j in range(self.n - 1)])

    def a2a_lvi(self):
        n = self.n
        return ("df", self.devs[:-1], ["origin", "row_offset"],
                [np.array(self.origins[:-1][::-1], float), np.arange(n - 2, -1, -1, dtype=float)])

    def _rank(self, v):
        v = np.asarray(v)
        if not np.all(self.C[~np.isnan(self.C)] % 1 == 0):     # a tie, or just a rounding error?
            g = np.sort(v)
            if (np.diff(g) <= 1e-12 * np.abs(g[1:])).any():
                return np.full(len(v), WILD)
        return np.array([(v < x).sum() + ((v == x).sum() + 1) / 2. for x in v])

    def _ranks(self):
        """[(k, s_k, r_k)] for k = 2..n-2 on the rows both have."""
        F, n = self.F(), self.n
        out = []
        for k in range(2, n - 1):
            rows = n - k                           # valid ratios in column k (1-based)
            out.append((k, self._rank(F[:rows, k - 2]), self._rank(F[:rows, k - 1])))
        return out

    def ranked_a2a(self):
        rk = self._ranks()
        m = max(len(s) for _, s, _ in rk)
        cols, vals = [], []
        for k, s, r in rk:
            for p, v in (("s", s), ("r", r)):
                cols.append("%s_%d" % (p, k))
                vals.append(np.concatenate([v, np.full(m - len(v), NAN)]))
        return ("df", self.origins[:m], cols, vals)

    def assignment(self):
        F, n = self.F(), self.n
        A = np.full((n - 1, n - 1), NAN)
        for j in range(n - 1):
            v = F[:n - 1 - j, j]
            med = np.median(v)
            for i, x in enumerate(v):
                A[i, j] = 0 if np.isclose(x, med) else (1 if x > med else -1)
        return A

    def a2a_assignment(self):
        A = self.assignment()
        return ("df", self.origins[:-1], self.devs[:-1], [A[:, j] for j in range(self.n - 1)])

    # ---------------------------------------------------------------- averages
    def exact(self):
        """Are sums of increments exact in floating point?"""
        c = self.C[~np.isnan(self.C)] * 64
        return bool((c == np.round(c)).all() and (np.abs(c) < 2 ** 52).all())

    @staticmethod
    def _near_ties(x):
        g = np.sort(x)
        return bool((np.diff(g) <= 1e-12 * np.abs(g[1:])).any())

    def average(self, kind, d, j):
        n = self.n
        m = n - 1 - j
        rows = [i for i in range(max(0, m - d) if d else 0, m) if self.W[i, j]]
        F = self.F()
        x = np.array([F[i, j] for i in rows])
        if not rows:
            return NAN
        if kind == "simple":
            return x.mean()
        if kind == "geometric":
            return math.exp(np.log(x).mean())
        if kind == "weighted":
            return sum(self.C[i, j + 1] for i in rows) / sum(self.C[i, j] for i in rows)
        if len(x) > 2 and not self.exact() and self._near_ties(x):
            return WILD                            # which ratios are smallest is a matter of rounding
        if len(set(x)) == 1:
            return x[0]
        if len(x) == 2:
            return x.mean()
        y = x[(x != x.min()) & (x != x.max())]
        return y.mean() if len(y) else NAN

    def avg_names(self):
        return [(("all-" + k) if d == 0 else "%s-%d" % (k, d), k, d)
                for k in ("simple", "geometric", "medial", "weighted")
                for d in list(range(1, self.n - 1)) + [0]]

    def a2a_avgs(self):
        names = self.avg_names()
        V = np.array([[self.average(k, d, j) for j in range(self.n - 1)] for _, k, d in names], dtype=float)
        return ("df", [x[0] for x in names], self.devs[:-1], [V[:, j] for j in range(self.n - 1)])

    def ldfs(self, sel):
        for nm, k, d in self.avg_names():
            if nm == sel:
                return np.array([self.average(k, d, j) for j in range(self.n - 1)], dtype=float)
        raise KeyError(sel)

    # -------------------------------------------------------------- estimators
    def _square(self, f, tail):
        n = self.n
        X = self.C.copy()
        for j in range(1, n):
            for i in range(n - j, n):
                X[i, j] = X[i, j - 1] * f[j - 1]
        return X, X[:, -1] * tail

    def base(self, f, tail=1.):
        n = self.n
        f = np.asarray(f, dtype=float)
        ldfs = np.append(f, tail)
        cldf = np.cumprod(ldfs[::-1])[::-1]
        lat = self.latest_vals()
        c = cldf[::-1]
        inv = np.where(np.isinf(c), WILD, 1 / c)
        ult = lat * c
        X, last = self._square(f, tail)
        res = ult - lat
        idx = self.origins + ["total"]
        t = lambda v: np.append(v, np.nansum(v))
        summ = ("df", idx, ["maturity", "cldf", "emergence", "latest", "ultimate", "reserve"],
                [[str(d) for d in self.devs[::-1]] + [""], np.append(c, NAN), np.append(inv, NAN),
                 t(lat), t(ult), t(res)])
        return {"summary": summ, "ldfs": ("s", self.devs, ldfs), "tail": ("v", float(tail)),
                "trisqrd": ("df", self.origins, self.devs + ["ultimate"], [X[:, j] for j in range(n)] + [last]),
                "cldfs": ("s", idx, np.append(c, NAN)), "emergence": ("s", idx, np.append(inv, NAN)),
                "latest": ("s", idx, t(lat)), "ultimate": ("s", idx, t(ult)), "reserve": ("s", idx, t(res))}

    def mack(self, alpha=1, dist="lognorm", q=(.75, .95), two_sided=False):
        n, W, C = self.n, self.W, self.C
        F = self.F()
        rows = [[i for i in range(n - 1 - j) if W[i, j]] for j in range(n - 1)]
        w = lambda i, j: C[i, j] ** alpha
        S = np.array([sum(w(i, j) for i in rows[j]) for j in range(n - 1)])
        f = np.array([sum(w(i, j) * F[i, j] for i in rows[j]) for j in range(n - 1)]) / S
        var = np.array([sum(w(i, j) * (F[i, j] - f[j]) ** 2 for i in rows[j]) / (n - j - 2)
                        for j in range(n - 2)])
        if max(var[-1], var[-2]) <= 1e-24 * max(S[-3:] * f[-3:] ** 2):
            return None                            # 0 / 0: the published rule for the last variance is undefined
        last = min(var[-1] ** 2 / var[-2], min(var[-1], var[-2])) if var[-2] else min(var[-1], var[-2])
        var = np.append(var, last)
        lv = var / S
        b = self.base(f, 1.)
        X, ult = self._square(f, 1.)
        pe, pa = np.zeros(n), np.zeros(n)
        for i in range(1, n):
            for j in range(n - i, n):
                c = X[i, j - 1]
                pe[i] = f[j - 1] ** 2 * pe[i] + c ** (2 - alpha) * var[j - 1]
                pa[i] = f[j - 1] ** 2 * pa[i] + c ** 2 * lv[j - 1] + lv[j - 1] * pa[i]
        mse = pe + pa
        lat = self.latest_vals()
        res = ult - lat
        tot = sum(mse[i] + 2 * ult[i] * ult[i + 1:].sum() * sum(lv[j] / f[j] ** 2 for j in range(n - 1 - i, n - 1))
                  for i in range(1, n))
        se = np.append(np.sqrt(mse), math.sqrt(tot))
        R = np.append(res, res.sum())
        with np.errstate(all="ignore"):
            cv = se / R
        cv[0] = NAN
        qs = np.atleast_1d(np.asarray(q, dtype=float))
        qs = np.unique(np.append((1 - qs) / 2, (1 + qs) / 2)) if two_sided else np.unique(qs)
        hdr = [lab(100 * x) + "%" for x in qs]
        Q = np.array([self._mack_q(dist, R, se, x) for x in qs])
        Q[:, 0] = NAN
        s = b["summary"]
        b["summary"] = ("df", s[1], s[2] + ["std_error", "cv"] + hdr, s[3] + [se, cv] + [Q[k] for k in range(len(qs))])
        t = b["trisqrd"]
        b["trisqrd"] = ("df", t[1], t[2][:-1], t[3][:-1])
        b.update(process_error=("s", self.origins, pe), parameter_error=("s", self.origins, pa),
                 devpvar=("s", self.devs[:-1], var), ldfvar=("s", self.devs[:-1], lv),
                 std_error=("s", s[1], se), cv=("s", s[1], cv), mse=("s", s[1], se ** 2),
                 alpha=("v", float(alpha)), dist=("v", dist))
        self._R, self._se = R, se
        return b

    @staticmethod
    def _mack_q(dist, R, se, x):
        z = ndtri(x)
        with np.errstate(all="ignore"):
            if dist == "norm":
                Q = R + z * se
            else:
                sg = np.sqrt(np.log(1 + (se / R) ** 2))
                Q = np.exp(np.log(R) - sg ** 2 / 2 + sg * z)
            # Degenerate distributions (nothing outstanding, no variance): anything goes. No lognormal has a
            # negative mean.
            ok = (se > 1e-9 * np.abs(R)) & (np.abs(R) > 1)
            if dist != "norm":
                Q = np.where(R < 0, NAN, Q)
            return np.where(ok, Q, WILD)

    def mack_quantiles(self, mk_args, q):
        """get_quantiles on a Mack result."""
        if self.mack(**mk_args) is None:
            return None
        qs = np.unique(np.atleast_1d(np.asarray(q, dtype=float)))
        Q = [self._mack_q(mk_args.get("dist", "lognorm"), self._R, self._se, x) for x in qs]
        return ("df", self.origins + ["total"], [suffixed(x) for x in qs], Q)

    # ------------------------------------------------------- statistical tests
    def devp_corr(self, p):
        n = self.n
        num = den = 0.
        for k, s, r in self._ranks():
            m = n - k
            T = 1 - 6 * ((r - s) ** 2).sum() / (m ** 3 - m)
            num += (n - k - 1) * T
            den += (n - k - 1)
        if np.isnan(num) or np.isinf(num):
            return None
        half = ndtri((1 + p) / 2) / math.sqrt((n - 2) * (n - 3) / 2)
        return ("l", [("l", [("v", -half), ("v", half)]), ("v", num / den)])

    def cy_effects(self, p):
        n, A = self.n, self.assignment()
        Z = mu = v = 0.
        for d in range(1, n - 1):                  # diagonals with at least two ratios
            vals = [A[i, d - i] for i in range(d + 1)]
            S, L = vals.count(-1), vals.count(1)
            z, m = min(S, L), S + L
            fl = math.floor((m - 1) / 2)
            c = math.comb(m - 1, fl) if m >= 1 else 0
            ez = m / 2 - c * m / 2 ** m
            vz = m * (m - 1) / 4 - c * m * (m - 1) / 2 ** m + ez - ez ** 2
            Z, mu, v = Z + z, mu + ez, v + vz
        k = abs(ndtri(p / 2))
        return ("l", [("l", [("v", mu - k * math.sqrt(v)), ("v", mu + k * math.sqrt(v))]), ("v", Z)])


def suffixed(x):
    s = lab(100 * x)
    suf = {"1": "st", "2": "nd", "3": "rd"}
    return s + ("th" if "." in s else suf.get(s[-1], "th"))
