"""Canonical, picklable form of what trikit returns, and comparison of two."""
import hashlib
import math
import numbers
import pickle

import numpy as np
import pandas as pd

RTOL, ATOL = 1e-9, 1e-9


def lab(x):
    if isinstance(x, tuple):
        return tuple(lab(y) for y in x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, numbers.Real):
        x = float(x)
        if math.isnan(x):
            return "<nan>"
        return int(x) if x == int(x) and abs(x) < 1e15 else x
    if x is None or x is pd.NaT:
        return "<nan>"
    return str(x)


def col(v):
    """A column of values: float array if numeric, else list of labels."""
    a = np.asarray(v)
    if a.dtype.kind in "fiub":
        return a.astype(float)
    try:
        return np.array([np.nan if x is None else float(x) if isinstance(x, (numbers.Real, np.generic))
                         else _no() for x in a], dtype=float)
    except (TypeError, ValueError):
        return [lab(x) for x in a]


def _no():
    raise TypeError


def names(*axes):
    return [lab(n) for a in axes for n in a.names]


def canon(x):
    if isinstance(x, pd.DataFrame):
        return ("df", [lab(i) for i in x.index], [lab(c) for c in x.columns],
                [col(x.iloc[:, k].values) for k in range(x.shape[1])], names(x.index, x.columns))
    if isinstance(x, pd.Series):
        v = x.values
        if len(v) and hasattr(v[0], "ppf"):
            with np.errstate(all="ignore"):
                return ("rvs", [lab(i) for i in x.index],
                        np.array([[r.ppf(.25), r.ppf(.5), r.ppf(.9)] for r in v], dtype=float))
        return ("s", [lab(i) for i in x.index], col(v), names(x.index) + [lab(x.name)])
    if isinstance(x, pd.Index):
        return ("s", list(range(len(x))), col(x.values))
    if isinstance(x, np.ndarray):
        return ("arr", list(x.shape), col(x.ravel()))
    if isinstance(x, (bool, np.bool_)):
        return ("v", float(x))
    if isinstance(x, numbers.Real):
        return ("v", float(x))
    if isinstance(x, str) or x is None:
        return ("v", x)
    if isinstance(x, (tuple, list)):
        return ("l", [canon(y) for y in x])
    if isinstance(x, dict):
        return ("d", {str(k): canon(v) for k, v in x.items()})
    if isinstance(x, BaseException):
        return ("raise", type(x).__name__)
    return ("?", type(x).__name__)


def close(a, b, rtol=RTOL, atol=ATOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (a == b) | \
            (np.isnan(a) & np.isnan(b))
    return bool(np.all(ok))


def _vals(a, b, where, rtol, atol):
    fa, fb = isinstance(a, np.ndarray), isinstance(b, np.ndarray)
    if len(a) != len(b):
        return "%s: %d values, expected %d" % (where, len(a), len(b))
    if fa and fb:
        if np.isposinf(b).any():                # not specified
            a = np.where(np.isposinf(b), np.inf, a)
        if close(a, b, rtol, atol):
            return None
        with np.errstate(all="ignore"):
            bad = ~((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (a == b) |
                    (np.isnan(a) & np.isnan(b)))
        k = int(np.flatnonzero(bad)[0])
        return "%s[%d]: %r, expected %r" % (where, k, float(a[k]), float(b[k]))
    la = a if not fa else [lab(x) for x in a]
    lb = b if not fb else [lab(x) for x in b]
    for k, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and close(x, y, rtol, atol):
                continue
            return "%s[%d]: %r, expected %r" % (where, k, x, y)
    return None


def diff(a, b, where="", align=False, rtol=RTOL, atol=ATOL):
    """None if a (observed) equals b (expected), else a description."""
    if a[0] != b[0]:
        return "%s: got %s, expected %s" % (where or "value", brief(a), brief(b))
    k = a[0]
    n = {"df": 4, "s": 3}.get(k)
    if n and len(a) > n and len(b) > n and a[n] != b[n]:       # what the model expects has no names
        return "%s: named %s, expected %s" % (where or "table", a[n], b[n])
    if k == "df":
        ia, ib, ca, cb = a[1], b[1], a[2], b[2]
        va, vb = a[3], b[3]
        if align and ia != ib and sorted(map(str, ia)) == sorted(map(str, ib)) and len(set(map(str, ia))) == len(ia):
            order = [ia.index(x) for x in ib]
            va = [c[order] if isinstance(c, np.ndarray) else [c[o] for o in order] for c in va]
            ia = ib
        if align and ca != cb and sorted(map(str, ca)) == sorted(map(str, cb)) and len(set(map(str, ca))) == len(ca):
            va = [va[ca.index(x)] for x in cb]
            ca = cb
        if ia != ib:
            return "%s: index %s, expected %s" % (where or "table", ia[:12], ib[:12])
        if ca != cb:
            return "%s: columns %s, expected %s" % (where or "table", ca, cb)
        for c, x, y in zip(ca, va, vb):
            r = _vals(x, y, "%s[%r]" % (where, c), rtol, atol)
            if r:
                return r
        return None
    if k == "s":
        ia, ib, va, vb = a[1], b[1], a[2], b[2]
        if align and ia != ib and sorted(map(str, ia)) == sorted(map(str, ib)) and len(set(map(str, ia))) == len(ia):
            order = [ia.index(x) for x in ib]
            va = va[order] if isinstance(va, np.ndarray) else [va[o] for o in order]
            ia = ib
        if ia != ib:
            return "%s: index %s, expected %s" % (where or "series", ia[:12], ib[:12])
        return _vals(va, vb, where, rtol, atol)
    if k == "rvs":
        if a[1] != b[1] or not close(a[2], b[2], 1e-7):
            return "%s: distributions differ" % where
        return None
    if k == "arr":
        if a[1] != b[1]:
            return "%s: shape %s, expected %s" % (where, a[1], b[1])
        return _vals(a[2], b[2], where, rtol, atol)
    if k == "v":
        x, y = a[1], b[1]
        if isinstance(x, float) and isinstance(y, float):
            return None if close(x, y, rtol, atol) else "%s: %r, expected %r" % (where or "value", x, y)
        return None if x == y else "%s: %.60r, expected %.60r" % (where or "value", x, y)
    if k == "l":
        if len(a[1]) != len(b[1]):
            return "%s: length %d, expected %d" % (where, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = diff(x, y, "%s(%d)" % (where, i), align, rtol, atol)
            if r:
                return r
        return None
    if k == "d":
        if set(a[1]) != set(b[1]):
            return "%s: has %s, expected %s" % (where, sorted(set(a[1]) - set(b[1])), sorted(set(b[1]) - set(a[1])))
        for q in sorted(b[1]):
            r = diff(a[1][q], b[1][q], "%s.%s" % (where, q) if where else q, align, rtol, atol)
            if r:
                return r
        return None
    return None if a == b else "%s: got %s, expected %s" % (where or "value", brief(a), brief(b))


def brief(c):
    if c[0] == "raise":
        return "raise %s" % c[1]
    if c[0] == "v":
        return "%.80r" % (c[1],)
    return c[0]


def digest(*cs):
    h = hashlib.blake2b(digest_size=8)

    def feed(c):
        if isinstance(c, np.ndarray):
            h.update(np.ascontiguousarray(c).tobytes())
        elif isinstance(c, (list, tuple)):
            h.update(b"[")
            for x in c:
                feed(x)
        elif isinstance(c, dict):
            for q in sorted(c):
                h.update(str(q).encode())
                feed(c[q])
        else:
            h.update(repr(c).encode())
    for c in cs:
        feed(c)
    return h.hexdigest()
