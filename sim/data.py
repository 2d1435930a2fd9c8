"""Triangles to work on, as explicit JSON specs."""
import numpy as np
import pandas as pd

_SAMPLES = {}


def _sample(name):
    if name not in _SAMPLES:
        import trikit
        from trikit.datasets import dataref
        with open(dataref[name]) as f:
            rows = [ln.strip().split(",") for ln in f.read().strip().splitlines()]
        h = [x.strip().strip('"') for x in rows[0]]
        k = [h.index(c) for c in ("origin", "dev", "value")]
        _SAMPLES[name] = [[int(float(r[k[0]])), int(float(r[k[1]])), float(r[k[2]])] for r in rows[1:]]
    return _SAMPLES[name]


LABELS = [(1981, 1, 1, 1), (97, 1, 1, 1), (2001, 1, 1, 1), (1990, 1, 12, 12), (2010, 1, 0, 1), (1, 1, 1, 1),
          (1995, 2, 6, 6), (2003, 1, 3, 3), (1988, 1, 2, 1), (2012, 1, 24, 24), (201901, 1, 90, 90),
          (20100101, 10000, 365, 365), (0, 1, 0, 1)]


def gen(rng, nmin=4, nmax=7, negative=.3, fields=True, sample=.1, big=True, uneven=True):
    """A spec: labels, incremental cells (upper left), field names."""
    if rng.random() < sample:
        rec = _sample(rng.choice(["raa", "ta83", "raa", "ta83", "amw09", "autoliab", "singinjury", "singproperty",
                                  "singproperty"] + ["glre"] * (nmax > 8)))
        origins = sorted({r[0] for r in rec})
        devs = sorted({r[1] for r in rec})
        d = {(r[0], r[1]): r[2] for r in rec}
        n = len(origins)
        cells = [[d[(origins[i], devs[j])] for j in range(n - i)] for i in range(n)]
    else:
        n = rng.randint(nmin, nmax)
        o0, os_, d0, ds = rng.choice(LABELS)
        origins = [o0 + os_ * i for i in range(n)]
        devs = [d0 + ds * j for j in range(n)]
        if uneven and rng.random() < .15:          # periods of different lengths, years without business
            if rng.random() < .7:
                devs = [3, 6, 12, 24, 36, 48, 60, 72, 84, 120, 180, 240][:n] if rng.random() < .4 and n <= 12 else \
                    sorted(rng.sample(range(devs[0], devs[0] + 4 * n + 8), n))
            if rng.random() < .5:
                origins = sorted(rng.sample(range(o0, o0 + 3 * n), n))
        scale = rng.choice([.5, 100., 1e3, 5e4, 3e6] if big else [1e3, 5e4])
        huge = big and rng.random() < .06          # beyond what 32 bits hold
        if huge:
            scale = rng.choice([7e9, 4e10])
        pat = [1.]
        for j in range(1, n):
            pat.append(pat[-1] * (1 + rng.uniform(.4, 1.6) / j ** 1.7))
        neg = rng.random() < negative
        whole = scale >= 100 and rng.random() < (.8 if huge else .35)
        cells = []
        for i in range(n):
            lvl = scale * rng.uniform(.5, 2.)
            row, cum = [], 0.
            for j in range(n - i):
                tgt = lvl * pat[j] * rng.uniform(.8, 1.25)
                x = tgt - cum if j == 0 else (lvl * (pat[j] - pat[j - 1])) * rng.uniform(.3, 1.9)
                if neg and j > 1 and rng.random() < .12:
                    x = -x * rng.uniform(.05, .4)
                x = float(round(x)) if whole else round(x, 2 if scale >= 100 else 5)
                row.append(x)
                cum += x
            cells.append(row)
        if n > 2 and rng.random() < .12:           # years that developed alike: equal link ratios, ties
            for _ in range(rng.choice([1, 1, 2])):
                a, b = sorted(rng.sample(range(n - 1), 2))
                k = rng.choice([1, 1, 2, .5])
                for j in range(rng.randint(2, n - b)):
                    cells[b][j] = cells[a][j] * k
        if n > 2 and rng.random() < .07:           # no development after some period
            k = rng.randint(2, n - 1)
            if rng.random() < .5:
                cells[1][:k] = cells[0][:k]
            for row in cells:
                row[k:] = [0.] * len(row[k:])
        if rng.random() < .15:                     # periods without any loss
            for _ in range(rng.choice([1, 2, 3])):
                i = rng.randrange(n - 1)
                j = rng.choice([n - 1 - i, rng.randint(1, n - 1 - i)])
                cells[i][j] = 0.
    f = ["origin", "dev", "value"]
    if fields and rng.random() < .3:
        f = rng.choice([["ay", "age", "loss"], ["year", "lag", "paid"], ["o", "d", "v"]])
    return {"origins": origins, "devs": devs, "cells": cells, "fields": f}


def sibling(rng, spec):
    """A triangle easily mistaken for another one: alike in shape, labels or amounts, but not in all."""
    s = {k: (list(v) if k != "cells" else [list(r) for r in v]) for k, v in spec.items()}
    n, x = len(s["origins"]), rng.random()
    s.pop("gaps", None)
    if x < .3:                                     # the same periods, other amounts
        for row in s["cells"]:
            row[:] = [round(v * rng.uniform(.8, 1.3), 2) for v in row]
    elif x < .5:                                   # the same amounts, but for one
        i = rng.randrange(n - 1)
        s["cells"][i][0] = round(s["cells"][i][0] * 1.25 + 1, 2)
    elif x < .75:                                  # the same amounts and first period, other development periods
        d = s["devs"]
        k = rng.choice([2, 3, 12])
        s["devs"] = [d[0] + k * (v - d[0]) for v in d]
    elif x < .9:
        o = s["origins"]
        s["origins"] = [o[0] + 2 * (v - o[0]) for v in o]
    else:
        s["fields"] = rng.choice([["origin", "dev", "value"], ["ay", "age", "loss"], ["dev", "origin", "value"]])
    return s


def records(spec, order=None):
    f = spec["fields"]
    rec = [(o, d, spec["cells"][i][j]) for i, o in enumerate(spec["origins"])
           for j, d in enumerate(spec["devs"]) if j < len(spec["cells"][i]) and [i, j] not in spec.get("gaps", [])]
    return pd.DataFrame(rec, columns=f).astype({f[0]: int, f[1]: int, f[2]: float})


def matrix(spec, cum=True):
    n = len(spec["origins"])
    M = np.full((n, n), np.nan)
    for i, row in enumerate(spec["cells"]):
        row = [0. if [i, j] in spec.get("gaps", []) else x for j, x in enumerate(row)]
        M[i, :len(row)] = np.cumsum(row) if cum else row
    return M


def build(spec, kind="cum", df=None):
    import trikit
    f = spec["fields"]
    return trikit.totri(records(spec) if df is None else df, kind, origin=f[0], dev=f[1], value=f[2])


def pool(prop, seed, size=16, **kw):
    from .core import rng_for
    return [gen(rng_for("data", prop, seed, k), **kw) for k in range(size)]
