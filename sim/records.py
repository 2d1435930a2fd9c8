"""What a triangle built from delivered records has to look like (plain Python)."""
import csv
import math

import numpy as np


def parse(path, fields=("origin", "dev", "value")):
    """Records of a comma separated file, read with nothing of the code under test."""
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    k = [rows[0].index(c) for c in fields]
    return [[int(r[k[0]]), int(r[k[1]]), float(r[k[2]])] for r in rows[1:] if r]


def table(recs, fields=("origin", "dev", "value")):
    """Canonical table holding the records in order."""
    cols = list(zip(*recs)) if recs else [[], [], []]
    return ("df", list(range(len(recs))), list(fields), [np.array(c, dtype=float) for c in cols])


def triangle(recs, kind, fmt="incr", fields=("origin", "dev", "value")):
    """Canonical triangle formed by records (origin, dev, amount or None), in whatever order."""
    cell = {}
    origins, devs = set(), set()
    for o, d, v in recs:
        if v is None or math.isnan(v):
            continue
        cell.setdefault((o, d), []).append(v)
    for o, d, v in recs:
        if fmt == "cum" and (o, d) not in cell:
            continue
        origins.add(o)
        devs.add(d)
    O, D = sorted(origins), sorted(devs)
    amt = {k: math.fsum(v) for k, v in cell.items()}
    M = np.full((len(O), len(D)), np.nan)
    for i, o in enumerate(O):
        run, prev = 0., 0.
        for j, d in enumerate(D):
            if (o, d) not in amt:
                continue
            x = amt[(o, d)]
            if fmt == "cum":
                inc, prev = x - prev, x
            else:
                inc = x
            run += inc
            M[i, j] = run if kind == "cum" else inc
            if j == 0 and M[i, j] <= 0:
                M[i, j] = 1.
    if kind == "cum":
        last = [max([i for i in range(len(O)) if not math.isnan(M[i, j])], default=-1) for j in range(len(D))]
        for i in range(len(O)):
            if math.isnan(M[i, 0]):
                M[i, 0] = 1.
            for j in range(1, len(D)):
                if math.isnan(M[i, j]) and i <= last[j]:
                    M[i, j] = M[i, j - 1]
    return ("d", {"type": ("v", "CumTriangle" if kind == "cum" else "IncrTriangle"),
                  "fields": ("l", [("v", f) for f in fields]),
                  "cells": ("df", O, D, [M[:, j] for j in range(len(D))])})
