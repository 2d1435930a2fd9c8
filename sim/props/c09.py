from .. import loads
from . import common as cm

RUNS = 1300
REAL = ", database files on disk and pandas' reader down to the raw read"
STUB = ("thread scheduling, locks created by trikit, signal delivery, open/read/close of the database files, the content "
        "of the database (the real one isn't in the repository)")
RULE = ("a case is a history of 6-16 queries on one or two generated databases, some replaced in between, under faults "
        "of the disk, interruptions, concurrent queries and caller edits; non-trivial if at least one fault fired, an "
        "edit took effect or queries ran concurrently")
LOBS = ["comauto", "ppauto", "wkcomp", "medmal", "prodliab", "othliab"]
NAMES = ["Allstate Ins Co Grp", "ACME, Inc.", "State Farm", 'The "Best" Co', "Mutual of X ", "Co 7", "United", "Nat'l Gen"]


def pool(seed):
    return None


def database(rng):
    """Blocks of records of companies in lines of business, in any order."""
    rows, blocks = [], []
    lobs = rng.sample(LOBS, rng.randint(1, 4))
    if rng.random() < .7 and "comauto" not in lobs:
        lobs[0] = "comauto"
    comp = []
    for nm in rng.sample(NAMES, rng.randint(1, 5)):
        comp.append((rng.choice([1767, 1767, 86, 337, 353, 9999, 10022]), nm))
    if rng.random() < .3:
        comp.append((comp[0][0], rng.choice(NAMES)))               # one code, two names
    if rng.random() < .3:
        comp.append((rng.choice([1767, 4]), comp[0][1]))           # one name, two codes
    if rng.random() < .35:                                         # a name that resembles another one
        nm = comp[0][1]
        comp.append((rng.choice([comp[0][0], 353, 8, 17670]), rng.choice([nm + " Mut", nm.upper(), nm.split()[0], "The " + nm])))
    side = cm.side(rng)
    if side.random() < .12:                                        # names that differ in blanks only
        nm = comp[0][1]
        comp.append((side.choice([comp[0][0], 353, 8]), side.choice([nm + " ", " " + nm, nm.replace(" ", "  ")])))
    if side.random() < .1:                                         # unusual codes
        comp = [(side.choice([0, 0, 1, 2 ** 31 + 5]) if c == comp[-1][0] else c, nm) for c, nm in comp]
    comp = sorted(set(comp))
    n = rng.choice([3, 4, 4, 6])
    scale = rng.choice([1, 1, 1, 10007, 300007, 1600033])           # from thousands to beyond 32 bits
    o0 = rng.choice([1988, 2001])
    for lob in lobs:
        for c in comp:
            if len(comp) > 1 and rng.random() < .3:
                continue
            k, full = rng.choice([n, n, n, n - 1]), rng.random() < .9
            blk = []
            for i in range(k):
                for j in range(k if full else k - i):
                    a, b = rng.randint(1, 5000), rng.randint(1, 5000)
                    if j > 0 and rng.random() < .1:
                        a, b = -a // 10, 0
                    a, b = a * scale, b * scale
                    if rng.random() < .3:
                        a, b = a + .5, b + .25
                    blk.append([lob, c[0], c[1], o0 + i, 1 + j, a, b, 1 if i + j < k else 0])
            blocks.append(blk)
    if rng.random() < .4:
        rng.shuffle(blocks)
    rows = [r for b in blocks for r in b]
    if rng.random() < .4:
        rng.shuffle(rows)
    if not rows:
        return database(rng)
    return rows


def select(rng, rows):
    """A selection, mostly one that matches something."""
    r = rng.choice(rows)
    kw = {}
    x = rng.random()
    if x < .8 or r[0] != "comauto":
        kw["lob"] = r[0] if x < .55 else None
        if x > .77:
            kw["lob"] = rng.choice(LOBS)
    x = rng.random()
    if x < .85 or r[1] != 1767:
        kw["grcode"] = r[1] if x < .5 else None
        if x > .8:
            kw["grcode"] = rng.choice(rows)[1]
    x = rng.random()
    if x < .6:
        kw["grname"] = r[2] if x < .3 else None if x < .5 else rng.choice(rows)[2]
    if rng.random() < .6:
        kw["loss_type"] = rng.choice(["paid", "incurred", "p", "i", "paid"])
    if rng.random() < .6:
        kw["train_only"] = rng.random() < .4
    return kw


def query(rng, k, dbs):
    db = rng.choice(sorted(dbs))
    x = rng.random()
    op = {"op": "lobs" if x < .1 else "specs" if x < .25 else "lrdb", "db": db}
    if op["op"] == "lrdb":
        op["kw"] = select(rng, dbs[db])
        if rng.random() < .45:
            op["tri"] = rng.choice(["cum", "incr"])
    if rng.random() < .7:
        op["out"] = "q%02d" % k
    return op


def gen(rng, i, tier, pool):
    dbs, phases, outs, k = {}, [], [], 0
    first = []
    for d in range(rng.choice([1, 1, 2])):
        dbs[d] = database(rng)
        first.append({"op": "newdb", "db": d, "rows": dbs[d]})
    phases.append({"mode": "seq", "ops": first})
    for p in range(rng.choice([1, 2, 3])):
        if rng.random() < .3:
            ths = []
            for _ in range(rng.choice([2, 2, 3])):
                ths.append([])
                for _o in range(rng.randint(1, 2)):
                    k += 1
                    ths[-1].append(query(rng, k, dbs))
            ph = cm.par_phase(rng, ths)
            ph.pop("fine", None)
            if rng.random() < .3:
                ths[0][-1].update(cm.interrupt_at(rng))
            if rng.random() < .5:
                ph["faults"] = loads.faults(rng)
            ph["buf"] = rng.choice([512, 8192])
            outs += [o["out"] for th in ths for o in th if o.get("out")]
            phases.append(ph)
            continue
        ops = []
        for _ in range(rng.randint(3, 8)):
            k += 1
            x = rng.random()
            if outs and x < .12:
                ops.append({"op": "scribble", "of": outs.pop(rng.randrange(len(outs))), "how": rng.randrange(6)})
                continue
            if x < .2:
                d = rng.choice(sorted(dbs))
                y = rng.random()
                if y < .5:                         # an amount or a portion is corrected
                    rows = [list(r) for r in dbs[d]]
                    for _c in range(rng.randint(1, 3)):
                        r = rng.choice(rows)
                        if rng.random() < .6:
                            r[5], r[6] = r[6], r[5]
                        else:
                            r[7] = 1 - r[7]
                    dbs[d] = rows
                elif y < .7:
                    dbs[d] = dbs[d][::-1]
                else:
                    dbs[d] = database(rng)
                ops.append({"op": "newdb", "db": d, "rows": dbs[d]})
                continue
            op = query(rng, k, dbs)
            x = rng.random()
            if x < .4:
                op["faults"] = loads.faults(rng)
                op["buf"] = rng.choice([512, 8192])
            elif x < .6:
                op.update(cm.interrupt(rng))
            ops.append(op)
            if op.get("out"):
                outs.append(op["out"])
            if x < .6 and rng.random() < .6:
                ops.append({q: v for q, v in op.items() if q in ("op", "db", "kw", "tri")})
        phases.append({"mode": "seq", "ops": ops})
    phases.append({"mode": "seq", "ops": [q for d in sorted(dbs) for q in (
        {"op": "lobs", "db": d}, {"op": "specs", "db": d}, {"op": "lrdb", "db": d, "kw": select(rng, dbs[d]), "tri": "cum"},
        {"op": "lrdb", "db": d, "kw": {"lob": None, "grcode": None, "train_only": False}})]})
    return {"phases": phases}


run = loads.run
