import numpy as np
from scipy import stats

from .. import canon as cn
from .. import core, data, model, rngs, world
from . import common as cm

RUNS = 700
RULE = ("a case is one or two bootstraps of a triangle by a generator that follows a script (resampling always the largest, "
        "smallest, alternating, ... residual; process noise zero, huge, mixed, ... or genuine), every simulation of which is "
        "checked cell by cell; non-trivial if part of the draws was scripted, or the triangle has negative increments, "
        "exclusions or labels other than 1, 2, ...")
STUB = "the random generator: a RandomState following a script"


def pool(seed):
    return data.pool("C06", seed, 40, nmax=9, negative=.5)


def gen(rng, i, tier, pool):
    spec = cm.spec(rng, pool, tier, .6, nmax=10, negative=.5, large=.03)
    mask, muts = set(), []
    if rng.random() < .2:
        muts = [cm.gen_mut(rng, spec, mask) for _ in range(rng.randint(1, 3))]
    steps = []
    for _ in range(rng.choice([1, 1, 2])):
        op = world.gen_boot(rng, spec, sims=(1, 30))
        op.update(rs="script", pick=rng.choice(rngs.PICKS), noise=rng.choice(rngs.NOISES), sims=rng.choice([1, 2, 7, op["sims"]]))
        if rng.random() < .2:
            op.update(sims=rng.randint(150, 400), noise="real")
        op.update(two_sided=False, q=[.5])
        if rng.random() < .15:
            steps.append(dict(op, **cm.interrupt_at(rng)))
        steps.append(op)
    if i % 400 == 9:                               # as many simulations as for a published study
        spec, muts, mask = data.gen(rng, nmin=4, nmax=4, negative=.5, sample=0), [], set()
        steps = [dict(steps[-1], sims=66000, noise="real", q=[.5])]
    return {"spec": spec, "mask": sorted(map(list, mask)), "steps": steps}


def bad(cls, fmt, *a):
    raise core.Violation(cls, fmt % a)


def near(a, b, scale=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        return (np.isfinite(a) | ~np.isfinite(b)) & (np.abs(a - b) <= 1e-7 * np.maximum(np.abs(a), np.abs(b)) + 1e-7 + 1e-9 * scale) | (np.isnan(a) & np.isnan(b))


def where(ok, *labels):
    k = tuple(int(x[0]) for x in np.nonzero(~ok))
    return "sim %d, %s/%s" % (k[0], labels[0][k[1]], labels[1][k[2]] if len(k) > 2 else "")


def check(r, spec, mask, op, stat, rs):
    n = len(spec["origins"])
    O, D = spec["origins"], spec["devs"]
    C = data.matrix(spec, True)
    M = model.Model(C, O, D)
    for i, j in mask:
        M.W[i, j] = 0
    up = np.array([[i + j < n for j in range(n)] for i in range(n)])
    m = M.fitted()
    us = M.unscaled()
    dof = float(r.dof)
    phi = float(np.nansum(us ** 2) / dof)
    if not M.residuals_defined():
        stat["without residuals"] = stat.get("without residuals", 0) + 1
        return "-"
    if not near(r.scale_param, phi):
        bad("scale", "scale parameter %r, from the residuals %r", r.scale_param, phi)
    adj = np.sqrt(M.nbr_cells()[1] / dof) * us
    m0 = m.copy()
    m0[:, 0] = np.where(m0[:, 0] < 0, 1., m0[:, 0])
    # the simulations
    S = op["sims"]
    df = r.sims_data
    if len(df) != S * n * n:
        bad("sims", "%d rows of simulated cells, asked for %d simulations of %d", len(df), S, n * n)
    oi, di = {o: k for k, o in enumerate(O)}, {d: k for k, d in enumerate(D)}
    try:
        a = df["origin"].map(oi).values.astype(int)
        b = df["dev"].map(di).values.astype(int)
    except (ValueError, KeyError):
        bad("sims", "simulated cells are labelled %s x %s", sorted(set(df["origin"]))[:4], sorted(set(df["dev"]))[:4])
    sims = sorted(set(df["sim"]))
    if len(sims) != S:
        bad("sims", "%d distinct simulations, asked for %d", len(sims), S)
    s = df["sim"].map({x: k for k, x in enumerate(sims)}).values

    def cube(name):
        x = np.full((S, n, n), np.inf)
        x[s, a, b] = df[name].values
        return x
    key = np.zeros((S, n, n), int)
    np.add.at(key, (s, a, b), 1)
    if (key != 1).any():
        bad("sims", "%s appears %d times", where(key == 1, O, D), key[key != 1][0])
    act = np.zeros((S, n, n), bool)
    act[s, a, b] = (df["rectype"] == "actual").values
    if (act != up).any():
        bad("cells", "%s is marked actual: %s", where(act == up, O, D), act[act != up][0])
    inc, res, cum = cube("samp_incr"), cube("resid"), cube("samp_cum")
    # actual cells
    U = np.broadcast_to(up, inc.shape)
    exp = m0 + res * np.sqrt(np.abs(m0))
    sc = np.nanmax(np.abs(C))
    tiny = np.abs(m0) < 1e-12 * sc                 # what is 0 but for rounding
    with np.errstate(all="ignore"):
        ok = near(inc, exp, sc) | ~U | (tiny & (np.abs(inc) <= np.abs(res) * np.sqrt(1e-12 * sc)))
    if not ok.all():
        bad("actual", "%s: simulated increment %r, fitted %r plus residual gives %r", where(ok, O, D), inc[~ok][0],
            float(np.broadcast_to(m0, ok.shape)[~ok][0]), exp[~ok][0])
    if not op["parametric"]:
        pool_ = adj[up]
        pool_ = pool_[~np.isnan(pool_)]            # a fitted amount of 0 has no residual
        got = res[U]
        dist = np.min(np.abs(got[:, None] - pool_[None, :]), axis=1)
        if not (dist <= 1e-7 * (1 + np.abs(got))).all():
            k = int(np.argmax(dist))
            bad("residual", "resampled residual %r is none of the triangle's", float(got[k]))
        if op["pick"] == "real" and len(got) > 3000:
            src = adj[:-1, :-1].ravel()
            src = src[~np.isnan(src) & (np.abs(src) > 1e-12)]
            if len(set(np.round(src, 9))) == len(src):
                cnt = np.array([(np.abs(got - x) <= 1e-7 * (1 + abs(x))).sum() for x in src])
                p = stats.chisquare(cnt).pvalue
                stat["resampling tests"] = stat.get("resampling tests", 0) + 1
                if p < 1e-9:
                    bad("residual", "residuals are not drawn uniformly (p=%.3g): counts %s", p, list(cnt))
    elif op["pick"] == "real" and U.sum() > 500:
        src = adj[:-1, :-1].ravel()
        src = src[~np.isnan(src) & (np.abs(src) > 1e-12)]
        p = stats.kstest(res[U] / src.std(ddof=1), "norm").pvalue
        stat["resampling tests"] = stat.get("resampling tests", 0) + 1
        if p < 1e-9:
            bad("residual", "parametric residuals are not normal with mean 0 and deviation %r (p=%.3g)", src.std(ddof=1), p)
    run = np.cumsum(np.where(U, inc, 0.), axis=2)
    scale = np.abs(run).max(axis=(1, 2), keepdims=True)
    ok = near(cum, run, scale) | ~U
    if not ok.all():
        bad("actual", "%s: simulated cumulative amount %r, running sum %r", where(ok, O, D), cum[~ok][0], run[~ok][0])
    # development factors of the simulated triangle
    ldf = cube("ldf")
    skip = np.zeros(S, bool)
    F = np.full((S, n - 1), np.nan)
    for j in range(n - 1):
        hi, lo = run[:, :n - 1 - j, j + 1], run[:, :n - 1 - j, j]
        with np.errstate(all="ignore"):
            F[:, j] = hi.sum(1) / lo.sum(1)
        skip |= np.abs(lo.sum(1)) < 1e-9 * np.abs(lo).sum(1) + 1e-12
    stat["degenerate simulations"] = stat.get("degenerate simulations", 0) + int(skip.sum())
    K = ~skip
    with np.errstate(all="ignore"):
        ok = (np.abs(ldf[:, :, :-1] - F[:, None, :]) <= 1e-6 * (1 + np.abs(F[:, None, :]))) | skip[:, None, None]
    if not ok.all():
        bad("factor", "%s: development factor %r, the simulated triangle has %r", where(ok, O, D),
            ldf[:, :, :-1][~ok][0], np.broadcast_to(F[:, None, :], ok.shape)[~ok][0])
    # future cells
    fut = np.where(U, run, np.nan)
    for i in range(1, n):
        for j in range(n - i, n):
            fut[:, i, j] = fut[:, i, j - 1] * F[:, j - 1]
    big = np.nanmax(np.abs(fut), axis=(1, 2), keepdims=True)
    with np.errstate(all="ignore"):
        ok = (np.abs(cum - fut) <= 1e-6 * np.abs(fut) + 1e-9 * big + 1e-7) | U | skip[:, None, None]
    if not ok.all():
        bad("future", "%s: projected %r, latest simulated amount times its factors is %r", where(ok, O, D),
            cum[~ok][0], fut[~ok][0])
    mean = fut.copy()
    mean[:, :, 1:] = fut[:, :, 1:] - fut[:, :, :-1]
    with np.errstate(all="ignore"):
        ok = (np.abs(inc - mean) <= 1e-6 * np.abs(mean) + 1e-8 * big + 1e-7) | U | skip[:, None, None]
    if not ok.all():
        bad("future", "%s: mean increment %r, expected %r", where(ok, O, D), inc[~ok][0], mean[~ok][0])
    fin = cube("final_incr")
    if not (near(fin, inc, scale) | ~U).all():
        bad("actual", "%s: final increment of an actual cell differs", where(near(fin, inc, scale) | ~U, O, D))
    L = ~U & K[:, None, None]
    sgn = np.sign(inc)
    ok = (fin * sgn >= 0) | ~L
    if not ok.all():
        bad("noise", "%s: simulated increment %r, mean %r: the sign changed", where(ok, O, D), fin[~ok][0], inc[~ok][0])
    var = cube("var")
    ok = near(var, np.abs(inc) * phi, scale * phi) | ~L
    if not ok.all():
        bad("noise", "%s: variance %r, %r x %r expected", where(ok, O, D), var[~ok][0], abs(inc[~ok][0]), phi)
    if op["noise"] == "real" and phi > 1e-9:
        x, mu = np.abs(fin[L]), np.abs(inc[L])
        keep = mu / phi > 1e-3
        if keep.sum() > 300:
            u = stats.gamma.cdf(x[keep], a=mu[keep] / phi, scale=phi)
            p = stats.kstest(u, "uniform").pvalue
            stat["noise tests"] = stat.get("noise tests", 0) + 1
            if p < 1e-9:
                bad("noise", "process noise is not gamma with the stated mean and variance (p=%.3g)", p)
    if op["noise"] == "mean" and rs.used["noise"] and np.isfinite(fin[L]).all():
        ok = near(np.abs(fin), np.abs(inc), scale) | ~L
        if not ok.all():
            bad("noise", "%s: noise at its mean gives %r, mean %r", where(ok, O, D), fin[~ok][0], inc[~ok][0])
    # reserves
    ult = cube("ultimate")
    tot = np.cumsum(fin, axis=2)
    big = np.abs(tot).max(axis=(1, 2), keepdims=True)
    ok = near(ult, tot, big) | skip[:, None, None]
    if not ok.all():
        bad("reserve", "%s: cumulative amount %r, sum of increments %r", where(ok, O, D), ult[~ok][0], tot[~ok][0])
    lat = np.stack([run[:, i, n - 1 - i] for i in range(n)], 1)
    rd = r.reserve_dist
    tr = rd[rd["origin"] != "total"]
    if len(tr) != S * n or sorted(set(tr["origin"])) != sorted(O):
        bad("reserve", "%d rows of reserves for %d simulations of %d origins", len(tr), S, n)
    s2 = tr["sim"].map({x: k for k, x in enumerate(sims)}).values
    a2 = tr["origin"].map(oi).values.astype(int)
    for name, e in (("latest", lat), ("ultimate", tot[:, :, -1]), ("reserve", tot[:, :, -1] - lat)):
        x = np.full((S, n), np.inf)
        x[s2, a2] = tr[name].values.astype(float)
        ok = near(x, e, big[:, :, 0]) | skip[:, None]
        if not ok.all():
            bad("reserve", "%s: %s %r, expected %r", where(ok, O), name, x[~ok][0], e[~ok][0])
    tt = rd[rd["origin"] == "total"]
    if len(tt) != S:
        bad("reserve", "%d total reserves for %d simulations", len(tt), S)
    s3 = tt["sim"].map({x: k for k, x in enumerate(sims)}).values
    x = np.full(S, np.inf)
    x[s3] = tt["reserve"].values.astype(float)
    e = (tot[:, :, -1] - lat).sum(1)
    ok = near(x, e, big[:, 0, 0]) | skip
    if not ok.all():
        bad("reserve", "sim %d: total reserve %r, sum over origins %r", int(np.nonzero(~ok)[0][0]), x[~ok][0], e[~ok][0])
    stat["simulations"] = stat.get("simulations", 0) + S
    stat["cells"] = stat.get("cells", 0) + S * n * n
    return cn.digest(list(map(float, fin.sum(axis=(1, 2)))))


def bootable(spec, mask=()):
    M = model.Model(data.matrix(spec, True), spec["origins"], spec["devs"])
    for i, j in mask:
        M.W[i, j] = 0
    return M.bootable()


def run(plan, ctx):
    spec, stat, faults, v, dig = plan["spec"], {"bootstraps": 0}, {}, None, []
    t = data.build(spec)
    for i, j in plan["mask"]:
        t.a2aind.at[spec["origins"][i], spec["devs"][j]] = 0
    try:
        for op in plan["steps"]:
            if not bootable(spec, plan["mask"]):
                stat["without residuals"] = stat.get("without residuals", 0) + 1
                break
            it = core.OpInterrupt(op["int"]["kind"], op["int"]["at"]) if "int" in op else core.OpInterrupt()
            rs = world.mk_state(op)
            try:
                with core.solo(it):
                    r = t.boot_cl(sims=op["sims"], q=op["q"], parametric=op["parametric"], random_state=rs,
                                  interpolation=op["interp"])
            except Exception as e:
                if it.fired is None:
                    raise core.Violation("error", "boot_cl raised %s: %s" % (type(e).__name__, e))
                faults[it.kind] = faults.get(it.kind, 0) + 1
                continue
            except KeyboardInterrupt:
                faults[it.kind] = faults.get(it.kind, 0) + 1
                continue
            stat["bootstraps"] += 1
            for k, x in rs.used.items():
                name = "scripted %s: %s" % (("resampling", op["pick"]) if k == "pick" else ("noise", op["noise"]))
                faults[name] = faults.get(name, 0) + x
            try:
                dig.append(check(r, spec, plan["mask"], op, stat, rs))
            except (KeyError, AttributeError) as e:
                raise core.Violation("shape", "simulations can't be read: %s %s" % (type(e).__name__, e))
    except core.Violation as e:
        v = {"cls": e.cls, "detail": e.detail}
    odd = bool(plan["mask"]) or spec["devs"][0] != 1 or any(x < 0 for row in spec["cells"] for x in row)
    return {"violation": v, "stats": stat, "faults": faults, "inter": [], "digest": cn.digest(dig, str(v)), "plan": plan,
            "nontrivial": stat["bootstraps"] > 0 and (odd or any(faults.values()))}
