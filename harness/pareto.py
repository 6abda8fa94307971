"""C19: non-dominated sorting and the radius rule."""
from . import env  # noqa: F401
import random

import numpy as np

from pySOT.utils import check_radius_rule, domination, nd_front, nd_sorting

from . import main, tla

AXIS = [[0], [3, 4], [0, 0, 0, 1]]


def sets(job):
    """front and ranks of one set of points (values are ranks per objective)."""
    rng = random.Random(job["seed"])
    pts = job["pts"]
    n, m = len(pts), len(pts[0])
    values = [sorted(rng.sample(range(-50, 50), 20)) for _ in range(m)]
    if job.get("real"):
        values = [sorted({rng.choice([rng.gauss(0, 1), rng.gauss(0, 1) * 10 ** rng.randint(-12, 12), float(rng.randint(-3, 3))]) for _ in range(60)}) for _ in range(m)]
        if rng.random() < .1:
            values[0][-1] = np.inf
    F = np.array([[values[k][p[k]] for p in pts] for k in range(m)], dtype=float)
    out = []

    def rec(kind, fun, **k):
        keep = F.copy()
        e = {"id": job["id"] + len(out), "kind": kind, "pts": pts, "exc": "", **k}
        try:
            e.update(fun())
            if not np.array_equal(F, keep):
                e["exc"] = "the argument was modified"
        except Exception as ex:
            e["exc"] = "%s: %s" % (type(ex).__name__, ex)
        out.append(e)

    def front():
        nd, df = nd_front(F)
        return {"nd": [int(i) + 1 for i in nd], "df": [int(i) + 1 for i in df]}

    def ranks(nmax):
        r = nd_sorting(F, nmax)
        return {"ranks": [0 if np.isinf(v) and v > 0 else int(v) if v == int(v) else -1 for v in r]}

    rec("front", front)
    for nmax in {n + 1, rng.randint(1, n), rng.choice([1, n])}:
        rec("sort", lambda: ranks(nmax), nmax=nmax)
    if n >= 2:
        out.append({"id": job["id"] + len(out), "kind": "pair", "pts": pts[:2], "exc": "", "flag": bool(domination(F[:, 0], F[:, 1]))})
    return out


def radius(job):
    rng = random.Random(job["seed"])
    d = rng.choice([1, 1, 2, 3, 4, 4, 6])
    sigma, thresh = rng.choice([8, 13, 16, 32]), rng.choice([1, 2, 4, 4, 4, 8])
    nc = rng.randint(1, 4)
    z = [[rng.randint(0, 64) for _ in range(d)] for _ in range(nc + rng.randint(0, 2))]
    nfail = [rng.choice([0, 0, 1, 2, 3, 4]) for _ in z]
    k = rng.randrange(nc)
    x = list(z[k])
    if rng.random() < .5:
        x = [rng.randint(0, 64) for _ in range(d)]
    elif d in (1, 4) and rng.random() < .6:  # exactly on the boundary, or one step off it
        x[rng.randrange(d)] += rng.choice([1, -1]) * (sigma * thresh // (4 * 2 ** nfail[k] * (1 if d == 1 else 2)) + rng.choice([0, 0, 0, 1, -1]))
    else:
        for j in range(d):
            x[j] += rng.randint(-6, 6)
    if d not in (1, 4):  # equality is not decidable in floating-point arithmetic
        for q, f in zip(z, nfail):
            if 16 * sum((a - b) ** 2 for a, b in zip(x, q)) * d * 4 ** f == (sigma * thresh) ** 2:
                x[0] += 1
        if any(16 * sum((a - b) ** 2 for a, b in zip(x, q)) * d * 4 ** f == (sigma * thresh) ** 2 for q, f in zip(z, nfail)):
            return []
    elif d == 4:
        for q, f in zip(z, nfail):
            s = sum((a - b) ** 2 for a, b in zip(x, q))
            if 16 * s * d * 4 ** f == (sigma * thresh) ** 2 and round(s ** .5) ** 2 != s:
                return []
    C = np.array([[v / 64 for v in q] + [rng.choice([-1.0, 3.5, 0]) for _ in range(4)] + [f] for q, f in zip(z, nfail)])
    e = {"id": job["id"], "kind": "radius", "x": x, "z": z, "nfail": nfail, "nc": nc, "sigma": sigma, "thresh": thresh, "exc": "", "flag": False}
    try:
        args = (np.array(x) / 64, C, sigma / 64, d, nc)
        e["flag"] = bool(check_radius_rule(*args) if thresh == 4 and rng.random() < .5 else check_radius_rule(*args, d_thresh=thresh / 4))
    except Exception as ex:
        e["exc"] = "%s: %s" % (type(ex).__name__, ex)
    return [e]


def dispatch(job):
    return {"sets": sets, "radius": radius}[job[0]](job[1])


def check(ctx):
    rng = ctx.rng
    jobs, src = [], {}
    for M, N, V in ctx.pick([(1, 5, 2), (2, 4, 2), (3, 3, 2), (2, 5, 1), (4, 3, 1)], [(1, 6, 3), (2, 5, 2), (2, 4, 3), (3, 4, 1), (3, 3, 2), (4, 4, 1), (2, 7, 1)]):
        r = ctx.tlc("ParetoGen", cfgtext="CONSTANTS M = %d\nN = %d\nV = %d\nSPECIFICATION Spec\nINVARIANTS Consistent Emit\nCHECK_DEADLOCK FALSE\n" % (M, N, V))
        cases = sorted(r.lines("CASE"), key=str)
        ctx.add("sets_of_points_of_the_specification", len(cases))
        for c in cases if ctx.thorough else rng.sample(cases, min(len(cases), 1500)):
            jobs.append(("sets", {"pts": c}))
    for _ in range(ctx.pick(500, 8000)):
        n, m, top = rng.randint(1, 30), rng.choice([1, 2, 2, 2, 3, 4]), rng.choice([2, 5, 19])
        jobs.append(("sets", {"pts": [[rng.randint(0, top) for _ in range(m)] for _ in range(n)], "real": top < 10}))
    for _ in range(ctx.pick(6000, 60000)):
        jobs.append(("radius", {}))
    for i, (k, j) in enumerate(jobs):
        j.update(id=10 * i, seed=rng.randint(0, 2 ** 30))
    res = [e for r in main.results("harness.pareto:dispatch", jobs, chunk=64) if r for e in r]
    src = {j["id"]: (k, j) for k, j in jobs}
    ctx.cov["calls"] = {k: sum(e["kind"] == k for e in res) for k in ("front", "sort", "pair", "radius")}
    v = {}
    for i in range(0, len(res), 40000):
        v.update(ctx.judge("ParetoJudge", res[i:i + 40000]))
    for e in res:
        for b in v[e["id"]]["bad"]:
            ctx.violate("C19: %s" % b, {"job": src[e["id"] // 10 * 10], "seen": e})
    for k in ("sets", "radius"):
        ctx.sample(next(j for j in jobs if j[0] == k))
    if ctx.violations:
        return
    bad = []
    for e in rng.sample(res, 400):
        if e["kind"] == "front":
            e = dict(e, nd=e["nd"][1:], df=e["df"] + e["nd"][:1])
        elif e["kind"] == "sort":
            e = dict(e, ranks=[e["ranks"][0] + 1] + e["ranks"][1:])
        else:
            e = dict(e, flag=not e["flag"])
        bad.append(e)
    w, _ = tla.judge("ParetoJudge", bad)
    if any(not w[e["id"]]["bad"] for e in bad):
        raise tla.MachineryError("a corrupted recording was accepted")
    ctx.add("corrupted_recordings_rejected", len(bad))
