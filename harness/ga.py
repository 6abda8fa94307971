"""C21: the genetic algorithm."""
from . import env  # noqa: F401
import random

import numpy as np

from pySOT.utils import GeneticAlgorithm

from . import main, tla
from .feasible import BOXES

CONT = ["unit", "tiny", "shifted", "negative", "wide", "thirds", "far"]
INT = ["binary", "small", "negint", "bigint", "farint"]


def case(job):
    c = job["c"]
    rng = random.Random(job["seed"])
    np.random.seed(job["seed"] % 2 ** 31)
    d, n = c["d"], c["pop"]
    even = n + n % 2
    ints = [j for j in range(d) if c["int"][j]]
    b = [rng.choice(BOXES[rng.choice(INT if c["int"][j] else CONT)]) for j in range(d)]
    lb, ub = np.array([x[0] for x in b]), np.array([x[1] for x in b])
    a = np.array([rng.choice([-1, 1, 1, 0]) for _ in range(d)])
    num = rng.choice([7, 1000, 10 ** 6])

    def value(x):
        u = (x - lb) / (ub - lb)
        if c["f"] == "flat":
            return 3.0
        if c["f"] == "slope":
            return float(np.floor(num * float(u.dot(a))))
        return float(np.floor(num * np.sin(40 * float(u.dot(a + 2.3)))))
    calls = []
    col = rng.random() < .5

    def f(P):
        P = np.asarray(P)
        v = np.array([value(x) for x in P])
        calls.append((np.array(P, dtype=float), v.copy()))
        return v.reshape(-1, 1) if col else v

    start, kind, own, fits, inside = c["start"], c["start"], None, True, True
    if kind not in ("SLHD", "LHD", "Random"):
        if kind == "unknown":
            start = rng.choice(["slhd", "Uniform", ""])
        else:
            rows = even + {"few": -1, "many": 1}.get(kind, 0)
            cols = d + {"narrow": 1}.get(kind, 0)
            if kind == "few" and n % 2 and rng.random() < .5:
                rows = n
            fits = rows == even and cols == d
            own = np.random.rand(rows, cols)
            k = min(cols, d)
            own[:, :k] = np.clip(lb[:k] + own[:, :k] * (ub - lb)[:k], lb[:k], ub[:k])
            raw = own.copy()
            for j in ints:
                own[:, j] = np.clip(np.round(own[:, j]), lb[j], ub[j])
            if kind == "edge" and rows:
                own[rng.randrange(rows)] = ub
                own[rng.randrange(rows)] = lb
            if kind in ("low", "high"):
                j = rng.randrange(d)
                i = rng.randrange(rows)
                x = np.nextafter(lb[j], -np.inf) if kind == "low" else np.nextafter(ub[j], np.inf)
                if rng.random() < .5:
                    x = 2 * lb[j] - ub[j] if kind == "low" else 2 * ub[j] - lb[j]
                own[i, j] = x
                inside = False
            if kind in ("fine", "edge") and len(ints) == d and rng.random() < .3 and np.max(np.abs(own)) < 1e9:
                own = own.astype(int)
            start = own
            if kind == "fine" and ints and rng.random() < .4 and own.dtype == float:
                start = raw  # rounded before it is evaluated
            kind = "own"
    kw = dict(pop_size=n, num_gen=c["gens"], start=start)
    if ints or rng.random() < .5:
        kw["int_var"] = rng.choice([list(ints), np.array(ints, dtype=int)])
    keep = None if own is None else start.copy()
    lo, hi = lb.copy(), ub.copy()
    exc, res, resval = "", None, None
    try:
        ga = GeneticAlgorithm(f, d, rng.choice([lo, list(lo)]), rng.choice([hi, list(hi)]), **kw)
        res, resval = ga.optimize()
        resval = float(resval)
        res = [float(v) for v in np.ravel(res)]
    except Exception as ex:
        exc = "%s: %s" % (type(ex).__name__, ex)
    intact = np.array_equal(lo, lb) and np.array_equal(hi, ub) and (own is None or np.array_equal(start, keep))
    nums = set(lb) | set(ub)
    for P, _ in calls:
        nums |= set(np.ravel(P))
    if own is not None:
        nums |= set(float(v) for v in np.ravel(own))
    if res is not None:
        nums |= set(res)
    rk = {v: i for i, v in enumerate(sorted(v for v in nums if np.isfinite(v)))}
    R = lambda v: rk.get(float(v), -1)
    return {"id": job["id"], "lb": [R(v) for v in lb], "ub": [R(v) for v in ub], "ints": [j + 1 for j in ints], "pts": [], "exc": exc, "size": n, "gens": c["gens"],
            "calls": [{"pts": [{"x": [R(v) for v in x], "whole": [bool(v == np.round(v)) for v in x]} for x in P], "val": [int(v) for v in V]} for P, V in calls],
            "start": kind, "own": [] if own is None else [[R(v) for v in x] for x in own], "fits": fits, "inside": inside,
            "sure": kind in ("own", "Random") or (kind == "LHD" and even >= d) or (kind == "SLHD" and (even >= 2 * d + 2 or d == 1)),
            "res": [] if res is None else [R(v) for v in res], "resval": 0 if resval is None else int(resval), "intact": intact}


def check(ctx):
    rng = ctx.rng
    r = ctx.tlc("GAGen", cfgtext="CONSTANTS D = 2\nPOP = 5\nGENS = 3\nV = 3\nSPECIFICATION Spec\nINVARIANTS BestOfAll Emit\nCHECK_DEADLOCK FALSE\n")
    cases = sorted(r.lines("CASE"), key=str)
    ctx.cov["configurations_of_the_specification"] = len(cases)
    todo = cases * ctx.pick(0, 4) + (rng.sample(cases, min(len(cases), 1800)) if not ctx.thorough else [])
    for _ in range(ctx.pick(500, 10000)):
        d = rng.randint(1, 6)
        todo.append(dict(d=d, int=[rng.random() < .4 for _ in range(d)], pop=rng.choice([2, 3, 7, 10, 20]), gens=rng.choice([1, 2, 5, 12]),
                         start=rng.choice(["SLHD", "LHD", "Random", "fine", "fine", "edge", "few", "many", "narrow", "low", "high"]), f=rng.choice(["slope", "flat", "steps", "steps"])))
    jobs = [{"id": i, "c": c, "seed": rng.randint(0, 2 ** 30)} for i, c in enumerate(todo)]
    res = [t for t in main.results("harness.ga:case", jobs, chunk=16) if t is not None]
    v = {}
    for i in range(0, len(res), 4000):
        v.update(ctx.judge("GAJudge", res[i:i + 4000]))
    ctx.cov["points_evaluated"] = sum(len(k["pts"]) for t in res for k in t["calls"])
    ctx.cov["refused"] = sum(t["exc"] != "" for t in res)
    for t in res:
        for b in v[t["id"]]["bad"]:
            ctx.violate("C21: %s" % b, {"job": jobs[t["id"]], "seen": t})
    ctx.sample(jobs[0])
    if ctx.violations:
        return
    bad = []
    for t in res:
        if not t["calls"] or len(bad) >= 300:
            continue
        k = rng.randrange(5)
        if k == 0:
            t = dict(t, resval=t["resval"] + 1)
        elif k == 1:
            t = dict(t, res=t["ub"][:-1] + [-1])
        elif k == 2:
            t = dict(t, calls=t["calls"][:-1])
        elif k == 3:
            q = t["calls"][0]
            t = dict(t, calls=[dict(q, pts=q["pts"][:-1], val=q["val"][:-1])] + t["calls"][1:])
        elif k == 4 and len(t["calls"]) > 1:
            q = t["calls"][-1]
            t = dict(t, calls=t["calls"][:-1] + [dict(q, val=[x + 10 ** 8 for x in q["val"]])])
        else:
            continue
        bad.append(t)
    w, _ = tla.judge("GAJudge", bad)
    if any(not w[t["id"]]["bad"] for t in bad):
        raise tla.MachineryError("a corrupted recording was accepted")
    ctx.add("corrupted_recordings_rejected", len(bad))
