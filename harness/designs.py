"""C18: experimental designs."""
from . import env  # noqa: F401
import random
from fractions import Fraction as Fr

import numpy as np
from scipy.spatial.distance import pdist

from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube, TwoFactorial

from . import main, tla


def make(c, it):
    return {"lhd": lambda: LatinHypercube(c["d"], c["n"], iterations=it), "slhd": lambda: SymmetricLatinHypercube(c["d"], c["n"], iterations=it),
            "fact": lambda: TwoFactorial(c["d"])}[c["kind"]]()


def call(c, it, kw):
    try:
        return np.array(make(c, it).generate_points(**kw), dtype=float), ""
    except Exception as ex:
        return None, "%s: %s" % (type(ex).__name__, ex)


def score(X):
    return float(pdist(X).min()) if len(X) > 1 else 1e300


def column(c, v, box, lb, ub):
    n = c["n"]
    if c["kind"] == "fact":
        return {"kind": "corner", "w": 1, "v": [0 if x == lb else 1 if x == ub else -1 for x in v]}
    if box.startswith("int") or box == "wide":
        return {"kind": "int", "w": int(ub - lb), "v": [int(x - lb) if x == np.round(x) else -1 for x in v]}
    t = [(Fr(float(x)) - Fr(float(lb))) / (Fr(float(ub)) - Fr(float(lb))) for x in v]
    if c["kind"] == "lhd":
        res = []
        for y in t:
            z = y * n
            if box != "unit" and abs(z - round(z)) < Fr(1, 10 ** 9):
                return None  # undecidable after rounding
            res.append(int(z // 1) if 0 <= z < n else -1)
        return {"kind": "slice", "w": 0, "v": res}
    res = []
    for y in t:
        z = y * (n - 1)
        k = round(z)
        res.append(int(k) if abs(z - k) < Fr(1, 10 ** 9) else -1)
    return {"kind": "level", "w": 0, "v": res}


def case(job):
    c = job["c"]
    rng = random.Random(job["seed"])
    d = c["d"]
    if c["kind"] == "fact":
        c = dict(c, n=2 ** d)
    unit = c["box"][0] == "unit"
    B = {"unit": (0, 1), "cont": (-1.5, 4.25), "far": (1e6, 1e6 + 64), "tiny": (0, 3e-9), "huge": (-1e9, 1e9), "int1": (3, 4), "int": (-2, -2 + rng.choice([2, 3, 5, c["n"] - 1, 2 * c["n"]])), "wide": (0, 1000)}
    lb = np.array([B[b][0] for b in c["box"]], dtype=float)
    ub = np.array([max(B[b][1], B[b][0] + 1) if b.startswith("int") else B[b][1] for b in c["box"]], dtype=float)
    iv = [j for j in range(d) if c["box"][j].startswith("int") or c["box"][j] == "wide"]
    kw = {}
    if not unit or rng.random() < .2:
        kw = dict(lb=lb.copy(), ub=ub.copy(), int_var=np.array(iv) if iv else rng.choice([None, [], np.array([])]))
    keep = [np.copy(kw[k]) for k in ("lb", "ub") if k in kw]
    np.random.seed(job["seed"] % 2 ** 31)
    X, exc = call(c, c["it"], kw)
    intact = all(np.array_equal(a, kw[k]) for a, k in zip(keep, ("lb", "ub")))
    rows, cols = (0, 0) if X is None else ([int(v) for v in X.shape] if X.ndim == 2 else (-1, -1))
    out = {"id": job["id"], "kind": c["kind"], "n": c["n"], "d": d, "exc": exc, "error": exc != "" and c["kind"] != "fact", "refuse": c["kind"] == "fact" and d >= 15,
           "rows": rows, "cols": cols, "col": [], "distinct": True, "rank": True, "intact": intact, "sure": not iv and "far" not in c["box"] and (c["kind"] == "lhd" and c["n"] >= d or c["kind"] == "slhd" and c["n"] >= 2 * d + 2 and c["it"] >= 10), "tried": [], "same": [], "tol": 4}
    if c["kind"] != "fact":
        np.random.seed(job["seed"] % 2 ** 31)
        tried = [call(c, 1, kw)[0] for _ in range(c["it"])]
        top = float(np.linalg.norm(ub - lb))
        out["tried"] = [{"score": 0 if Y is None else int(min(round(score(Y) / top * 1e8), 10 ** 9)), "rank": Y is not None} for Y in tried]
        if X is not None:
            out["same"] = [k + 1 for k, Y in enumerate(tried) if Y is not None and np.array_equal(X, Y)]
    if X is not None and rows > 0 and cols == d:
        out["col"] = [column(c, X[:, j], c["box"][j], lb[j], ub[j]) for j in range(d)]
        if None in out["col"]:
            return None
        out["distinct"] = len({tuple(x) for x in X.tolist()}) == rows
        out["rank"] = bool(np.linalg.matrix_rank(X) == d)
    return out


def check(ctx):
    rng = ctx.rng
    ctx.assumptions += ["the designs tried are those that single-iteration calls give from the same state of the random number generator; a result that is none of them is "
                        "not judged for being the best", "rank as computed by numpy"]
    r = ctx.tlc("DesignGen", cfgtext="CONSTANTS D = %d\nN = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (3, 9))
    cases = sorted(r.lines("CASE"), key=str)
    ctx.cov["designs_of_the_specification"] = len(cases)
    jobs = []
    fact = [c for c in cases if c["kind"] == "fact"]
    for c in fact + (cases if ctx.thorough else rng.sample(cases, 2500)):
        jobs.append({"c": c})
    for d in range(4, 15):
        for _ in range(2 if d < 11 else 1):
            jobs.append({"c": {"kind": "fact", "d": d, "n": 1, "it": 1, "box": [rng.choice(["cont", "int", "wide", "far"]) for _ in range(d)] if rng.random() < .7 else ["unit"] * d}}) \
                if d <= 9 else None
    jobs += [{"c": {"kind": "fact", "d": d, "n": 1, "it": 1, "box": ["unit"] * d}} for d in (15, 16, 40)]
    for _ in range(ctx.pick(600, 8000)):
        d = rng.randint(1, 10)
        jobs.append({"c": {"kind": rng.choice(["lhd", "slhd"]), "d": d, "n": max(2, rng.choice([d - 1, d, d + 1, 2 * (d + 1), rng.randint(2, 60)])), "it": rng.choice([1, 3, 10, 40]),
                           "box": [rng.choice(["cont", "cont", "far", "int", "wide"]) for _ in range(d)] if rng.random() < .7 else [rng.choice(["unit", "tiny", "huge"])] * d}})
    for i, j in enumerate(jobs):
        j.update(id=i, seed=rng.randint(0, 2 ** 30))
    res = [x for x in main.results("harness.designs:case", jobs, chunk=32) if x is not None]
    v = {}
    for i in range(0, len(res), 5000):
        v.update(ctx.judge("DesignJudge", res[i:i + 5000]))
    ctx.cov["designs"] = {k: sum(t["kind"] == k for t in res) for k in ("lhd", "slhd", "fact")}
    ctx.cov["errors_raised"] = sum(t["exc"] != "" for t in res)
    ctx.cov["compared_with_the_designs_tried"] = sum(t["same"] != [] for t in res)
    for t in res:
        for b in v[t["id"]]["bad"]:
            ctx.violate("C18: %s: %s" % (t["kind"], b), {"job": jobs[t["id"]], "seen": t})
    ctx.sample(jobs[-1])
    if ctx.violations:
        return
    bad = []
    for t in res:
        if t["exc"] or len(bad) >= 400:
            continue
        k = rng.randrange(3)
        col = [dict(c) for c in t["col"]]
        if k == 0 and t["n"] > 1 and t["kind"] != "fact" and col[0]["kind"] != "int":
            col[0]["v"] = col[0]["v"][:-1] + [col[0]["v"][0]]
        elif k == 0 and t["kind"] == "fact":
            col[0]["v"] = col[0]["v"][:-1] + [0]
        elif k == 1:
            bad.append(dict(t, rows=t["rows"] - 1))
            continue
        elif k == 2 and t["same"]:
            bad.append(dict(t, tried=t["tried"] + [{"score": 10 ** 9 + 10, "rank": True}]))
            continue
        else:
            continue
        bad.append(dict(t, col=col))
    w, _ = tla.judge("DesignJudge", bad)
    miss = [t["id"] for t in bad if not w[t["id"]]["bad"]]
    if miss:
        raise tla.MachineryError("a corrupted recording was accepted: %s" % miss[:5])
    ctx.add("corrupted_recordings_rejected", len(bad))
