"""C08: feasibility of everything that is proposed."""
from . import env  # noqa: F401
import math
import random

import numpy as np

from pySOT.auxiliary_problems import candidate_dycors, candidate_srbf, candidate_uniform, ei_ga, lcb_ga
from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube, TwoFactorial
from pySOT.strategy import RandomStrategy
from pySOT.utils import GeneticAlgorithm

from . import driver, main, tla

BOXES = {  # kind of interval -> possible bounds
    "unit": [(0.0, 1.0), (-1.0, 1.0)],
    "tiny": [(0.0, 1e-12), (-1e-9, 2e-9), (1e-100, 3e-100), (-7e-8, -2e-8)],
    "shifted": [(0.1, 0.7), (-0.3, 0.1), (0.7, 1.9), (-1.1, 2.3), (3.3, 3.4)],
    "negative": [(-3.7, -1.2), (-1e3, -0.1), (-0.9, -0.2)],
    "wide": [(-1e6, 1e6), (-1e50, 3e50), (0.0, 1e12), (-12345.678, 98765.4321)],
    "thirds": [(1 / 3, 2 / 3), (-2 / 3, 1 / 7), (-1 / 9, 5 / 7), (0.1 + 0.2, 0.7 + 0.1)],
    "far": [(1e15, 1e15 + 2), (-1e8 - 0.1, -1e8 + 0.2), (1e6 + 0.1, 1e6 + 0.3)],
    "binary": [(0.0, 1.0), (-1.0, 0.0), (1.0, 2.0)],
    "small": [(0.0, 3.0), (2.0, 7.0), (0.0, 10.0)],
    "negint": [(-5.0, -2.0), (-3.0, 4.0), (-20.0, -1.0)],
    "bigint": [(0.0, 1000.0), (-99999.0, 77777.0)],
    "offint": [(0.4, 3.6), (-2.3, 1.2), (-0.7, 0.6), (0.5, 9.5), (-7.9, -2.1)],
    "farint": [(1e9, 1e9 + 4), (-1e12, -1e12 + 3)],
}


class Lin(driver.RecSurrogate):
    def predict(self, xx):
        SEEN.extend(np.atleast_2d(np.array(xx, dtype=float)))
        return super().predict(xx)


SEEN = []


def points(job):
    """The points that the source produced."""
    src, cs, seed = job["src"], job["cs"], job["seed"]
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    d = len(cs)
    bounds = [rng.choice(BOXES[c["box"]]) for c in cs]
    lb, ub = np.array([b[0] for b in bounds]), np.array([b[1] for b in bounds])
    ints = [j for j, c in enumerate(cs) if c["int"]]
    p = driver.Box(d, lb, ub, ints)
    p.lb, p.ub = lb.copy(), ub.copy()
    SEEN.clear()
    out, exc = [], ""
    at = np.array([lb[j] if c["at"] == "low" else ub[j] if c["at"] == "high" else
                   (min(max(np.round((lb[j] + ub[j]) / 2), lb[j]), ub[j]) if c["int"] else min(max(lb[j] + (ub[j] - lb[j]) * rng.random(), lb[j]), ub[j]))
                   for j, c in enumerate(cs)])
    try:
        if src.startswith("candidate"):
            n = rng.randint(1, 5)
            X = lb + (ub - lb) * np.random.rand(n, d)
            X = np.clip(X, lb, ub)
            X[:, ints] = np.clip(np.round(X[:, ints]), lb[ints], ub[ints])
            X[0] = at
            fX = np.arange(n, dtype=float).reshape(-1, 1)
            sur = Lin(d, lb, ub, a=np.random.randn(d))
            sur.add_points(X, fX)
            driver.CUR = driver.Recorder()
            kw = dict(num_pts=rng.randint(1, 3), opt_prob=p, surrogate=sur, X=X, fX=fX, weights=[.3, .5, .95],
                      num_cand=rng.choice([1, 5, 50]) if False else rng.choice([5, 50, 200]))
            if rng.random() < .5:
                kw["Xpend"] = np.clip(lb + (ub - lb) * np.random.rand(2, d), lb, ub)
            if rng.random() < .3:
                kw["subset"] = sorted(rng.sample(range(d), rng.randint(1, d)))
            if src == "candidate_srbf":
                out = candidate_srbf(sampling_radius=rng.choice([.2, .05, .2 / 64]), **kw)
            elif src == "candidate_uniform":
                out = candidate_uniform(**kw)
            else:
                out = candidate_dycors(sampling_radius=rng.choice([.2, .05, .2 / 64]), prob_perturb=rng.choice([1.0, .5, .01]),
                                       xbest=at if rng.random() < .5 else None, **kw)
            out = list(out) + list(SEEN)
        elif src in ("srbf", "dycors", "sop", "ei", "lcb"):
            sp = dict(id=0, kind=src, M=12 if src in ("ei", "lcb") else 24, n0=d + 3, b=rng.randint(1, 3), restarts=True, W=2,
                      seed=seed, dim=d, drain=rng.randint(0, 2))
            sp["async"] = rng.random() < .5
            r = driver.Run(sp, [("a",), ("d", 0, 7)] * 4 + [("a",), ("f", 0, 0)])
            r.problem = p
            tr = r.run()
            ids = [e["p"] for e in tr["ev"] if e["op"] == "ask" and e["res"] == "eval"]
            out = [r.rec.pts[i - 1] for i in ids]
            exc = next((e["exc"] for e in tr["ev"] if e["exc"]), tr["exc"])
        elif src == "random":
            s = RandomStrategy(20, p)
            for _ in range(20):
                q = s.propose_action()
                out.append(np.array(q.args[0]))
                if rng.random() < .3:
                    q.reject()
                else:
                    q.record = driver.Controller().new_feval(q.args)
                    q.accept()
                    q.record.complete(1.0) if rng.random() < .6 else q.record.kill()
        elif src in ("lhd", "slhd", "factorial"):
            cls = {"lhd": LatinHypercube, "slhd": SymmetricLatinHypercube}.get(src)
            des = TwoFactorial(dim=d) if cls is None else cls(dim=d, num_pts=2 * d + rng.randint(1, 6), iterations=20)
            try:
                out = des.generate_points(lb=lb, ub=ub, int_var=np.array(ints, dtype=int))
            except ValueError:
                out = []  # no valid design for this box
        elif src == "ga":
            seen = []

            def f(Y):
                seen.extend(np.array(Y, dtype=float))
                return np.sum((np.asarray(Y, dtype=float) - at) / (ub - lb), axis=1)
            x, v = GeneticAlgorithm(f, d, lb, ub, int_var=np.array(ints, dtype=int), pop_size=rng.choice([10, 11]), num_gen=rng.randint(1, 8),
                                    start=rng.choice(["SLHD", "LHD", "Random"])).optimize()
            out = seen + [x]
    except Exception as ex:
        exc = "%s: %s" % (type(ex).__name__, ex)
    return lb, ub, ints, [np.asarray(x, dtype=float).ravel() for x in out], exc


def case(job):
    lb, ub, ints, pts, exc = points(job)
    vals = sorted(set(float(v) for a in [lb, ub] + pts for v in a if math.isfinite(v)))
    rank = {v: i for i, v in enumerate(vals)}
    r = lambda a: [rank[float(v)] if math.isfinite(v) else -1 for v in a]
    uniq = {tuple(x) for x in pts}
    # only the extreme ones and a sample are passed on per coordinate order
    return {"id": job["id"], "src": job["src"], "lb": r(lb), "ub": r(ub), "exc": exc,
            "ints": [j + 1 for j in ints if lb[j] == np.round(lb[j]) and ub[j] == np.round(ub[j])],  # integral bounds
            "pts": [{"x": r(x), "whole": [bool(math.isfinite(v) and v == math.floor(v)) for v in x]} for x in sorted(uniq, key=str)],
            "raw": {"lb": lb.tolist(), "ub": ub.tolist()}, "n": len(pts)}


def check(ctx):
    rng = ctx.rng
    r = ctx.tlc("FeasibleGen", workers=1, cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nCONSTANT D=2\nCHECK_DEADLOCK FALSE\n")
    cases = sorted(r.lines("CASE"), key=str)
    ctx.cov["configurations_of_the_specification"] = len(cases)
    cheap = [c for c in cases if c["src"] not in ("ei", "lcb")]
    dear = [c for c in cases if c["src"] in ("ei", "lcb")]
    jobs = rng.sample(cheap, ctx.pick(1500, len(cheap))) + rng.sample(dear, ctx.pick(24, 400))
    for _ in range(ctx.pick(150, 3000)):  # more coordinates
        c = rng.choice(cheap)
        d = rng.randint(3, 6)
        jobs.append({"src": c["src"], "cs": [rng.choice(rng.choice(cheap)["cs"]) for _ in range(d)]})
    jobs = [dict(j, id=i, seed=rng.randint(0, 2 ** 30)) for i, j in enumerate(jobs)]
    jobs.sort(key=lambda j: j["src"] not in ("ei", "lcb"))
    res = main.results("harness.feasible:case", jobs, chunk=4, limit=120)
    byid = {j["id"]: j for j in jobs}
    judged = []
    n = 0
    for j, c in zip(jobs, res):
        if c is None:
            ctx.add("timeouts")
            continue
        n += c["n"]
        judged.append({k: c[k] for k in ("id", "lb", "ub", "ints", "exc", "pts")})
        if c["exc"]:
            ctx.add("exceptions")
    ctx.cov["points"] = n
    v = ctx.judge("FeasibleJudge", judged)
    raw = {c["id"]: c for c in res if c}
    for c in judged:
        for b in v[c["id"]]["bad"]:
            ctx.violate("C08: %s: %s" % (byid[c["id"]]["src"], b), {"case": byid[c["id"]], "box": raw[c["id"]]["raw"], "exc": c["exc"]})
    for j in jobs[:3]:
        ctx.sample(j)
    # a point moved out of the box, or off the integers, must be rejected
    bad = []
    for c in judged[:400]:
        if c["pts"] and not v[c["id"]]["bad"]:
            c = dict(c, pts=[dict(p) for p in c["pts"]])
            if c["ints"] and len(bad) % 2:
                c["pts"][0]["whole"] = [False] * len(c["lb"])
            else:
                c["pts"][0]["x"] = [b + 1 for b in c["ub"]]
            bad.append(c)
    w, _ = tla.judge("FeasibleJudge", bad)
    if any(not w[c["id"]]["bad"] for c in bad):
        raise tla.MachineryError("a corrupted recording was accepted")
    ctx.add("corrupted_recordings_rejected", len(bad))
