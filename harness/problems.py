"""C23: the test problems."""
from . import env  # noqa: F401
import inspect
import random

import numpy as np
import scipy.optimize as sco

import pySOT.optimization_problems as problems
from pySOT.utils import check_opt_prob

from . import main, tla

UNIT = {"Rastrigin": .25, "Perm": 1., "Branin": 1., "Exponential": 1., "Griewank": 3., "Hartmann3": .125, "Hartmann6": .125, "Levy": 1., "Michalewicz": np.pi / 8, "Schwefel": 32.,
        "Weierstrass": .25}  # others .5
PRIMES = (46337, 46327, 46309)
SCALE = {"Ackley": 10 ** 6, "Levy": 10 ** 6, "Michalewicz": 10 ** 6, "Branin": 1000, "Exponential": 1000}
EXACT = {"Sphere", "SumOfSquares", "Rosenbrock", "Zakharov", "GoldsteinPrice", "Himmelblau", "SixHumpCamel", "Perm", "Rastrigin"}
# lattices for sampled points: problem -> range of u, largest dimension
WIDE = {"Sphere": (-10, 10, 10), "SumOfSquares": (-10, 10, 10), "Rosenbrock": (-4, 4, 10), "Zakharov": (-10, 20, 8), "GoldsteinPrice": (-4, 4, 2), "Himmelblau": (-10, 10, 10),
        "SixHumpCamel": (-6, 6, 2), "Perm": (-2, 2, 3), "Rastrigin": (-20, 20, 10), "Ackley": (-8, 8, 6), "Branin": (-5, 10, 2), "Exponential": (-5, 3, 4), "Griewank": (-8, 8, 6),
        "Hartmann3": (0, 8, 3), "Hartmann6": (0, 8, 6), "Levy": (-5, 5, 6), "Michalewicz": (0, 8, 6), "Schwefel": (-16, 16, 6), "Weierstrass": (-20, 20, 6)}
# problems that are also sampled in up to 20 dimensions, at points most of whose coordinates are this
SPARSE = {"Sphere": 0, "SumOfSquares": 0, "Rosenbrock": 0, "Zakharov": 0, "Himmelblau": 0, "Rastrigin": 0, "Exponential": 0, "Griewank": 0, "Levy": 1, "Michalewicz": 0, "Schwefel": 0}
FIXED = {"Branin": 2, "GoldsteinPrice": 2, "SixHumpCamel": 2, "Hartmann3": 3, "Hartmann6": 6}


def make(name, d):
    cls = getattr(problems, name)
    return cls() if name in FIXED else cls(dim=d) if d % 2 else cls(d)


def den(name, n):
    return {"Sphere": 4, "SumOfSquares": 4, "Rosenbrock": 4, "Zakharov": 256, "GoldsteinPrice": 256, "Himmelblau": 32 * n, "SixHumpCamel": 960, "Rastrigin": 16,
            "Perm": (1, 2, 6, 12)[min(n, 4) - 1] ** (2 * n)}[name]


def formula(job):
    name, u = job["name"], job["u"]
    out = {"id": job["id"], "kind": "formula", "name": name, "u": u, "exc": "", "whole": False, "res": [0, 0, 0], "fix": 0}
    try:
        v = float(make(name, len(u)).eval(np.array(u, dtype=float) * UNIT.get(name, .5)))
        if name in EXACT:
            s = v * den(name, len(u))
            if abs(s) < 2.0 ** 52:
                n = round(s)
                out["whole"] = bool(abs(s - n) <= 1e-6 + 1e-11 * abs(s) and abs(s - n) < .3)
                out["res"] = [n % p for p in PRIMES]
        else:
            out["fix"] = int(max(-2e9, min(2e9, round(v * SCALE.get(name, 10 ** 4)))))
    except Exception as ex:
        out["exc"] = "%s: %s" % (type(ex).__name__, ex)
    return out


def declared(p):
    return [np.array(getattr(p, k), dtype=float).ravel().tolist() for k in ("dim", "lb", "ub", "int_var", "cont_var")] + \
        [np.array(getattr(p, k), dtype=float).ravel().tolist() for k in ("min", "minimum") if hasattr(p, k)]


def obj(job):
    name, d = job["name"], job["d"]
    rng = random.Random(job["seed"])
    nr = np.random.RandomState(job["seed"] % 2 ** 31)
    out = {"id": job["id"], "kind": "object", "name": name, "d": d, "exc": "", "lb": [], "ub": [], "ints": [], "cont": [], "accepted": False, "hasmin": False, "min": [], "low": 0,
           "high": 0, "fmin": 0, "calls": [], "intact": True, "wrong": []}
    try:
        p = make(name, d)
        before = declared(p)
        lb, ub = np.array(p.lb, dtype=float), np.array(p.ub, dtype=float)
    except Exception as ex:
        out["exc"] = "%s: %s" % (type(ex).__name__, ex)
        return out
    if job["default"] and name not in FIXED:
        try:
            q = getattr(problems, name)()
            out["accepted"] = q.dim == len(q.lb) == len(q.ub)
        except Exception:
            out["accepted"] = False
    else:
        out["accepted"] = True
    try:
        check_opt_prob(p)
    except Exception:
        out["accepted"] = False
    out["ints"], out["cont"] = [int(v) for v in p.int_var], [int(v) for v in p.cont_var]
    ok = lb.shape == ub.shape == (d,) and bool(np.all(lb < ub))
    calls, ids, other = [], {}, [make(name, d)]
    if name not in FIXED:
        other.append(make(name, d + 1))

    def call(q, x):
        y = x.copy()
        try:
            v = q.eval(y)
            v = float(v) if np.ndim(v) == 0 else float("nan")
        except Exception:
            v = float("nan")
        calls.append((ids.setdefault(x.tobytes(), len(ids) + 1), v, bool(np.array_equal(x, y))))
        return v if np.isfinite(v) else 1e300
    hasmin = hasattr(p, "min") and hasattr(p, "minimum") and p.min is not None
    m = np.array(p.minimum, dtype=float).ravel() if hasmin else None
    if ok:
        pts = [lb.copy(), ub.copy(), (lb + ub) / 2, np.clip(np.zeros(d), lb, ub)]
        pts += [np.where(nr.rand(d) < .5, lb, ub) for _ in range(5)]
        pts += [lb + (ub - lb) * nr.rand(d) for _ in range(job["n"])]
        base = m if hasmin and m.shape == (d,) else lb + (ub - lb) * nr.rand(d)
        for s in (1e-4, 1e-2, .1):
            pts += [np.clip(base + s * (ub - lb) * nr.randn(d) * (nr.rand(d) < max(.3, 1. / d)), lb, ub) for _ in range(job["n"] // 4)]
        for x in pts:
            call(p, x)
        for x in rng.sample(pts, min(len(pts), 12)):  # again, on this and another object, with others in between
            if len(other) > 1:
                try:
                    other[1].eval(np.append(x, x[:1]))
                except Exception:
                    pass
            call(rng.choice([p, other[0]]), x)
        if hasmin:
            for k in range(job["starts"]):  # is there a smaller value?
                x0 = pts[rng.randrange(len(pts))]
                try:
                    sco.minimize(lambda x: call(p, np.clip(x, lb, ub)), x0, method=rng.choice(["L-BFGS-B", "Nelder-Mead"]), bounds=list(zip(lb, ub)), options={"maxiter": 30, "maxfun": 300, "maxfev": 300})
                except Exception:
                    pass
    for n in sorted({0, d - 1, d + 1, 2 * d}):
        for x in (np.ones(n), 0.5 * np.zeros(n)):
            try:
                p.eval(x)
                raised = False
            except Exception:
                raised = True
            out["wrong"].append({"len": n, "raised": raised})
    try:
        out["intact"] = declared(p) == before and declared(other[0]) == before
    except Exception:
        out["intact"] = False
    fm, tol = float("nan"), 0
    if hasmin:
        out["hasmin"] = True
        tol = 1e-4 * max(1, abs(float(p.min)), d)
        if m.shape == (d,):
            fm = call(p, m)
    # smallest values only: the others do not matter for the ranks
    vals = {v for _, v, _ in calls if np.isfinite(v)}
    nums = sorted(vals | ({float(p.min) - tol, float(p.min) + tol} if hasmin else set()) | ({fm} if np.isfinite(fm) else set()))
    rk = {v: i + 1 for i, v in enumerate(nums)}
    co = {v: i + 1 for i, v in enumerate(sorted(set(lb.ravel()) | set(ub.ravel()) | (set(m) if hasmin else set())))}
    out["lb"], out["ub"] = [co[v] for v in lb.ravel()], [co[v] for v in ub.ravel()]
    if hasmin:
        out["min"] = [co[v] for v in m]
        out["low"], out["high"], out["fmin"] = rk[float(p.min) - tol], rk[float(p.min) + tol], rk.get(fm, 0)
    out["calls"] = [{"x": x, "v": rk.get(v, 0), "kept": k} for x, v, k in calls]
    return out


def dispatch(job):
    return {"formula": formula, "object": obj}[job[0]](job[1])


def check(ctx):
    rng = ctx.rng
    names = sorted(n for n in problems.__all__ if inspect.isclass(getattr(problems, n)) and n != "OptimizationProblem")
    ctx.assumptions += ["declared minima are rounded: they are compared to 1e-4 max(1, |minimum|, dimension)",
                        "the absence of a smaller value is searched for (samples, neighbourhoods of the minimiser, local searches), not proved",
                        "formulas are compared at lattice points: exactly where they are rational there, to the tolerance of the tables elsewhere"]
    r = ctx.tlc("ProblemGen", cfgtext="CONSTANTS DMAX = %d\nR = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ctx.pick((3, 4), (4, 4)))
    cases = sorted(r.lines("CASE"), key=str)
    ctx.cov["points_of_the_specification"] = len(cases)
    todo = []
    for c in cases:
        n = c["name"]
        lo, hi, dm = WIDE[n]
        u = [max(lo, min(hi, k)) for k in c["u"]] if n != "Branin" else c["u"]
        if len(u) <= dm and n in names:
            todo.append({"name": n, "u": u})
    if not ctx.thorough:
        keep = [c for c in todo if len(c["u"]) < 3]
        big = [c for c in todo if len(c["u"]) >= 3]
        todo = keep + rng.sample(big, min(len(big), 3000))
    for n in names:
        if n not in WIDE:
            ctx.cov.setdefault("problems_without_formula", []).append(n)
            continue
        lo, hi, dm = WIDE[n]
        for _ in range(ctx.pick(60, 2000)):
            d = FIXED.get(n) or rng.randint(1, dm)
            u = [rng.randint(lo, hi) for _ in range(d)]
            if n == "Branin":
                u[1] = rng.randint(0, 15)
            todo.append({"name": n, "u": u})
        for _ in range(ctx.pick(60, 2000) if n in SPARSE else 0):
            d = rng.randint(4, 20)
            u = [SPARSE[n]] * d
            for _ in range(rng.randint(1, 5)):
                k = rng.randrange(d)
                u[k] = rng.randint(lo, 0 if n == "Exponential" and k > 3 else hi)
            todo.append({"name": n, "u": u})
    jobs = [("formula", c) for c in todo]
    for n in names:
        ds = [FIXED[n]] if n in FIXED else sorted(set([1, 2, 3, 4, 5, 6, 10, 20, 50]))
        for d in ds:
            for rep in range(ctx.pick(1 if n not in FIXED else 6, 20)):
                jobs.append(("object", {"name": n, "d": d, "default": rep == 0, "n": ctx.pick(60, 300), "starts": (4 if d <= 6 else 1) * ctx.pick(1, 4) * (0 if n == "Perm" and d > 10 else 1)}))
    for i, (k, j) in enumerate(jobs):
        j.update(id=i, seed=rng.randint(0, 2 ** 30))
    ctx.cov["objects"] = sum(k == "object" for k, _ in jobs)
    ctx.cov["formula_points"] = sum(k == "formula" for k, _ in jobs)
    rng.shuffle(jobs)
    src = {j["id"]: (k, j) for k, j in jobs}
    res = main.results("harness.problems:dispatch", jobs, chunk=32)
    v = {}
    for i in range(0, len(res), 6000):
        v.update(ctx.judge("ProblemJudge", res[i:i + 6000]))
    for c in res:
        for b in v[c["id"]]["bad"]:
            small = {k: x for k, x in c.items() if k != "calls"}
            ctx.violate("C23: %s: %s" % (c["name"], b), {"job": src[c["id"]], "seen": small})
    ctx.sample(jobs[0])
    if ctx.violations:
        return
    bad = []
    for c in res:
        if len(bad) >= 300:
            break
        if c["kind"] == "formula":
            c = dict(c, fix=c["fix"] + 300, res=[(x + 1) % p for x, p in zip(c["res"], PRIMES)])
        else:
            k = rng.randrange(5)
            if k == 0:
                c = dict(c, calls=c["calls"] + [dict(c["calls"][0], v=c["calls"][0]["v"] + 1)])
            elif k == 1:
                c = dict(c, cont=c["cont"][:-1])
            elif k == 2 and c["hasmin"]:
                c = dict(c, low=c["fmin"] + 1)
            elif k == 3:
                c = dict(c, wrong=[dict(w, raised=False) for w in c["wrong"]])
            else:
                c = dict(c, lb=c["ub"], ub=c["lb"])
        bad.append(c)
    w, _ = tla.judge("ProblemJudge", bad)
    if any(not w[c["id"]]["bad"] for c in bad):
        raise tla.MachineryError("a corrupted recording was accepted")
    ctx.add("corrupted_recordings_rejected", len(bad))
