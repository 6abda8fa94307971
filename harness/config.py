"""C24: which configurations are accepted."""
from . import env  # noqa: F401
import random

import numpy as np
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.linear_model import LinearRegression

from pySOT.experimental_design import ExperimentalDesign, LatinHypercube, SymmetricLatinHypercube, TwoFactorial
from pySOT.optimization_problems import OptimizationProblem
from pySOT.strategy import DYCORSStrategy, EIStrategy, LCBStrategy, RandomStrategy, SOPStrategy, SRBFStrategy
from pySOT.surrogate import ConstantTail, CubicKernel, GPRegressor, LinearKernel, LinearTail, PolyRegressor, RBFInterpolant, TPSKernel
from pySOT.utils import check_opt_prob

from . import main, tla

CLS = {"srbf": SRBFStrategy, "dycors": DYCORSStrategy, "sop": SOPStrategy, "ei": EIStrategy, "lcb": LCBStrategy, "random": RandomStrategy}


class Duck:
    """Something that looks right but is of no documented kind."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Prob(OptimizationProblem):
    def __init__(self, dim, lb, ub, ints, cont):
        self.dim, self.lb, self.ub, self.int_var, self.cont_var, self.info = dim, lb, ub, ints, cont, ""
        self.asked = 0

    def eval(self, x):
        self.asked += 1
        return float(np.sum(x))


class Des(ExperimentalDesign):
    def __init__(self, dim, num_pts):
        self.dim, self.num_pts = dim, num_pts

    def generate_points(self, lb=None, ub=None, int_var=None):
        X = lb + (ub - lb) * np.random.rand(self.num_pts, self.dim)
        if len(int_var):
            X[:, int_var] = np.round(X[:, int_var])
        return X


def problem(kind, d, rng):
    lb, ub = np.array([rng.choice([-2., 0., 1.]) for _ in range(d)]), np.array([rng.choice([3., 8., 10.]) for _ in range(d)])
    v = list(range(d))
    ni = {"good": 0, "mixed": max(1, d - 1), "integers": d}.get(kind, rng.randint(0, d))
    sh = v[:]
    rng.shuffle(sh)
    ints, cont = sorted(sh[:ni]), sorted(sh[ni:])
    dim = d
    if kind == "overlap":
        ints, cont = (ints + cont[:1], cont) if cont else (ints, ints[:1])
    elif kind == "missing":
        if cont and (not ints or rng.random() < .5):
            cont = cont[1:]
        else:
            ints = ints[1:]
    elif kind == "twice":
        if cont:
            cont = cont + cont[:1]
        else:
            ints = ints + ints[:1]
    elif kind in ("high", "low"):
        x = d if kind == "high" else -1
        if cont:
            cont = cont[:-1] + [x]
        else:
            ints = ints[:-1] + [x]
    elif kind == "floatdim":
        dim = float(d)
    j = rng.randrange(d)
    if kind == "shortlb":
        lb = lb[:-1]
    elif kind == "longub":
        ub = np.append(ub, 9.)
    elif kind == "equal":
        ub[j] = lb[j]
    elif kind == "swapped":
        lb[j], ub[j] = ub[j], lb[j]
    elif kind == "nan":
        (lb if rng.random() < .5 else ub)[j] = np.nan
    elif kind == "listlb":
        lb = list(lb)
    elif kind == "listub":
        ub = list(ub)
    a = (dim, lb, ub, np.array(ints, dtype=int), np.array(cont, dtype=int))
    if kind == "none":
        return None
    if kind == "type":
        return Duck(dim=dim, lb=lb, ub=ub, int_var=a[3], cont_var=a[4], asked=0, eval=None)
    return Prob(*a)


def strategy(c, rng, d):
    """Keyword arguments for a configuration."""
    p = problem(c["prob"], d, rng)
    lo, hi = np.zeros(d), np.ones(d)
    n0 = rng.choice([d + 1, 2 * (d + 1)])
    if c["batch"] == "five" or c["batch"] == "four":
        n0 = max(n0, 6)
    kw = {"opt_prob": p}
    m = n0 + rng.choice([1, 10])
    kw["max_evals"] = {"above": m, "equal": n0, "numpy": np.int64(m), "below": n0 - 1, "zero": 0, "negative": -rng.choice([1, m]), "float": float(m), "nan": float("nan"), "none": None,
                       "text": str(m), "array": np.array([m])}[c["budget"]]
    if c["s"] == "random":
        return kw, p
    dd = {"bigger": d + 1, "smaller": d - 1}.get(c["design"], d)
    des = Des(dd, n0)
    if c["design"] == "good":
        k = rng.randrange(4)
        if k == 0:
            des = SymmetricLatinHypercube(d, n0, iterations=20) if n0 > d + 1 else LatinHypercube(d, n0 + 2, iterations=20)
        elif k == 1:
            des = LatinHypercube(dim=d, num_pts=n0 + 2, iterations=20)
        elif k == 2 and d > 1:
            des = TwoFactorial(d)
        n = des.num_pts
        kw["max_evals"] = {"above": n + m - n0, "equal": n, "numpy": np.int64(n + 2), "below": n - 1, "float": float(n + 3)}.get(c["budget"], kw["max_evals"])
    elif c["design"] == "type":
        des = Duck(dim=d, num_pts=n0, generate_points=Des(d, n0).generate_points)
    elif c["design"] == "none":
        des = None
    kw["exp_design"] = des
    sd = {"bigger": d + 1, "smaller": d - 1}.get(c["sur"], d)
    rbf = RBFInterpolant(sd, np.zeros(sd), np.ones(sd), kernel=CubicKernel(), tail=LinearTail(sd))
    gp = GPRegressor(sd, np.zeros(sd), np.ones(sd))
    own = gp if c["s"] in ("ei", "lcb") else rng.choice([rbf, PolyRegressor(sd, np.zeros(sd), np.ones(sd))])
    kw["surrogate"] = {"good": own, "gp": gp, "rbf": rbf, "type": Duck(**dict(gp.__dict__)), "none": None}.get(c["sur"], own)
    kw["asynchronous"] = c["async"]
    kw["batch_size"] = {"none": None, "one": 1, "two": 2, "four": 4, "five": 5, "numpy": np.int32(2), "zero": 0, "negative": -2, "float": 2.0, "half": 1.5, "text": "2"}[c["batch"]]
    k = rng.randint(1, 3)
    pts = np.clip(np.round(3 * np.random.rand(k, d)) + 0., 1, 2)
    val = np.arange(float(k)).reshape(-1, 1)
    kw.update({"none": {}, "points": {"extra_points": pts}, "values": {"extra_points": pts, "extra_vals": val}, "unknown": {"extra_points": pts, "extra_vals": np.nan * val},
               "wide": {"extra_points": np.ones((k, d + 1))}, "narrow": {"extra_points": np.ones((k, d - 1))}, "flat": {"extra_points": np.ones(d)},
               "few": {"extra_points": pts, "extra_vals": val[:-1]}, "many": {"extra_points": pts, "extra_vals": np.vstack((val, [[7.]]))}}[c["extras"]])
    if c["s"] in ("srbf", "dycors"):
        w = {"list": [.3, .5, .9], "array": np.array([.2, 1., .4]), "ends": [0.0, 1.0], "single": [.5], "empty": [], "emptyarray": np.array([]), "negative": [.3, -1e-9], "big": [.3, 1.0000001],
             "nan": [.5, float("nan")], "tuple": (.3, .5), "text": "0.5", "number": .5}
        if c["weights"] != "none":
            kw["weights"] = w[c["weights"]]
    if c["s"] in ("srbf", "dycors", "sop"):
        kw["num_cand"] = 20
    if c["s"] == "sop" and rng.random() < .5:
        kw["ncenters"] = rng.choice([4, np.int64(4)])
    return kw, p


def made(f):
    try:
        return True, f()
    except Exception as ex:
        return False, "%s: %s" % (type(ex).__name__, ex)


class Quiet(GaussianProcessRegressor):
    pass


def case(job):
    rng = random.Random(job["seed"])
    np.random.seed(job["seed"] % 2 ** 31)
    c, asked, works = job["c"], 0, True
    if job["what"] == "strategy":
        kw, p = strategy(c, rng, rng.choice([2, 2, 3, 4]))
        ok, s = made(lambda: CLS[c["s"]](**kw))
        asked = getattr(p, "asked", 0)
        if ok:
            good, a = made(s.propose_action)
            works = good and a is not None and a.action == "eval" and len(a.args[0]) == p.dim
    elif job["what"] == "problem":
        f = lambda x: np.array([float("nan") if v == -99 else float(v) for v in x])
        var = lambda x: np.array(x, dtype=int) if x or rng.random() < .5 else np.array([])
        ok, s = made(lambda: check_opt_prob(Prob(c["d"], f(c["lb"]), f(c["ub"]), var(c["ints"]), var(c["cont"]))))
    else:
        d = c["d"]
        if c["kind"] == "gp":
            g = {"none": None, "gp": rng.choice([GaussianProcessRegressor, Quiet])(), "type": LinearRegression(), "other": "gp"}[c["gp"]]
            ok, s = made(lambda: GPRegressor(d, np.zeros(d), np.ones(d), gp=g))
        else:
            k = {"none": None, "cubic": CubicKernel(), "tps": TPSKernel(), "linear": LinearKernel(), "type": Duck(order=1, eval=np.abs, deriv=np.abs)}[c["kernel"]]
            t = {"none": None, "linear": LinearTail(c["td"]), "constant": ConstantTail(c["td"]), "type": Duck(degree=1, dim=d, dim_tail=d + 1)}[c["tail"]]
            ok, s = made(lambda: RBFInterpolant(d, np.zeros(d), np.ones(d), kernel=k, tail=t))
    return {"id": job["id"], "what": job["what"], "c": c, "made": ok, "works": bool(works), "asked": asked, "x": s if not ok else ""}


def check(ctx):
    rng = ctx.rng
    r = ctx.tlc("ConfigGen", cfgtext="CONSTANT N = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ctx.pick(2, 3))
    cases = sorted(r.lines("CASE"), key=str)
    uniq = {}
    for c in cases:
        uniq[str(c)] = c
    cases = list(uniq.values())
    kinds = {k: [c for c in cases if c["what"] == k] for k in ("strategy", "problem", "model")}
    ctx.cov["configurations_of_the_specification"] = {k: len(x) for k, x in kinds.items()}
    jobs = []
    for k, lim in (("strategy", ctx.pick(9000, 10 ** 9)), ("problem", ctx.pick(6000, 10 ** 9)), ("model", 10 ** 9)):
        jobs += kinds[k] if len(kinds[k]) <= lim else rng.sample(kinds[k], lim)
    jobs = [dict(c, id=i, seed=rng.randint(0, 2 ** 30)) for i, c in enumerate(jobs)]
    order = jobs[:]
    rng.shuffle(order)
    res = main.results("harness.config:case", order, chunk=64)
    v = {}
    for i in range(0, len(res), 8000):
        v.update(ctx.judge("ConfigJudge", res[i:i + 8000]))
    ctx.cov["accepted"] = sum(c["made"] for c in res)
    ctx.cov["refused"] = sum(not c["made"] for c in res)
    for c in res:
        for b in v[c["id"]]["bad"]:
            ctx.violate("C24: %s: %s" % (c["what"], b), {"job": jobs[c["id"]], "seen": c})
    ctx.sample(jobs[0])
    if ctx.violations:
        return
    bad = [dict(c, made=not c["made"]) for c in rng.sample(res, 300)]
    w, _ = tla.judge("ConfigJudge", bad)
    if any(not w[c["id"]]["bad"] for c in bad):
        raise tla.MachineryError("a corrupted recording was accepted")
    ctx.add("corrupted_recordings_rejected", len(bad))
