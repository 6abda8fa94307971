"""C11: weighted-distance selection."""
from . import env  # noqa: F401
import random

import numpy as np
from scipy.spatial.distance import cdist

from pySOT.auxiliary_problems import candidate_dycors, candidate_srbf, candidate_uniform
from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit
from pySOT.surrogate.surrogate import Surrogate

from . import driver, main, tla

DIRS = [(1,), (2,), (3, 4), (0, 1), (5, 12), (1, 2, 2), (2, 3, 6), (1, 1, 1, 1), (0, 0, 1)]
S = 3000  # resolution of the approximate judgement


class Table(Surrogate):
    """Predictions by table; remembers what it was asked."""

    def __init__(self, dim, f):
        super().__init__(dim=dim, lb=np.zeros(dim), ub=np.ones(dim))
        self.f, self.asked = f, []

    def predict(self, xx):
        xx = np.atleast_2d(xx)
        y = np.array([[float(self.f(x))] for x in xx])
        self.asked.append((np.array(xx, dtype=float), y.copy()))
        return y

    def predict_deriv(self, xx):
        return np.zeros_like(np.atleast_2d(xx))


def exact(ident, pos, base_pts, f, w, wd, dtol2, sel_pos, exc, lists=True):
    """A selection problem on a line, distances in half units."""
    n = len(pos)
    base = [2 * min(abs(p - q) for q in base_pts) for p in pos]
    pair = [[2 * abs(p - q) for q in pos] for p in pos]
    sel = [[i + 1 for i in range(n) if pos[i] == q] for q in sel_pos]
    return {"id": ident, "kind": "call", "base": base, "pair": pair, "f": [int(v) for v in f], "w": w, "wd": wd, "lo": dtol2, "hi": dtol2, "tol": 0,
            "sel": sel, "exc": exc}


def approx(ident, cand, y, near, w, wd, lo, hi, sel, exc):
    """A selection problem with any distances, in units of 1/S of the range."""
    base = cdist(cand, near).min(axis=1)
    pair = cdist(cand, cand)
    top = base.max() or max(lo, 1.0)
    adm = lambda d: int(min(round(d / top * S), 4 * S))
    # admissibility is decided only away from the minimum distance
    l, h = int(min(np.floor(lo / top * S), 4 * S)), int(min(np.ceil(hi / top * S), 4 * S)) + 1
    y = np.ravel(y)
    r = y.max() - y.min()
    f = [0 if r == 0 else int(round((v - y.min()) / r * S)) for v in y]
    idx = [[i + 1 for i in range(len(cand)) if np.array_equal(cand[i], x)] for x in sel]
    return {"id": ident, "kind": "call", "base": [adm(d) for d in base], "pair": [[adm(d) for d in row] for row in pair], "f": f, "w": w, "wd": wd,
            "lo": max(l - 1, 0), "hi": h, "tol": 3 * wd * S, "sel": idx, "exc": exc}


def direct(job):
    """One call of weighted_distance_merit, judged exactly."""
    rng = random.Random(job["seed"])
    v = np.array(job["dir"], dtype=float)
    L = float(np.linalg.norm(v))
    off = np.array([rng.choice([0, 0, 5, -11]) for _ in v], dtype=float)
    P = lambda k: off + k * v
    pos, X, pend = job["cand"], job["x"], job["pend"]
    f = dict(zip(pos, job["f"]))
    cand = np.array([P(k) for k in pos])
    mul, add = rng.choice([(1, 0), (.5, -3), (1024, 77), (2. ** -20, 0)])
    table = {tuple(P(k)): f[k] * mul + add for k in pos}
    sur = Table(len(v), lambda x: table[tuple(x)])
    exc, sel = "", []
    w = [a / job["wd"] for a in job["w"]]
    try:
        kw = {}
        if pend or rng.random() < .5:
            kw["Xpend"] = np.array([P(k) for k in pend]).reshape(-1, len(v))
        args = [np.array([P(k) for k in X]), np.arange(len(X), dtype=float).reshape(-1, 1), cand]
        keep = [a.copy() for a in args]
        new = weighted_distance_merit(num_pts=len(w), surrogate=sur, X=args[0], fX=args[1], cand=args[2],
                                      weights=w if rng.random() < .5 else np.array(w), dtol=job["dtol2"] * L / 2, **kw)
        new = np.asarray(new, dtype=float).reshape(-1, len(v)) if np.size(new) else np.empty((0, len(v)))
        if any(not np.array_equal(a, b) for a, b in zip(args, keep)):
            exc = "an argument was modified"
        where = {tuple(P(k)): k for k in pos}
        sel = [where.get(tuple(x), 10 ** 6) for x in new]
    except Exception as ex:
        exc = "%s: %s" % (type(ex).__name__, ex)
    return exact(job["id"], pos, list(X) + list(pend), job["f"], job["w"], job["wd"], job["dtol2"], sel, exc)


def general(job):
    """One call with points in general position, judged up to rounding."""
    rng = np.random.RandomState(job["seed"] % (2 ** 31))
    d = job["d"]
    cand, X, pend = rng.rand(job["m"], d), rng.rand(job["nx"], d), rng.rand(job["np"], d)
    a = rng.randn(d)
    sur = Table(d, lambda x: np.sin(5 * x).dot(a))
    dtol = job["dtol"]
    exc, new = "", []
    try:
        new = weighted_distance_merit(num_pts=len(job["w"]), surrogate=sur, X=X, fX=rng.rand(len(X), 1), cand=cand, weights=[w / 20 for w in job["w"]],
                                      Xpend=pend if len(pend) else None, dtol=dtol)
    except Exception as ex:
        exc = "%s: %s" % (type(ex).__name__, ex)
    y = np.array([[np.sin(5 * x).dot(a)] for x in cand])
    return approx(job["id"], cand, y, np.vstack((X, pend)), job["w"], 20, dtol, dtol, new, exc)


def search(job):
    """A whole candidate search: whatever the candidates are, the best of them is chosen."""
    rng = random.Random(job["seed"])
    np.random.seed(job["seed"] % (2 ** 31))
    d = job["d"]
    lb, ub = (0, 30) if job["int"] else (-1.0, 3.0)
    p = driver.Box(d, lb, ub, range(d) if job["int"] else ())
    if job["int"]:
        X = np.random.randint(lb, ub + 1, (job["nx"], d)).astype(float)
        pend = np.random.randint(lb, ub + 1, (job["np"], d)).astype(float)
        fv = [rng.randint(0, 40) for _ in range(31)]
        f = lambda x: fv[int(x[0])] + (3 * x[1] if d > 1 else 0)
    else:
        X, pend = p.lb + (p.ub - p.lb) * np.random.rand(job["nx"], d), p.lb + (p.ub - p.lb) * np.random.rand(job["np"], d)
        a = np.random.randn(d)
        f = lambda x: np.sin(3 * x).dot(a)
    fX = np.array([[float(rng.randint(0, 99))] for _ in X])
    sur = Table(d, f)
    kw = dict(num_pts=len(job["w"]), opt_prob=p, surrogate=sur, X=X, fX=fX, weights=[w / 20 for w in job["w"]], dtol=job["dtol2"] / 2 if job["int"] else job["dtol"],
              num_cand=rng.choice([5, 20, 40]))
    if len(pend):
        kw["Xpend"] = pend
    if d > 1 and rng.random() < .3:
        kw["subset"] = sorted(rng.sample(range(d), rng.randint(1, d)))
    exc, new = "", []
    fun = {"srbf": candidate_srbf, "dycors": candidate_dycors, "uniform": candidate_uniform}[job["fun"]]
    try:
        if job["fun"] != "uniform":
            kw["sampling_radius"] = rng.choice([.2, .1, .0125])
        if job["fun"] == "dycors":
            kw["prob_perturb"] = rng.choice([1, .5, .1])
            if rng.random() < .4:
                kw["xbest"] = X[rng.randrange(len(X))].copy()
        new = fun(**kw)
    except Exception as ex:
        exc = "%s: %s" % (type(ex).__name__, ex)
    if not sur.asked:
        return dict(exact(job["id"], [0], [5], [0], [], 20, 0, [], exc or "no candidates were asked for"))
    cand, y = np.vstack([a for a, _ in sur.asked]), np.vstack([b for _, b in sur.asked])
    if job["int"] and d == 1:
        return exact(job["id"], [int(c[0]) for c in cand], [int(q[0]) for q in X] + [int(q[0]) for q in pend], np.ravel(y), job["w"], 20, job["dtol2"],
                     [int(x[0]) for x in np.atleast_2d(new)] if len(new) else [], exc)
    return approx(job["id"], cand, y, np.vstack((X, pend)), job["w"], 20, kw["dtol"], kw["dtol"], new, exc)


class ChoiceRun(driver.Run):
    """Records the choices of a strategy: candidates, predictions, near points, chosen points."""

    def __init__(self, *a):
        super().__init__(*a)
        self.choices, self.open, self.count, self.back = [], None, 0, []

    def ask(self, ctl, accept, hold=False):
        s = ctl.strategy
        self.rec.predicts = []
        pend = np.array(s.Xpend, dtype=float)
        n = len(self.rec.events)
        r = super().ask(ctl, accept, hold)
        e = self.rec.events[n]
        b = 1 if self.spec["async"] else self.spec["b"]
        if e["designs"]:
            self.open, self.back = None, []
        elif e["gens"] and self.rec.predicts:
            X = np.array([self.rec.pts[i - 1] for i in e["gens"][0]["X"]])
            self.open = {"cand": np.vstack([a for a, _ in self.rec.predicts]), "y": np.vstack([b for _, b in self.rec.predicts]),
                         "near": np.vstack((X, pend)), "sel": [], "before": self.count}
            self.count += b
            self.back = []
        if r == "eval" and self.open is not None and not e["designs"]:
            if e["p"] in self.back:
                self.back.remove(e["p"])
            elif len(self.open["sel"]) < b:
                self.open["sel"].append(self.rec.pts[e["p"] - 1])
                if len(self.open["sel"]) == b:
                    self.choices.append(self.open)
            if self.rec.events[-1]["op"] == "reject" and not self.spec["async"]:
                self.back.append(e["p"])
        self.rec.predicts = None
        return r


def run(job):
    spec, ops = job
    r = ChoiceRun(spec, ops)
    r.run()
    d = spec["dim"]
    wd = 20
    ch = []
    for c in r.choices[: spec.get("maxchoices", 30)]:
        a = approx(0, c["cand"], c["y"], c["near"], [], wd, 1e-3, 1e-3 * max(1.0, d ** .5), c["sel"], "")
        ch.append({"before": c["before"], "base": a["base"], "pair": a["pair"], "f": a["f"], "w": [], "wd": wd, "lo": a["lo"], "hi": a["hi"],
                   "tol": a["tol"], "sel": a["sel"], "exc": ""})
    ws = [int(round(20 * w)) for w in spec["weights"]] if spec["kind"] != "sop" else [20]
    return {"id": spec["id"], "kind": "run", "weights": ws, "choices": ch}


def run_job(rng, ident):
    kind = rng.choice(["srbf", "srbf", "dycors", "dycors", "sop"])
    d = rng.choice([1, 2, 3, 5])
    sp = dict(id=ident, kind=kind, n0=d + 2, M=rng.choice([30, 60]), b=rng.choice([1, 2, 3]), W=d + 1, restarts=True, seed=rng.randint(0, 10 ** 6), dim=d,
              nodrain=True, ncand=rng.choice([8, 15]), wavy=rng.choice([3, 6, 11]), maxchoices=25)
    sp["weights"] = rng.choice([[0.3, 0.5, 0.8, 0.95], [0.0, 1.0], [1.0, 0.0, 0.5], [0.5], [0.0, 0.25, 0.5, 0.75, 1.0], [1.0, 1.0, 0.0]])
    sp["async"] = kind == "sop" or rng.random() < .5
    if rng.random() < .3:
        sp["grid"] = rng.choice([3, 9, 50])
    ops = []
    for _ in range(rng.randint(60, 140)):
        u = rng.random()
        ops.append(("x",) if u < .08 else ("a",) if u < .5 else ("f", rng.randrange(5), 0) if u < .55 else ("c",) if u < .57 else ("d", rng.randrange(5), rng.randint(-50, 50)))
    return sp, ops


def check(ctx):
    rng = ctx.rng
    ctx.assumptions += ["candidates and predictions of a strategy are seen through surrogate.predict; chosen points through its proposals",
                        "with real-valued distances merits closer than 1/1000 of their range are not told apart (integer cases are exact)"]
    r = ctx.tlc("MeritGen", workers=4, cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS P=3 MAXX=%d MAXF=%d\n" % (ctx.pick(1, 2), ctx.pick(1, 2)))
    cases = sorted(r.lines("CASE"), key=str)
    ctx.cov["selection_problems_of_the_specification"] = len(cases)
    jobs, direct_n = [], 0
    for c in rng.sample(cases, min(len(cases), ctx.pick(4000, 40000))):
        cand = sorted(c["cand"])
        jobs.append(("direct", dict(cand=cand, x=sorted(c["x"]), pend=sorted(c["pend"]), f=[c["f"][k] for k in cand], w=c["w"], wd=2, dtol2=2 * c["dtol"], dir=rng.choice(DIRS))))
    for _ in range(ctx.pick(2500, 40000)):
        m = rng.randint(1, 12)
        lo, hi = rng.choice([(0, 5), (-20, 20), (0, 40)])
        cand = [rng.randint(lo, hi) for _ in range(m)]
        tab = {k: rng.randint(0, rng.choice([1, 5, 40])) for k in range(lo, hi + 1)}
        jobs.append(("direct", dict(cand=cand, x=[rng.randint(lo, hi) for _ in range(rng.randint(1, 6))], pend=[rng.randint(lo, hi) for _ in range(rng.randint(0, 3))],
                                    f=[tab[k] for k in cand], w=[rng.choice([0, 6, 10, 16, 19, 20, rng.randint(0, 20)]) for _ in range(rng.randint(1, 4))], wd=20,
                                    dtol2=rng.choice([0, 0, 1, 2, 2, 3, 4, 8]), dir=rng.choice(DIRS))))
    for _ in range(ctx.pick(400, 5000)):
        jobs.append(("general", dict(d=rng.randint(2, 6), m=rng.choice([rng.randint(1, 25), 120]) if rng.random() < .2 else rng.randint(1, 25), nx=rng.choice([1, 2, 5, 10, 150]), np=rng.choice([0, 1, 4, 60]), dtol=rng.choice([0, 1e-3, .1, .3]),
                                     w=[rng.randint(0, 20) for _ in range(rng.randint(1, 4))])))
    for _ in range(ctx.pick(500, 6000)):
        jobs.append(("search", dict(d=rng.choice([1, 1, 2, 3]), int=rng.random() < .6, fun=rng.choice(["srbf", "dycors", "uniform"]), nx=rng.choice([1, 3, 5, 8, 120]), np=rng.choice([0, 0, 1, 4]),
                                    dtol=rng.choice([1e-3, .2]), dtol2=rng.choice([1, 2, 4]), w=[rng.randint(0, 20) for _ in range(rng.randint(1, 4))])))
    for i, (k, j) in enumerate(jobs):
        j.update(id=i, seed=rng.randint(0, 2 ** 30))
    res = main.results("harness.merit:dispatch", jobs, chunk=64)
    ctx.cov["calls"] = {k: sum(a == k for a, _ in jobs) for k in ("direct", "general", "search")}
    for i in range(0, len(res), 5000):
        v = ctx.judge("MeritJudge", res[i:i + 5000])
        for c in res[i:i + 5000]:
            for b in v[c["id"]]["bad"]:
                ctx.violate("C11: %s: %s" % (jobs[c["id"]][0], b), {"job": jobs[c["id"]], "judged": c})
    runs = [run_job(rng, i) for i in range(ctx.pick(90, 900))]
    tr = [t for t in main.results("harness.merit:run", runs, chunk=2) if t is not None and t["choices"]]
    ctx.cov["choices_of_strategies"] = sum(len(t["choices"]) for t in tr)
    for i in range(0, len(tr), 100):
        v = ctx.judge("MeritJudge", tr[i:i + 100])
        for t in tr[i:i + 100]:
            for b in v[t["id"]]["bad"]:
                ctx.violate("C11: %s: %s" % ("run", b), {"spec": runs[t["id"]][0], "schedule": runs[t["id"]][1], "choice": v[t["id"]]["at"]})
    for k in ("direct", "general", "search"):
        ctx.sample(next(j for j in jobs if j[0] == k))
    # choosing another candidate, or skipping a weight, must be rejected
    bad = []
    if not ctx.violations:
        for c in res:
            if c["tol"] == 0 and len(c["f"]) > 2 and c["sel"] and len(bad) < 200 and c["hi"] > 0:
                near = [i for i in range(len(c["f"])) if c["base"][i] == 0]
                ok = [i for i in range(len(c["f"])) if c["base"][i] >= c["hi"]]
                if near and ok:
                    bad.append(dict(c, sel=[[near[0] + 1]] + c["sel"][1:]))
        w, _ = tla.judge("MeritJudge", bad)
        if any(not w[c["id"]]["bad"] for c in bad):
            raise tla.MachineryError("a corrupted recording was accepted")
        off = [dict(t, choices=[dict(c, before=c["before"] + 1) for c in t["choices"]]) for t in tr if len(set(t["weights"])) > 1][:20]
        w, _ = tla.judge("MeritJudge", off)
        n = sum(bool(x["bad"]) for x in w.values())
        if n < len(off) * .6:
            raise tla.MachineryError("shifted weights were accepted in %d of %d runs" % (len(off) - n, len(off)))
        ctx.add("corrupted_recordings_rejected", len(bad) + n)


def dispatch(job):
    return {"direct": direct, "general": general, "search": search}[job[0]](job[1])
