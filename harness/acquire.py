"""C13: expected improvement and lower confidence bound."""
from . import env  # noqa: F401
import random

import numpy as np

from pySOT.auxiliary_problems import ei_ga, ei_merit, lcb_ga, lcb_merit
from pySOT.surrogate import GPRegressor

from . import driver, main, tla


class Tab:
    """Predictions by table."""

    def __init__(self, pts, mu, sn):
        self.t = {tuple(float(v) for v in p): (float(m), s / 4) for p, m, s in zip(pts, mu, sn)}

    def predict(self, X):
        return np.array([[self.t[tuple(x)][0]] for x in np.atleast_2d(X)])

    def predict_std(self, X):
        return np.array([[self.t[tuple(x)][1]] for x in np.atleast_2d(X)])


def number(v, sig):
    out = {"zero": bool(v == 0), "inf": bool(np.isinf(v)), "m": 0, "e": 0}
    b = v / sig
    if np.isfinite(b) and b > 0:
        e = 0
        while b * 10.0 ** e < 1e5 and e < 300:
            e += 1
        out["m"], out["e"] = int(min(round(b * 10.0 ** e), 2 * 10 ** 9)), e
    elif b < 0:
        out["m"] = -1
    return out


def merit(job):
    rng = random.Random(job["seed"])
    d = rng.randint(1, 3)
    pts, mu, sn = {}, [], []
    best = rng.randint(-6, 6)
    for _ in range(rng.randint(1, 12)):
        pts.setdefault(tuple(rng.randint(0, 6) for _ in range(d)), (best - rng.randint(-3, 3), rng.choice([2, 4, 8, 16])))
    mu, sn = [v[0] for v in pts.values()], [v[1] for v in pts.values()]
    if rng.random() < .3:  # improvements far in the tails
        sn = [rng.choice([4, 8]) for _ in sn]
        mu = [best - rng.randint(-10, 10) for _ in mu]
    pts = list(pts)
    mu = [m if abs(16 * (best - m)) <= 40 * s else best for m, s in zip(mu, sn)]
    what, dt, kap = job["what"], rng.choice([0, 0, 1, 2, 3, 4, 6, 10]), rng.choice([0, 1, 2, 4, 7])
    near = [tuple(rng.randint(0, 6) for _ in range(d)) for _ in range(rng.choice([1, 2, 3, 4, 70]) if d > 1 else rng.randint(1, 4))]
    nf = rng.choice([4, 4, 80])
    fX = np.array([[float(best + k)] for k in rng.sample(range(0, 2 * nf), nf)])
    fX[rng.randrange(nf)] = best
    exc, val = "", []
    try:
        kw = dict(X=np.array(pts, dtype=float), surrogate=Tab(pts, mu, sn), fX=fX)
        if dt or rng.random() < .5:
            kw["XX"] = np.array(near, dtype=float)
        if dt or rng.random() < .5:
            kw["dtol"] = dt / 2
        if what == "ei":
            v = np.ravel(ei_merit(**kw))
            val = [number(x, s / 4) for x, s in zip(v, sn)]
        else:
            if kap != 4 or rng.random() < .5:
                kw["kappa"] = kap / 2
            v = np.ravel(lcb_merit(**kw))
            val = [{"zero": False, "inf": bool(np.isposinf(x)), "m": int(8 * x) if np.isfinite(x) and 8 * x == int(8 * x) else 10 ** 9, "e": 0} for x in v]
    except Exception as ex:
        exc = "%s: %s" % (type(ex).__name__, ex)
    return {"id": job["id"], "kind": "merit", "what": what, "pts": [list(p) for p in pts], "mu": mu, "sn": sn, "kap": kap, "dt": dt, "near": [list(p) for p in near],
            "best": best, "val": val, "exc": exc}


def search(job):
    rng = random.Random(job["seed"])
    np.random.seed(job["seed"] % (2 ** 31))
    pts, mu, sn, X, dt, n, what = (job[k] for k in ("pts", "mu", "sn", "x", "dt", "n", "what"))
    d = len(pts[0])
    hi = max(p[0] for p in pts)
    prob = driver.Box(d, 0, hi, range(d))
    best, kap = job["best"], job["kap"]
    Xe = np.array(X, dtype=float)
    fX = np.array([[float(best + k)] for k in range(len(X))])
    np.random.shuffle(fX)
    k = rng.randint(0, len(X) - 1)  # the last ones are pending
    kw = dict(num_pts=n, opt_prob=prob, surrogate=Tab(pts, mu, sn), X=Xe[:len(X) - k], fX=fX[:len(X) - k], dtol=dt / 2)
    if k:
        kw["Xpend"] = Xe[len(X) - k:]
        kw["fX"][0] = best
    exc, new = "", None
    nothr = False
    try:
        if what == "ei":
            new = ei_ga(ei_tol=job["thr"] / 1e6, **kw)
        else:
            nothr = job["thr"] is None
            new = lcb_ga(kappa=kap / 2, lcb_target=None if nothr else job["thr"] / 8, **kw)
    except Exception as ex:
        exc = "%s: %s" % (type(ex).__name__, ex)
    sel = [] if new is None else [pts.index([int(v) for v in x]) + 1 if list(x) == [int(v) for v in x] and [int(v) for v in x] in pts else 0 for x in np.atleast_2d(new)]
    thr = 0 if nothr else -job["thr"] if what == "ei" else job["thr"]
    return {"id": job["id"], "kind": "search", "what": what, "pts": pts, "mu": mu, "sn": sn, "kap": kap, "dt": dt, "near": X, "best": best,
            "n": n, "thr": thr, "nothr": nothr, "none": new is None, "sel": sel, "exc": exc, "all": d == 1}


class TabGP(GPRegressor):
    def __init__(self, dim, lb, ub, tab):
        super().__init__(dim=dim, lb=lb, ub=ub)
        self.tab = tab

    def predict(self, xx):
        driver.CUR.queried(self.X, self.fX)
        return self.tab.predict(xx)

    def predict_std(self, xx):
        driver.CUR.queried(self.X, self.fX)
        return self.tab.predict_std(xx)


def curve(c):
    """Predictions over a wide domain have one smooth valley."""
    if "at" not in c:
        return c["mu"], c["sn"]
    return [min(abs(k - c["at"]) // 8 - 4, 4) for k in range(c["grid"] + 1)], [8] * (c["grid"] + 1)


class GPRun(driver.Run):
    def __init__(self, spec, ops):
        super().__init__(spec, ops)
        self.choices, self.open = [], None

    def surrogate(self, p):
        c = self.spec
        mu, sn = curve(c)
        return TabGP(1, p.lb, p.ub, Tab([[k] for k in range(c["grid"] + 1)], mu, sn))

    def ask(self, ctl, accept, hold=False):
        s = ctl.strategy
        pend = [int(x[0]) for x in np.array(s.Xpend)]
        hist = [float(v) for v in np.ravel(s.fX)]
        n = len(self.rec.events)
        r = super().ask(ctl, accept, hold)
        e = self.rec.events[n]
        b = 1 if self.spec["async"] else self.spec["b"]
        if e["gens"]:
            g = e["gens"][0]
            X = [int(self.rec.pts[i - 1][0]) for i in g["X"]]
            conv = bool(e["designs"]) or e["o"]["c"] or r != "eval"
            tol = self.spec["tol"]
            best, low = min(g["F"]), min(hist)
            if self.spec["kind"] == "ei":
                thr = thr2 = -int(round(1e6 * (tol if tol is not None else 1e-6 * (max(hist) - min(hist)))))
                if tol is None:
                    thr2 = -int(round(max(g["F"]) - min(g["F"])))
            else:
                gap = tol if tol is not None else 1e-6 * (max(hist) - min(hist))
                gap2 = tol if tol is not None else 1e-6 * (max(g["F"]) - best)
                thr, thr2 = int(np.floor(8 * (low - gap))), int(np.floor(8 * (best - gap2)))
            self.open = {"near": [[x] for x in X + pend], "best": int(best), "n": b, "thr": thr, "thr2": thr2, "none": conv, "sel": []}
            if conv:
                self.choices.append(self.open)
                self.open = None
        if r == "eval" and self.open is not None and not e["designs"]:
            self.open["sel"].append(int(self.rec.pts[e["p"] - 1][0]) + 1)
            if len(self.open["sel"]) == b:
                self.choices.append(self.open)
                self.open = None
        return r


def run(job):
    spec, ops = job
    r = GPRun(spec, ops)
    t = r.run()
    exc = t["exc"] or next((e["exc"] for e in t["ev"] if e["exc"]), "")
    mu, sn = curve(spec)
    return {"id": spec["id"], "kind": "run", "what": spec["kind"], "pts": [[k] for k in range(spec["grid"] + 1)], "mu": mu, "sn": sn, "all": "at" not in spec,
            "kap": spec["kap"], "dt": spec["dt"], "choices": r.choices, "x": exc}


def run_job(rng, ident):
    kind = rng.choice(["ei", "lcb"])
    N = rng.choice([7, 15, 24])
    sp = dict(id=ident, kind=kind, dim=1, grid=N, n0=rng.randint(3, 4), W=2, b=rng.randint(1, 3), restarts=rng.random() < .6, seed=rng.randint(0, 10 ** 6), nodrain=True,
              mu=[rng.randint(-4, 4) for _ in range(N + 1)], sn=[rng.choice([1, 2, 4, 8, 16]) for _ in range(N + 1)], kap=rng.choice([4, 4, 1, 6]), dt=rng.choice([2, 2, 4, 5]))
    sp["async"] = rng.random() < .6
    sp["M"] = sp["n0"] + 16
    kw = {"dtol": sp["dt"] / 2}
    sp["tol"] = rng.choice([.05, .5, 2.0]) if rng.random() < .7 else None
    if kind == "lcb":
        kw["kappa"] = sp["kap"] / 2
        if sp["tol"] is not None:
            sp["tol"] = rng.choice([.25, 1.125, 3.0])
            kw["lcb_tol"] = sp["tol"]
    elif sp["tol"] is not None:
        kw["ei_tol"] = sp["tol"]
    if rng.random() < .2:  # a wide domain, where the documented default of the separation distance counts
        sp.update(grid=4500, at=rng.randint(200, 4300), dt=9)
        del kw["dtol"]
    sp["kw"] = kw
    ops = []
    far = rng.choice([0, 10 ** 6, 4 * 10 ** 6, 10 ** 7]) if sp["tol"] is None else 0  # values that make the default thresholds large
    for _ in range(30):
        u = rng.random()
        ops.append(("a",) if u < .5 else ("x",) if u < .53 and sp["async"] else ("d", rng.randrange(3), far if far and rng.random() < .2 else rng.randint(-4, 6)))
    return sp, ops


def dispatch(job):
    return {"merit": merit, "search": search}[job[0]](job[1])


def check(ctx):
    rng = ctx.rng
    ctx.assumptions += ["the analytic expected improvement is tabulated for z = -10, -9.75, .., 10 (tools/eitable.py); the merit is compared to six digits there",
                        "one-dimensional integer domains have at most 25 points, so that the genetic algorithm visits all of them"]
    r = ctx.tlc("AcquireGen", workers=4, cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    cases = sorted(r.lines("CASE"), key=str)
    ctx.cov["search_problems_of_the_specification"] = len(cases)
    jobs = [("merit", dict(what=rng.choice(["ei", "lcb"]))) for _ in range(ctx.pick(2000, 30000))]
    for c in rng.sample(cases, ctx.pick(500, 8000)):
        what = rng.choice(["ei", "lcb"])
        low = c["thr"] == "low"
        thr = (1 if low else 1500000) if what == "ei" else (rng.choice([None, 100]) if low else rng.choice([-8, 0]))
        jobs.append(("search", dict(what=what, pts=[[k] for k in range(4)], mu=c["mu"], sn=c["sn"], x=[[k] for k in sorted(c["x"])], dt=c["dt"], n=c["n"], thr=thr,
                                    best=rng.choice([0, 1, 2]), kap=rng.choice([1, 4]))))
    for _ in range(ctx.pick(350, 5000)):
        what = rng.choice(["ei", "lcb"])
        d = rng.choice([1, 1, 1, 2])
        N = rng.choice([5, 12, 24]) if d == 1 else 5
        pts = [[k] for k in range(N + 1)] if d == 1 else [[i, j] for i in range(N + 1) for j in range(N + 1)]
        jobs.append(("search", dict(what=what, pts=pts, mu=[rng.randint(-5, 5) for _ in pts], sn=[rng.choice([1, 2, 4, 8, 16]) for _ in pts],
                                    x=[rng.choice(pts) for _ in range(rng.randint(1, 5))], dt=rng.choice([0, 1, 2, 3, 4, 7]), n=rng.randint(1, 3),
                                    thr=rng.choice([1, 300000, 2000000, 6000000]) if what == "ei" else rng.choice([None, 0, -20, -40, 8]),
                                    best=rng.randint(-5, 5), kap=rng.choice([0, 1, 4, 6]))))
    for i, (k, j) in enumerate(jobs):
        j.update(id=i, seed=rng.randint(0, 2 ** 30))
    res = main.results("harness.acquire:dispatch", jobs, chunk=16)
    ctx.cov["calls"] = {k: sum(a == k for a, _ in jobs) for k in ("merit", "search")}
    runs = [run_job(rng, len(jobs) + i) for i in range(ctx.pick(64, 1000))]
    tr = main.results("harness.acquire:run", runs, chunk=1)
    res += [t for t in tr if t is not None]
    ctx.cov["choices_of_strategies"] = sum(len(t["choices"]) for t in tr if t)
    ctx.cov["given_up"] = sum(c["none"] for t in tr if t for c in t["choices"]) + sum(c["none"] for c in res if c["kind"] == "search")
    src = {j["id"]: (k, j) for k, j in jobs}
    src.update({s["id"]: ("run", (s, o)) for s, o in runs})
    v = {}
    for i in range(0, len(res), 5000):
        v.update(ctx.judge("AcquireJudge", res[i:i + 5000]))
    for c in res:
        for b in v[c["id"]]["bad"]:
            ctx.violate("C13: %s %s: %s" % (c["what"], c["kind"], b), {"job": src[c["id"]], "seen": c})
    for k in ("merit", "search", "run"):
        ctx.sample(next(x for x in src.values() if x[0] == k))
    if ctx.violations:
        return
    bad = []
    for c in res:
        if c["kind"] == "search" and c["sel"] and c["all"] and c["dt"] > 0 and len(bad) < 200:
            bad.append(dict(c, sel=[c["pts"].index(c["near"][0]) + 1] + c["sel"][1:]))
        elif c["kind"] == "merit" and c["val"] and len(bad) < 200:
            x = c["val"][0]
            bad.append(dict(c, val=[dict(x, zero=not x["zero"], inf=not x["inf"], m=x["m"] + 1)] + c["val"][1:]))
    w, _ = tla.judge("AcquireJudge", bad)
    if any(not w[c["id"]]["bad"] for c in bad):
        raise tla.MachineryError("a corrupted recording was accepted")
    ctx.add("corrupted_recordings_rejected", len(bad))
