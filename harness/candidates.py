"""C12: candidate points."""
from . import env  # noqa: F401
import math
import random

import numpy as np

from pySOT.auxiliary_problems import candidate_dycors, candidate_srbf, candidate_uniform

from . import driver, main, tla
from .merit import ChoiceRun, Table


def summary(cand, centre, lb, unit, rng_, ints, subset, gen, h, p, want, exc=""):
    """Statistics of the candidates, coordinate by coordinate."""
    n, d = (cand.shape if cand.ndim == 2 else (0, len(lb))) if cand is not None else (0, len(lb))
    out = {"gen": gen, "n": int(n), "want": int(want), "h": h, "p": p, "int": [j in ints for j in range(d)], "range": rng_,
           "subset": [j + 1 for j in subset], "exc": exc, "sized": True, "same": [], "rms": [], "low": [], "high": [], "none": 0, "multi": 0}
    if n == 0:
        out["same"] = [0] * len(lb)
        return out
    diff = cand != centre
    every = gen == "srbf" or (gen == "dycors" and p >= 1000) or len(subset) == 1
    sub = list(subset)
    for j in range(d):
        ch = diff[:, j]
        dev = (cand[:, j] - centre[j]) / unit[j]
        dev = dev if every else dev[ch]
        out["same"].append(int(n - ch.sum()))
        out["rms"].append(int(min(round(1000 * math.sqrt(np.mean(dev ** 2))), 10 ** 7)) if len(dev) else 0)
        out["low"].append(int(round(1000 * (cand[:, j].min() - lb[j]) / unit[j] / rng_[j])))
        out["high"].append(int(round(1000 * (cand[:, j].max() - lb[j]) / unit[j] / rng_[j])))
    k = diff[:, sub].sum(axis=1) if sub else np.zeros(n)
    out["none"], out["multi"] = int((k == 0).sum()), int((k >= 2).sum())
    return out


def call(job):
    """One call of a generator."""
    rng = random.Random(job["seed"])
    np.random.seed(job["seed"] % (2 ** 31))
    cs = job["cs"]
    d = len(cs)
    unit = [1.0 if c["int"] else rng.choice([1.0, 1e-6, 250.0]) for c in cs]
    lb = np.array([float(rng.choice([0, -3, 10])) if c["int"] else u * rng.choice([0, -2.5, 4]) for c, u in zip(cs, unit)])
    R = [c["range"] for c in cs]
    ub = lb + np.array(R) * np.array(unit)
    ints = [j for j, c in enumerate(cs) if c["int"]]
    prob = driver.Box(d, lb, ub, ints)
    prob.lb, prob.ub = lb.copy(), ub.copy()
    xb = np.array([lb[j] if c["at"] == "low" else ub[j] if c["at"] == "high" else
                   lb[j] + (c["range"] // 2 if c["int"] else .5 * c["range"] * unit[j] * rng.choice([1, .95])) for j, c in enumerate(cs)])
    subset = [j for j, c in enumerate(cs) if c["sub"]]
    n = rng.choice([2, 3, 4, 5, 6, 40, 300])
    X = lb + (ub - lb) * np.random.rand(n, d)
    X[:, ints] = np.round(X[:, ints])
    fX = np.array([[float(v)] for v in rng.sample(range(1, 500), n)])
    k = rng.randrange(n)
    given = job["gen"] == "dycors" and rng.random() < .5
    if not given:
        X[k], fX[k] = xb, -5.0
    sur = Table(d, lambda x: 0.0)
    sur.predict = lambda xx: sur.asked.append((np.array(xx, dtype=float), None)) or np.zeros((len(xx), 1))
    want = rng.choice([3000, 3000, 1600, 1, 7])
    kw = dict(num_pts=1, opt_prob=prob, surrogate=sur, X=X, fX=fX, weights=[rng.choice([.3, 1.0])], num_cand=want)
    if rng.random() < .1:
        kw["num_cand"], want = None, 100 * d
    kw["subset"] = rng.choice([list, np.array])(subset)
    if len(subset) == d and rng.random() < .7:
        kw["subset"] = None
    if rng.random() < .3:
        kw["Xpend"] = lb + (ub - lb) * np.random.rand(2, d)
    exc = ""
    try:
        if job["gen"] == "srbf":
            candidate_srbf(sampling_radius=.2 / 2 ** job["h"], **kw)
        elif job["gen"] == "dycors":
            candidate_dycors(sampling_radius=.2 / 2 ** job["h"], prob_perturb=job["p"] / 1000, xbest=xb.copy() if given else None, **kw)
        else:
            candidate_uniform(**kw)
    except Exception as ex:
        exc = "%s: %s" % (type(ex).__name__, ex)
    cand = np.vstack([a for a, _ in sur.asked]) if sur.asked else None
    return dict(summary(cand, xb, lb, unit, R, ints, subset, job["gen"], job["h"], job["p"], want, exc), id=job["id"], kind="call")


class CandRun(ChoiceRun):
    """Records the candidates and the best point of the run at every choice."""

    def ask(self, ctl, accept, hold=False):
        s = ctl.strategy
        self.rec.predicts = []
        n = len(self.rec.events)
        rad = getattr(s, "sampling_radius", .2)
        r = driver.Run.ask(self, ctl, accept, hold)
        e = self.rec.events[n]
        if e["gens"] and self.rec.predicts and not e["designs"]:
            g = e["gens"][0]
            X = np.array([self.rec.pts[i - 1] for i in g["X"]])
            F = np.array(g["F"])
            self.choices.append({"cand": [a for a, _ in self.rec.predicts], "X": X, "best": X[F == F.min()], "rad": rad})
        self.rec.predicts = None
        return r


def run(job):
    spec, ops = job
    r = CandRun(spec, ops)
    r.run()
    p = r.prob
    d, sop = spec["dim"], spec["kind"] == "sop"
    unit, R = [1.0] * d, [int(v) for v in p.ub - p.lb]
    ints = list(p.int_var)
    calls, est, multi = [], [], []
    want = spec["ncand"] or 100 * d
    for c in r.choices:
        for cand in c["cand"]:
            pool = c["X"] if sop else c["best"]
            # the centre: the point of the pool that the candidates agree with most, or are nearest to
            score = [(-(cand == x).sum(), np.abs(cand - x).mean()) for x in pool]
            centre = pool[min(range(len(pool)), key=lambda i: score[i])]
            h = int(round(math.log2(.2 / c["rad"])))
            dy = spec["kind"] != "srbf"
            diff = cand != centre
            freq = int(round(1000 * diff.mean()))
            if dy and diff.size > 20000:
                est.append(freq)
                multi.append(int(round(1000 * (diff.sum(axis=1) >= 2).mean())))
            q = summary(cand, centre, p.lb, unit, R, ints, range(d), "dycors" if dy else "srbf", h, 1000 if dy and freq == 1000 else -1, want)
            if sop:
                q["sized"] = False  # its radii are a matter of C20
            # around the best point the candidates have the size of the radius
            q["centre"] = True
            if not sop:
                dev = np.abs((cand - centre))[diff]
                sig = (c["rad"] * (p.ub - p.lb) * np.ones_like(cand))[diff]
                if not ints and len(dev) > 1000:
                    z = math.sqrt(np.mean((dev / sig) ** 2))
                    q["centre"] = bool(.76 < z < 1.12)
            calls.append(q)
    return {"id": spec["id"], "kind": "run", "d": d, "plain": spec["plain"], "est": est if not ints else [], "multi": multi if not ints else [], "tol": 30,
            "calls": calls}


def run_job(rng, ident):
    sp = dict(id=ident, kind=rng.choice(["srbf", "dycors", "dycors", "sop"]), restarts=True, seed=rng.randint(0, 10 ** 6), nodrain=True, lb=0.0, ub=10.0)
    big = sp["kind"] != "srbf" and rng.random() < .6
    sp["dim"] = rng.choice([25, 40]) if big else rng.choice([2, 3, 5])
    d = sp["dim"]
    sp["n0"] = d + 1
    sp["M"] = sp["n0"] + rng.choice([2, 6, 15, 30])
    again = big and sp["kind"] != "sop" and rng.random() < .3  # a restart in many dimensions
    if again:
        sp["M"] = 2 * sp["n0"] + rng.choice([8, 20])
    sp["async"] = rng.random() < .5
    sp["b"], sp["W"] = rng.choice([1, 1, 2, 3]), d
    sp["ncand"] = 1000 if big else rng.choice([1600, None, 60])
    if sp["kind"] == "sop":
        sp["async"] = True
    if rng.random() < .3:
        sp["extras"] = [rng.randint(-5, 5) for _ in range(rng.choice([1, 30]))]
    elif rng.random() < .2 and not big:
        sp["ints"] = [0]
    sp["plain"] = not sp.get("extras")
    ops = []
    v = list(range(-400, 400))
    rng.shuffle(v)
    for _ in range(sp["n0"]):  # the design first
        ops += [("a",), ("d", 0, v.pop())]
    if sp["async"]:
        k = rng.choice([0, 0, 2])
        for _ in range(k):
            ops.append(("a",))
        for i in range(sp["M"]):
            if again and i == 5 or sp["kind"] != "sop" and not big and rng.random() < .05:
                ops.append(("c",))
            ops += [("a",), ("d", rng.randint(0, k), v.pop())]
            if not v:
                break
    else:
        for i in range(sp["M"]):
            ops += [("a",)] * sp["b"] + [("d", 0, v.pop()) for _ in range(sp["b"])]
            if again and i == 3 or not big and rng.random() < .05:
                ops.append(("c",))
            if len(v) < 5:
                break
    return sp, ops


def check(ctx):
    rng = ctx.rng
    ctx.assumptions += ["candidates are seen as the argument of surrogate.predict",
                        "sizes and frequencies are statistics of up to 3000 candidates, with margins of more than six standard errors"]
    r = ctx.tlc("CandGen", workers=4, cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS D=2\n")
    cases = sorted(r.lines("CASE"), key=str)
    ctx.cov["configurations_of_the_specification"] = len(cases)
    jobs = rng.sample(cases, ctx.pick(1500, len(cases)))
    for _ in range(ctx.pick(300, 4000)):
        c = dict(rng.choice(cases))
        c["cs"] = [rng.choice(rng.choice(cases)["cs"]) for _ in range(rng.randint(3, 7))]
        if any(x["sub"] for x in c["cs"]):
            jobs.append(c)
    jobs = [dict(j, id=i, seed=rng.randint(0, 2 ** 30)) for i, j in enumerate(jobs)]
    res = main.results("harness.candidates:call", jobs, chunk=32)
    ctx.cov["candidates"] = sum(c["n"] for c in res)
    for i in range(0, len(res), 5000):
        v = ctx.judge("CandJudge", res[i:i + 5000])
        for c in res[i:i + 5000]:
            for b in v[c["id"]]["bad"]:
                ctx.violate("C12: %s: %s" % (c["gen"], b), {"job": jobs[c["id"]], "seen": c})
    runs = [run_job(rng, i) for i in range(ctx.pick(60, 600))]
    tr = [t for t in main.results("harness.candidates:run", runs, chunk=1) if t is not None]
    ctx.cov["choices_of_strategies"] = sum(len(t["calls"]) for t in tr)
    v = ctx.judge("CandJudge", tr)
    for t in tr:
        for b in v[t["id"]]["bad"]:
            ctx.violate("C12: run of %s: %s" % (runs[t["id"]][0]["kind"], b), {"spec": runs[t["id"]][0], "est": t["est"], "multi": t["multi"], "schedule": runs[t["id"]][1]})
    for j in jobs[:3]:
        ctx.sample(j)
    if ctx.violations:
        return
    bad = []
    for c in [c for c in res if c["n"] > 1000][:300]:
        c = dict(c)
        k = rng.randrange(3)
        if k == 0:
            c["n"] -= 1
        elif k == 1 and len(c["subset"]) < len(c["same"]):
            j = next(j for j in range(len(c["same"])) if j + 1 not in c["subset"])
            c["same"] = [s - (i == j) for i, s in enumerate(c["same"])]
        else:
            c["want"] += 1
        bad.append(c)
    w, _ = tla.judge("CandJudge", bad)
    if any(not w[c["id"]]["bad"] for c in bad):
        raise tla.MachineryError("a corrupted recording was accepted")
    up = [dict(t, est=t["est"][::-1]) for t in tr if t["d"] > 20 and len(t["est"]) > 4 and t["est"][0] > t["est"][-1] + 200]
    w, _ = tla.judge("CandJudge", up)
    if any(not w[t["id"]]["bad"] for t in up):
        raise tla.MachineryError("an increasing probability was accepted")
    ctx.add("corrupted_recordings_rejected", len(bad) + len(up))
