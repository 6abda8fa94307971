"""C16: predictions depend only on the current data."""
from . import env  # noqa: F401
import random
import sys
import types
import warnings

import numpy as np
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.gaussian_process.kernels import RBF, WhiteKernel

from pySOT.surrogate import (ConstantTail, CubicKernel, GPRegressor, LinearKernel, LinearTail, MARSInterpolant, PolyRegressor, RBFInterpolant, TPSKernel,
                             median_capping)

from . import main, tla

BIG = 10000


class Earth:
    """Stands for py-earth, which is missing: a regression that is fitted to what it is given."""

    def fit(self, X, y):
        X, y = np.asarray(X, dtype=float), np.asarray(y, dtype=float)
        if y.shape != (X.shape[0], 1):
            raise ValueError("wrong shape")
        A = np.hstack((np.ones((len(X), 1)), X, X ** 2))
        self.coef = np.linalg.solve(A.T @ A + 1e-3 * np.eye(A.shape[1]), A.T @ y)
        return self

    def predict(self, X):
        return (np.hstack((np.ones((len(X), 1)), X, X ** 2)) @ self.coef)[:, 0]


try:
    import pyearth  # noqa: F401
except ImportError:
    sys.modules["pyearth"] = types.ModuleType("pyearth")
    sys.modules["pyearth"].Earth = Earth

KERNELS = {"cubic": CubicKernel, "tps": TPSKernel, "linear": LinearKernel}


def cap10(x):
    """A transformation that depends on all values and works in place, on what is a copy of the data."""
    x[x > np.min(x) + 10.0] = np.min(x) + 10.0
    return x


def build(c, lb, ub):
    tr = {"none": None, "median": median_capping, "cap": cap10}[c["tr"]]
    d = c["dim"]
    if c["kind"] == "rbf":
        tail = LinearTail(d) if c["tail"] == "linear" else ConstantTail(d)
        return RBFInterpolant(d, lb, ub, output_transformation=tr, kernel=KERNELS[c["kernel"]](), tail=tail)
    if c["kind"] == "gp":
        return GPRegressor(d, lb, ub, output_transformation=tr, n_restarts_optimizer=c["restarts"])
    if c["kind"] == "gpown":
        return GPRegressor(d, lb, ub, output_transformation=tr,
                           gp=GaussianProcessRegressor(kernel=RBF(0.4) + WhiteKernel(1e-3), optimizer=None if c["restarts"] else "fmin_l_bfgs_b"))
    if c["kind"] == "mars":
        return MARSInterpolant(d, lb, ub, output_transformation=tr)
    return PolyRegressor(d, lb, ub, output_transformation=tr, degree=c["deg"])


def q6(a, scale):
    a = np.ravel(np.asarray(a, dtype=float)) / scale * 1e6
    return [2147483647 if not np.isfinite(v) else int(max(-2e9, min(2e9, round(float(v))))) for v in a]


def ids(rows, table):
    return [table.get(tuple(float(v) for v in np.ravel(r)), 0) for r in rows]


def group(job):
    c = job["c"]
    warnings.simplefilter("ignore")
    rng = np.random.RandomState(c["seed"])
    r2 = random.Random(c["seed"])
    d = c["dim"]
    lb = np.array([r2.choice([0, -1, -20, 3, 1e-3]) for _ in range(d)], dtype=float)
    ub = lb + np.array([r2.choice([1, 2, 30, 1e3]) for _ in range(d)], dtype=float)
    if c["whole"]:
        lb = np.round(lb)
        ub = lb + 2.0 ** 34
    n = job["nmax"]
    pools = []
    for _ in range(2):
        X = lb + (ub - lb) * rng.rand(n, d)
        if c["dup"]:
            X[n - 1] = X[r2.randrange(n - 1)]
        F = c["scale"] * (c["ratio"] if pools else 1) * (3 * rng.randn(n) + X.dot(rng.randn(d)) / np.max(ub - lb))
        if c["dup"]:
            F[n - 1] = F[[k for k in range(n) if np.array_equal(X[k], X[n - 1])][0]]
        pools.append((X, F))
    if c["whole"]:
        pools = [(np.round(X), F) for X, F in pools]
    xt, ft = {}, {}
    for p, (X, F) in enumerate(pools):
        for k in range(n):
            xt.setdefault(tuple(X[k]), BIG * (p + 1) + k)
            ft.setdefault((F[k],), BIG * (p + 1) + k)
    # a point that occurs twice has one number
    xid = lambda p, k: xt[tuple(pools[p][0][k])]
    fid = lambda p, k: ft[(pools[p][1][k],)]
    Q = [lb + (ub - lb) * rng.rand(4, d), lb + (ub - lb) * rng.rand(1, d)]
    Q.append(pools[0][0][:2].copy())
    Q.append(np.vstack((lb, ub, 2 * ub - lb)))
    scales = [max(float(np.ptp(p[1])), 1e-9) for p in pools]
    hist = []
    for ops in job["hist"]:
        s = build(c, lb, ub)
        ev, passed, handed = [], [], []
        scale = scales[0]
        for op in ops:
            e = {"op": op[0], "ids": [], "kind": "", "q": 1, "out": [], "shape": [0, 0], "exc": "", "same": True}
            try:
                if op[0] == "add":
                    _, p, a, k = op
                    scale = scales[p - 1]
                    X, F = pools[p - 1][0][a:a + k].copy(), pools[p - 1][1][a:a + k].copy()
                    e["ids"] = [xid(p - 1, j) for j in range(a, a + k)]
                    form = r2.randrange(4)
                    if form == 0:
                        F = F.reshape(-1, 1)
                    elif form == 1 and k == 1:
                        X, F = X[0].copy(), float(F[0])
                    elif form == 2 and k == 1:
                        X, F = X[0].copy(), F.copy()
                    if c["whole"] and r2.random() < .5:
                        X = X.astype(int)
                    keep = (X.copy(), np.copy(F))
                    s.add_points(X, F)
                    e["same"] = np.array_equal(X, keep[0]) and np.array_equal(F, keep[1])
                    passed.append(X)
                    if isinstance(F, np.ndarray):
                        passed.append(F)
                elif op[0] == "reset":
                    s.reset()
                elif op[0] == "early":
                    try:
                        s.predict(Q[0])
                    except Exception:
                        pass
                elif op[0] == "scribble":
                    for a in passed + handed:
                        a[...] = 12345
                    passed, handed = [], []
                else:
                    kind = op[1]
                    if kind == "other":
                        kind = "deriv" if c["kind"] == "rbf" else "std" if c["kind"] in ("gp", "gpown") else "value"
                    q = r2.randint(1, len(Q))
                    if len(hist) == 0 or op is ops[-1]:
                        q = 1
                    x = Q[q - 1].copy()
                    if q == 2 and r2.random() < .5:
                        x = x[0].copy()
                    keep = x.copy()
                    np.random.seed(c["seed"] % 1000)
                    f = {"value": s.predict, "deriv": getattr(s, "predict_deriv"), "std": getattr(s, "predict_std", None)}[kind]
                    y = f(x)
                    e["same"] = np.array_equal(x, keep)
                    sc = scale / (ub - lb) if kind == "deriv" else scale
                    e.update(kind=kind, q=q, shape=[int(v) for v in np.shape(y)], out=q6(y / sc * 1.0, 1.0) if kind == "deriv" else q6(y, sc))
                    passed.append(x)
                    handed.append(y)
            except Exception as ex:
                e["exc"] = "%s: %s" % (type(ex).__name__, ex)
            e["num"] = int(s.num_pts)
            e["X"] = ids(s.X, xt) if np.shape(s.X)[0] else []
            # values are matched with the number of their point
            F = [float(v) for v in np.ravel(s.fX)]
            x = e["X"]
            e["F"] = [x[k] if k < len(x) and (F[k],) in ft and match(pools, x[k], F[k], xt) else 0 for k in range(len(F))]
            ev.append(e)
        hist.append(ev)
    return {"id": job["id"], "dim": d, "nq": [len(q) for q in Q], "tol": c["tol"], "hist": hist, "most": max(len(h) for h in hist),
            "moves": c["kind"] == "rbf" and c["kernel"] != "linear" and not c["dup"] and c["tr"] == "none"}


def match(pools, i, f, xt):
    """Is f the value of the point with number i?"""
    p, k = divmod(i, BIG)
    return i > 0 and pools[p - 1][1][k] == f


def config(rng):
    kind = rng.choice(["rbf", "rbf", "rbf", "gp", "gpown", "poly", "poly", "mars"])
    kernel = rng.choice(["cubic", "tps", "linear"])
    c = dict(kind=kind, kernel=kernel, tail="linear" if kernel != "linear" else rng.choice(["linear", "constant"]), tr=rng.choice(["none", "none", "median", "cap"]),
             dim=rng.choice([1, 1, 2, 3]), seed=rng.randint(0, 2 ** 30), restarts=rng.choice([0, 0, 1]), deg=rng.choice([1, 2, 3]), dup=rng.random() < .25,
             scale=rng.choice([1, 1, 1e-4, 1e5]), ratio=rng.choice([1, 1, 1, 1e-4, 1e4]), whole=rng.random() < .15, tol=20)
    return c


def at_once(H, nmin):
    """The same data in one go, into a fresh surrogate."""
    out = []
    last = [h[-1] for h in [[o for o in x if o[0] == "add"] for x in H] if h]
    for n in sorted({h[3] + h[2] for h in last}):
        for p in (1, 2):
            out.append([["add", p, 0, n], ["predict", "other"], ["predict", "value"]] if n >= nmin else [["add", p, 0, n]])
    return out


def many(rng, n, first):
    """Surrogates with many points: tens for a Gaussian process, hundreds for the others."""
    jobs = []
    for i in range(n):
        c = config(rng)
        c["dup"] = False
        c["dim"] = rng.choice([2, 3])
        nmax = rng.choice([24, 40, 60]) if c["kind"] in ("gp", "gpown") else rng.choice([60, 130, 270, 530])
        a = rng.randint(max(4, nmax // 2), nmax - 3)
        H = [[["add", 1, 0, a], ["predict", "value"], ["add", 1, a, nmax - a], ["predict", "other"], ["predict", "value"]],
             [["add", 2, 0, nmax], ["predict", "value"], ["reset"], ["add", 1, 0, nmax - 2], ["predict", "value"], ["add", 1, nmax - 2, 2], ["predict", "value"]],
             [["add", 1, 0, a], ["predict", "value"], ["scribble"], ["add", 1, a, 1], ["predict", "value"]] +
             [o for k in range(a + 1, nmax) for o in (["add", 1, k, 1], ["predict", "value"])][:2 * 4],
             [["add", 1, 0, nmax], ["predict", "value"], ["reset"], ["add", 1, 0, 5], ["predict", "value"]], [["add", 1, 0, 5], ["predict", "value"]]]
        jobs.append({"id": first + i, "c": c, "hist": H + at_once(H, 5), "nmax": nmax})
    return jobs


def check(ctx):
    rng = ctx.rng
    ctx.assumptions += ["numerical agreement: 2e-5 of the range of the values", "hyper-parameter fits with random restarts start from the same random numbers",
                        "py-earth is missing in the sandbox: MARSInterpolant runs on a stand-in for it"]
    seqs = {}
    L, nmax = ctx.pick((6, 7), (7, 8))
    for nmin in (2, 3, 4):
        r = ctx.tlc("SurrogateDataGen", cfgtext="CONSTANTS L = %d\nNMIN = %d\nNMAX = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (L, nmin, nmax))
        seqs[nmin] = sorted(r.lines("SCHED"), key=str)
        if not seqs[nmin]:
            raise tla.MachineryError("no sequences were generated")
    ctx.cov["operation_sequences_of_the_specification"] = sum(map(len, seqs.values()))
    jobs = []
    for i in range(ctx.pick(700, 12000)):
        c = config(rng)
        nmin = c["dim"] + 1
        H = [[o for o in s] + [["predict", "value"]] for s in rng.sample(seqs[nmin], 5)]
        # longer histories than TLC enumerates
        for _ in range(2):
            h, n, pool = [], 0, 1
            for _ in range(rng.randint(5, 14)):
                k = rng.randint(1, 3)
                u = rng.random()
                if n and u < .15:
                    h.append(["reset"])
                    n, pool = 0, rng.randint(1, 2)
                elif u < .6 and n + k <= nmax:
                    h.append(["add", pool, n, k])
                    n += k
                elif u < .7:
                    h.append(["scribble"])
                elif n >= nmin:
                    h.append(["predict", rng.choice(["value", "other"])])
            if n < nmin:
                h.append(["add", pool, n, nmin - n])
            H.append(h + [["predict", "value"]])
        jobs.append({"id": i, "c": c, "hist": H + at_once(H, nmin), "nmax": nmax})
    jobs += many(rng, ctx.pick(24, 200), len(jobs))
    res = main.results("harness.surrdata:group", jobs, chunk=4)
    ctx.cov["surrogates"] = {k: sum(j["c"]["kind"] == k for j in jobs) for k in ("rbf", "gp", "gpown", "poly", "mars")}
    ctx.cov["predictions"] = sum(e["op"] == "predict" for r in res if r for h in r["hist"] for e in h)
    good = [r for r in res if r is not None]
    if len(good) < len(res):
        ctx.cov["timeouts"] = len(res) - len(good)
    v = ctx.judge("SurrogateDataJudge", good)
    for r in good:
        for b in v[r["id"]]["bad"]:
            c = jobs[r["id"]]["c"]
            ctx.violate("C16: %s: %s" % ("gp" if c["kind"] == "gpown" else c["kind"], b), {"job": jobs[r["id"]], "seen": r})
    ctx.sample(jobs[0])
    if ctx.violations:
        return
    bad = []
    for r in good[:300]:
        h = r["hist"][0]
        k = len(h) - 1
        e = dict(h[k])
        which = rng.randrange(4)
        if which == 0:
            e["num"] += 1
        elif which == 1:
            e["X"] = e["X"][::-1] if e["X"][::-1] != e["X"] else e["X"] + [1]
        elif which == 2:
            e["F"] = e["F"][:-1] + [0]
        elif which == 3:
            e["shape"] = e["shape"][::-1] if e["shape"][0] != e["shape"][1] else [5, 5]
        bad.append(dict(r, hist=[h[:k] + [e]] + r["hist"][1:]))
    for r in good[300:500]:
        # the value predicted at the end of the first history differs from that of the reference
        h = r["hist"][0]
        e = dict(h[-1], out=[x + 1000 for x in h[-1]["out"]])
        bad.append(dict(r, hist=r["hist"] + [h[:-1] + [e]]))
    w, _ = tla.judge("SurrogateDataJudge", bad)
    miss = [r["id"] for r in bad if not w[r["id"]]["bad"]]
    if miss:
        raise tla.MachineryError("a corrupted recording was accepted: %s" % miss[:5])
    ctx.add("corrupted_recordings_rejected", len(bad))
