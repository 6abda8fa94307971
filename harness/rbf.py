"""C17: RBF models."""
from . import env  # noqa: F401
import random

import numpy as np
from scipy.spatial.distance import cdist

from pySOT.surrogate import ConstantTail, LinearTail, RBFInterpolant, median_capping

from . import main, tla
from .surrdata import KERNELS

G = 8


def ints(a, scale):
    return [2147483647 if not np.isfinite(v) else int(max(-1e9, min(1e9, round(float(v) * scale)))) for v in np.ravel(a)]


def model(c, lb, ub):
    d = c["dim"]
    if c["plain"]:
        return RBFInterpolant(d, lb, ub)
    tail = LinearTail(d) if c["tail"] == "linear" else ConstantTail(d)
    kw = {} if c["eta"] == "default" else {"eta": 1e-10}
    return RBFInterpolant(d, lb, ub, output_transformation=median_capping if c["tr"] == "median" else None, kernel=KERNELS[c["kernel"]](), tail=tail, **kw)


def add(s, X, F, split, rng):
    n, k = len(X), 0
    first = True
    while k < n:
        m = n if split == "once" else 1 if split == "each" and not first else rng.randint(1, n - k)
        if first:
            m = max(m, min(n, s.dim + 1))
        s.add_points(X[k:k + m], F[k:k + m].reshape(-1, 1) if rng.random() < .5 else F[k:k + m])
        k += m
        if k >= s.dim + 1 and rng.random() < .7:
            s.predict(X[:1])
        first = False


def phi(kernel, r):
    if kernel == "cubic":
        return r ** 3
    if kernel == "linear":
        return r
    return np.where(r > 0, r ** 2 * np.log(np.where(r > 0, r, 1)), 0)


def reference(c, K, T, Q):
    """The documented equations, solved at once."""
    X, Y = K / G, Q / G
    n = len(X)
    eta = 1e-6 if c["eta"] == "default" else 1e-10
    one = lambda Z: np.ones((len(Z), 1)) if c["tail"] == "constant" else np.hstack((np.ones((len(Z), 1)), Z))
    P = one(X)
    m = P.shape[1]
    A = np.vstack((np.hstack((np.zeros((m, m)), P.T)), np.hstack((P, phi(c["kernel"], cdist(X, X)) + eta * np.eye(n)))))
    z = np.linalg.solve(A, np.concatenate((np.zeros(m), T)))
    return one(Y).dot(z[:m]) + phi(c["kernel"], cdist(Y, X)).dot(z[m:])


def case(job):
    c = job["c"]
    rng = random.Random(job["seed"])
    d = c["dim"]
    ntail = d + 1 if c["tail"] == "linear" else 1
    n = max(ntail, d + 1) + c["extra"]
    while True:
        K = set()
        while len(K) < n:
            K.add(tuple(rng.randint(0, G) for _ in range(d)))
        K = np.array(rng.sample(sorted(K), n), dtype=float)
        # the first points determine the tail, also after a permutation
        if np.linalg.matrix_rank(np.hstack((np.ones((d + 1, 1)), K[:d + 1]))) == d + 1 and np.linalg.cond(np.hstack((np.ones((d + 1, 1)), K[:d + 1] / G))) < 60:
            break
    poly = []
    if c["how"] == "poly":
        poly = [rng.randint(-20, 20)] + [rng.randint(-3, 3) if c["tail"] == "linear" else 0 for _ in range(d)]
        f = [int(poly[0] + sum(a * k for a, k in zip(poly[1:], x))) for x in K]
    else:
        f = [rng.randint(-20, 20) for _ in K]
    step = np.array({"unit": [1 / G] * d, "wide": [100.0] * d, "uneven": [rng.choice([1e-3, 1, 7, 1e4]) for _ in range(d)]}[c["box"]])
    lb = np.array([rng.choice([0, -5, 17]) * s for s in step])
    ub = lb + G * step
    P = lambda Z, lb=lb, step=step: lb + step * Z
    Q = np.array([[rng.randint(0, G) for _ in range(d)] for _ in range(4)] + [[rng.randint(-2, G + 2) for _ in range(d)] for _ in range(2)], dtype=float)
    F = np.array(f, dtype=float)
    out = {"id": job["id"], "x": K.astype(int).tolist(), "f": f, "tr": c["tr"], "poly": poly if c["tr"] == "none" else [], "q": Q.astype(int).tolist(), "exc": "",
           "tol": 25 if c["eta"] == "tiny" else 800, "tolp": 20, "tolf": 0, "val": [], "grad": [], "at": [], "same": [], "fd": [], "shapes": []}
    try:
        s = model(c, lb, ub)
        add(s, P(K), F, c["split"], rng)
        v = s.predict(P(Q))
        g = s.predict_deriv(P(Q))
        one, gone = s.predict(P(Q)[0]), s.predict_deriv(P(Q)[0])
        out["shapes"] = [list(map(int, np.shape(a))) for a in (v, g, one, gone)]
        out["val"] = ints(v, 1e3)
        out["grad"] = [ints(r * step, 1e3) for r in g]
        out["at"] = ints(s.predict(P(K)), 1e3)
        # single queries: those of the matrix
        out["same"].append({"how": "one query at a time", "val": [ints(s.predict(P(x)), 1e3)[0] for x in Q]})
        T = median_cap(F) if c["tr"] == "median" else F
        out["same"].append({"how": "documented equations", "val": ints(reference(c, K, T, Q), 1e3)})
        # other order (the first d+1 points stay in front, in another order), other split
        perm = list(range(d + 1))
        rest = list(range(d + 1, n))
        rng.shuffle(perm)
        rng.shuffle(rest)
        s2 = model(c, lb, ub)
        add(s2, P(K[perm + rest]), F[perm + rest], "mixed", rng)
        out["same"].append({"how": "order", "val": ints(s2.predict(P(Q)), 1e3)})
        # other box
        st = np.array([rng.choice([1e-2, 1, 30]) for _ in range(d)])
        l2 = np.array([rng.choice([0, -100, 3]) for _ in range(d)], dtype=float)
        s3 = model(c, l2, l2 + G * st)
        add(s3, P(K, l2, st), F, "mixed", rng)
        out["same"].append({"how": "rescaled domain", "val": ints(s3.predict(P(Q, l2, st)), 1e3)})
        # derivatives at general points (and at the data, where the kernel is smooth)
        pts = [np.array([rng.uniform(-.5, G + .5) for _ in range(d)]) for _ in range(5)]
        if c["kernel"] != "linear":
            pts.append(K[rng.randrange(n)])
        for r in (.7, .2, .04):  # near a data point
            e = np.array([rng.gauss(0, 1) for _ in range(d)])
            pts.append(K[rng.randrange(n)] + r * e / np.linalg.norm(e))
        H = 2.0 ** -6

        def width(x):
            r = min(np.linalg.norm(K - x, axis=1))
            return H if r == 0 else min(H, 2.0 ** np.floor(np.log2(r / 16)))
        far = [x for x in pts if width(x) > 2.0 ** -11]
        most = 0.0
        D = np.atleast_2d(s.predict_deriv(P(np.array(far)))) if far else []
        for x, der in zip(far, D):
            row = []
            h = width(x)
            v0 = s.predict(P(x))[0, 0]
            for i in range(d):
                e = np.zeros(d)
                e[i] = h
                a, b = ((s.predict(P(x + t))[0, 0] - v0) * H / h for t in (e, -e))
                w = 2 * H * der[i] * step[i]
                most = max(most, abs(a - b), abs(w))
                row.append(ints([a, b, w], 1e6))
            out["fd"].append(row)
        out["tolf"] = int(1e6 * (most * .02)) + 50
    except Exception as ex:
        out["exc"] = "%s: %s" % (type(ex).__name__, ex)
    return out


def median_cap(F):
    m = np.median(F)
    return np.where(F > m, m, F)


def check(ctx):
    rng = ctx.rng
    ctx.assumptions += ["data on a grid of nine values per coordinate; agreement to 2e-2 (interpolation 0.8 with the default regularisation) for values up to about 100",
                        "derivatives are compared with central differences to 2 % of the largest difference"]
    r = ctx.tlc("RBFGen", workers=4, cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    cases = sorted(r.lines("CASE"), key=str)
    ctx.cov["kinds_of_models_of_the_specification"] = len(cases)
    jobs = []
    for k in range(ctx.pick(1, 20)):
        for c in cases:
            c = dict(c, plain=c["kernel"] == "cubic" and c["tail"] == "linear" and c["tr"] == "none" and c["eta"] == "default" and rng.random() < .5)
            jobs.append({"id": len(jobs), "c": c, "seed": rng.randint(0, 2 ** 30)})
    res = main.results("harness.rbf:case", jobs, chunk=32)
    v = {}
    for i in range(0, len(res), 5000):
        v.update(ctx.judge("RBFJudge", res[i:i + 5000]))
    for r in res:
        for b in v[r["id"]]["bad"]:
            ctx.violate("C17: %s kernel: %s" % (jobs[r["id"]]["c"]["kernel"], b), {"job": jobs[r["id"]], "seen": r})
    ctx.sample(jobs[0])
    if ctx.violations:
        return
    bad = []
    for r in res[:400]:
        k = rng.randrange(4)
        if k == 0:
            r = dict(r, at=[x + 2000 for x in r["at"]])
        elif k == 1 and r["poly"]:
            r = dict(r, grad=[[x + 1000 for x in row] for row in r["grad"]])
        elif k == 2:
            r = dict(r, same=[dict(r["same"][0], val=[x + 100 for x in r["same"][0]["val"]])] + r["same"][1:])
        elif r["fd"]:
            r = dict(r, fd=[[[e[0], e[1], e[2] + 2 * r["tolf"] + 100] for e in r["fd"][0]]] + r["fd"][1:])
        else:
            continue
        bad.append(r)
    w, _ = tla.judge("RBFJudge", bad)
    miss = [r["id"] for r in bad if not w[r["id"]]["bad"]]
    if miss:
        raise tla.MachineryError("a corrupted recording was accepted: %s" % miss[:5])
    ctx.add("corrupted_recordings_rejected", len(bad))
