"""C25: domain maps, rounding and output transformations."""
from . import env  # noqa: F401
import random

import numpy as np

from pySOT.surrogate.output_transformations import identity, median_capping
from pySOT.utils import from_unit_box, round_vars, to_unit_box, unit_rescale

from . import main, tla

BOX = [(0., 1.), (-1., 3.), (-5.12, 5.12), (1 / 3, 2 / 3), (1000., 1001.), (-1e6, 1e6), (1e-9, 3e-9), (-7., -2.), (0., 1e12)]


def lay(x, rng):
    """The same array with another memory layout."""
    k = rng.randrange(4)
    if k == 1:
        return np.asfortranarray(x)
    if k == 2:
        b = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
        v = b[tuple(slice(0, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    return x.copy()


def whole(x, tol=1e-9):
    n = np.round(x)
    return [int(v) if abs(v) < 2e9 else 2 * 10 ** 9 for v in np.ravel(n)], bool(np.all(np.abs(np.ravel(x) - np.ravel(n)) <= tol * np.maximum(1, np.abs(np.ravel(x)))))


def box(c, rng):
    D = c["den"]
    b = [BOX[k % len(BOX)] for k in c["box"]]
    lb, ub = np.array([x[0] for x in b]), np.array([x[1] for x in b])
    d = len(b)
    K = np.array(c["rows"], dtype=float).reshape(-1, d)
    u0 = K / D
    x0 = lb + (ub - lb) * u0
    one = len(K) == 1 and rng.random() < .5
    x, u = (x0[0].copy(), u0[0].copy()) if one else (lay(x0, rng), lay(u0, rng))
    l1, u1 = lay(lb, rng), lay(ub, rng)
    out = {"kind": "box", "k": [int(v) for v in K.ravel()], "u": [], "back": [], "round": False, "kept": False, "exc": ""}
    try:
        a, y = to_unit_box(x, l1, u1), from_unit_box(u, l1, u1)
        out["kept"] = bool(np.array_equal(x, x0.reshape(x.shape)) and np.array_equal(u, u0.reshape(u.shape)) and np.array_equal(l1, lb) and np.array_equal(u1, ub))
        # cancellation near the bounds of a narrow box far from 0
        tol = 1e-12 * np.max(np.maximum(np.abs(lb), np.abs(ub)) / (ub - lb)) + 1e-12
        n, ok = whole(D * np.asarray(a), D * tol * 10)
        out["u"] = n if ok and np.shape(a) == x.shape else []
        m, ok = whole((np.asarray(y) - lb) / (ub - lb) * D, D * tol * 10)
        out["back"] = m if ok and np.shape(y) == u.shape else []
        span = np.maximum(np.abs(x0), ub - lb)
        p, q = from_unit_box(to_unit_box(x, l1, u1), l1, u1), to_unit_box(from_unit_box(u, l1, u1), l1, u1)
        edge = bool(np.all(np.abs(to_unit_box(lb, lb, ub)) <= 1e-12) and np.all(np.abs(to_unit_box(ub, lb, ub) - 1) <= 1e-12)
                    and np.all(np.abs(from_unit_box(np.zeros(d), lb, ub) - lb) <= 1e-12 * np.maximum(np.abs(lb), ub - lb))
                    and np.all(np.abs(from_unit_box(np.ones(d), lb, ub) - ub) <= 1e-12 * np.maximum(np.abs(ub), ub - lb)))
        out["round"] = edge and bool(np.all(np.abs(p - x) <= 1e-12 * span.reshape(p.shape)) and np.all(np.abs(q - u) <= 100 * tol * np.maximum(1, np.abs(u))))
    except Exception as ex:
        out["exc"] = "%s: %s" % (type(ex).__name__, ex)
    return out


def rounding(c, rng):
    X = np.array(c["rows"], dtype=float) / 4
    lb, ub = np.array(c["lb"], dtype=float), np.array(c["lb"], dtype=float) + np.array(c["w"])
    ints = sorted(j - 1 for j in c["ints"])
    iv = np.array(ints, dtype=int)
    if not ints and rng.random() < .5:
        iv = np.array([])
    x, l1, u1 = lay(X, rng), lb.copy(), ub.copy()
    out = {"kind": "round", "x": [[int(v) for v in r] for r in 4 * X], "ints": [j + 1 for j in ints], "lb": [int(v) for v in lb], "ub": [int(v) for v in ub], "r": [], "whole": False, "kept": False,
           "exc": ""}
    try:
        y = round_vars(x, iv if rng.random() < .7 else list(ints), l1, u1)
        out["whole"] = bool(np.shape(y) == X.shape and np.all(4 * y == np.round(4 * y)))
        out["r"] = [[int(v) for v in r] for r in np.round(4 * np.atleast_2d(y))]
        out["kept"] = bool(np.array_equal(l1, lb) and np.array_equal(u1, ub))
    except Exception as ex:
        out["exc"] = "%s: %s" % (type(ex).__name__, ex)
    return out


def vector(c, rng):
    k = c["kind"]
    x0 = np.array(c["x"], dtype=float)
    if rng.random() < .6:
        x0 = x0.reshape(-1, 1)
    if rng.random() < .15:
        x0 = x0.astype(int)
    s, o = rng.choice([(1, 0), (1, 0), (.125, -3), (2. ** 20, 0), (1, 4096), (2. ** -30, 0), (2. ** -44, 1), (2. ** -30, -4096)])
    z = x0 if x0.dtype == int else s * x0 + o
    x = lay(z, rng)
    un = (lambda v: v) if x0.dtype == int else (lambda v: (v - o) / s)
    out = {"kind": k, "x": [int(v) for v in c["x"]], "r": [], "zero": [], "one": [], "whole": True, "shape": False, "kept": False, "exc": ""}
    try:
        y = np.asarray({"scale": unit_rescale, "cap": median_capping, "same": identity}[k](x))
        out["shape"] = y.shape == z.shape
        out["kept"] = bool(np.array_equal(x, z))
        if k == "scale":
            w = max(c["x"]) - min(c["x"])
            out["r"], _ = whole(1000 * y * max(w, 1))
            out["zero"], out["one"] = [bool(abs(v) <= 1e-12) for v in y.ravel()], [bool(abs(v - 1) <= 1e-12) for v in y.ravel()]
        else:  # in halves
            out["x"] = [2 * int(v) for v in c["x"]]
            out["r"], out["whole"] = whole(2 * un(y), 0)
    except Exception as ex:
        out["exc"] = "%s: %s" % (type(ex).__name__, ex)
    return out


def case(job):
    rng = random.Random(job["seed"])
    c = job["c"]
    f = {"box": box, "round": rounding}.get(c["kind"], vector)
    return dict(f(c, rng), id=job["id"])


def check(ctx):
    rng = ctx.rng
    ctx.assumptions += ["results of floating-point arithmetic are compared up to 1e-12 of the magnitudes involved; bounds of integer variables are integers"]
    r = ctx.tlc("MapGen", cfgtext="CONSTANTS N = %d\nV = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ctx.pick((5, 3), (6, 4)))
    cases = sorted(r.lines("CASE"), key=str)
    ctx.cov["inputs_of_the_specification"] = len(cases)
    if not ctx.thorough:
        cases = [c for c in cases if c["kind"] != "round"] + rng.sample([c for c in cases if c["kind"] == "round"], 2500)
    todo = []
    for c in cases:
        if c["kind"] == "box":
            c = dict(c, rows=[c["k"]], den=4)
        elif c["kind"] == "round":
            c = dict(c, rows=[c["x"]])
        todo.append(c)
    for _ in range(ctx.pick(3000, 60000)):
        d, n = rng.randint(1, 6), rng.randint(1, 8)
        k = rng.choice(["box", "round", "scale", "cap", "same"])
        if k == "box":
            den = rng.choice([4, 10, 64, 1000])
            todo.append(dict(kind=k, rows=[[rng.choice([0, den, rng.randint(-den, 2 * den)]) for _ in range(d)] for _ in range(n)], den=den, box=[rng.randrange(9) for _ in range(d)]))
        elif k == "round":
            big = rng.choice([0, 0, 1000, 10 ** 7])
            lb = [rng.randint(-5, 3) + big * rng.choice([-1, 1]) for _ in range(d)]
            w = [rng.randint(1, 6) for _ in range(d)]
            rows = [[4 * (l + rng.randint(-1, v + 1)) + rng.randint(-2, 3) for l, v in zip(lb, w)] for _ in range(n)]
            todo.append(dict(kind=k, rows=rows, lb=lb, w=w, ints=[j + 1 for j in range(d) if rng.random() < .5]))
        else:
            v = rng.choice([1, 3, 50])
            todo.append(dict(kind=k, x=[rng.randint(-v, v) for _ in range(rng.randint(1, 30))]))
    jobs = [{"id": i, "c": c, "seed": rng.randint(0, 2 ** 30)} for i, c in enumerate(todo)]
    res = main.results("harness.maps:case", jobs, chunk=256)
    v = {}
    for i in range(0, len(res), 8000):
        v.update(ctx.judge("MapJudge", res[i:i + 8000]))
    for k in ("box", "round", "scale", "cap", "same"):
        ctx.cov.setdefault("calls", {})[k] = sum(c["kind"] == k for c in res)
    for c in res:
        for b in v[c["id"]]["bad"]:
            ctx.violate("C25: %s: %s" % (c["kind"], b), {"job": jobs[c["id"]], "seen": c})
    ctx.sample(jobs[0])
    if ctx.violations:
        return
    bad = []
    for c in rng.sample(res, 400):
        if c["kind"] == "box":
            c = dict(c, back=[x + 1 for x in c["back"]]) if rng.random() < .5 else dict(c, u=c["u"][:-1])
        elif c["kind"] == "round":
            c = dict(c, r=[[v + 4 * 5000 for v in row] for row in c["r"]])
        elif c["kind"] == "scale":
            c = dict(c, one=[not x for x in c["one"]], r=[x + 2 for x in c["r"]])
        else:
            c = dict(c, r=[x + 1 for x in c["r"]])
        bad.append(c)
    w, _ = tla.judge("MapJudge", bad)
    if any(not w[c["id"]]["bad"] for c in bad):
        raise tla.MachineryError("a corrupted recording was accepted")
    ctx.add("corrupted_recordings_rejected", len(bad))
