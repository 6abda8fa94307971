"""C20: centres and tabu memory of the Pareto strategy."""
from . import env  # noqa: F401
import copy
import math
import os
import shutil
import tempfile

import numpy as np

from . import driver, main, tla


def level(sigma):
    """h with sigma = 0.2 / 2^h, 99 if there is none."""
    if not sigma > 0:
        return 99
    h = round(math.log2(.2 / sigma))
    return h if h >= 0 and abs(sigma * 2.0 ** h / .2 - 1) < 1e-9 else 99


class SopRun(driver.Run):
    """A run of the Pareto strategy on a grid, with its memory after every event."""

    def __init__(self, spec, ops, fname=None):
        super().__init__(spec, ops, fname)
        self.sev, self.adapt, self.left, self.chosen = [], set(), 0, False
        self.saved = None
        self.used = set()

    def memory(self, s):
        pid = self.rec.pid
        evs = [{"p": pid(e.x), "v": int(e.fx), "h": level(e.sigma), "nf": int(e.nfail), "tb": int(e.ntabu)} for e in s.evals]
        ctr = [{"i": int(c.index) + 1, "xc": pid(c.xc), "np": 0 if c.new_point is None else pid(c.new_point),
                "ni": 0 if c.new_index is None else int(c.new_index) + 1} for c in s.centers]
        return {"evs": evs, "ctr": ctr}

    def put(self, op, e, **kw):
        x = {"op": op, "exc": e["exc"], "p": e["p"], "v": int(e["v"]), "n": 0, "step": False, "around": [], "pend": [], "evs": [], "ctr": []}
        try:
            x.update(self.memory(self.ctl.strategy))
        except Exception as ex:
            x["exc"] = x["exc"] or "unobservable: %r" % ex
        x.update(kw)
        self.sev.append(x)

    def event(self, op, s=None, **kw):
        e = super().event(op, s, **kw)
        sync = not self.spec["async"]
        if op == "ask":
            if e["designs"]:
                self.put("other", e, exc="a new run")
                return e
            if e["gens"]:
                n = self.spec["b"] if sync else 1
                calls = [[self.rec.pid(a["xbest"]), level(a["sampling_radius"])] for a in self.rec.calls if "xbest" in a and a["xbest"] is not None]
                self.put("choice", e, n=n, around=calls if len(calls) == n else [])
                self.left, self.chosen = n, True
            ad = bool(e["gens"]) or (sync and self.chosen)
            if e["res"] == "eval":
                self.asked[e["q"]] = (ad, e["p"])
                if ad:
                    self.left -= 1
                self.put("propose" if ad else "other", e)
            elif not e["gens"] or e["exc"]:
                self.put("other", e)
        elif op == "accept":
            ad, self.where[e["r"]] = self.asked[e["q"]]
            if ad:
                self.adapt.add(e["r"])
            self.put("other", e)
        elif op == "reject":
            ad, p = self.asked[e["q"]]
            if ad and sync:
                self.left += 1
            self.put("withdrawn" if ad and not sync else "other", e, p=p)
        elif op in ("done", "fail"):
            p = self.where[e["r"]]
            if e["r"] in self.adapt:
                self.put(op, e, p=p, step=sync and self.left == 0 and not self.flight and not self.held)
            else:
                self.put("init" if op == "done" else "other", e, p=p)
        elif op == "crash" and self.saved:
            n, self.left, self.chosen, pend = self.saved
            self.put("resume", e, n=n, pend=pend, step=sync and self.chosen and self.left == 0 and len(pend) > 0)
        else:
            self.put("other", e)
        if op in ("done", "fail", "end"):  # a snapshot was taken
            self.saved = len(self.sev), self.left, self.chosen, [self.rec.pid(r.params[0]) for r in self.flight] + [self.rec.pid(p.args[0]) for _, p in self.held]
        return e

    def finish(self, k, op, f, die=None, **kw):
        rec = self.flight.pop(k % len(self.flight))
        self.guard(op, lambda: f(rec), r=rec.rid, **kw)
        self.event(op, r=rec.rid, **kw)

    def ask(self, ctl, accept, hold=False):
        self.rec.calls = []
        return super().ask(ctl, accept, hold)

    def run(self):
        self.where, self.asked = {}, {}
        return super().run()

    def step(self, ctl, op):
        # a value no other evaluation has, near the wanted one: 0 best so far, 1 .. 8 between, 9 worst so far
        if op[0] == "d":
            seen = sorted(self.used) or [50000]
            w = op[2]
            v = seen[0] - 97 if w == 0 else seen[-1] + 89 if w == 9 else seen[-1] + 1097 if w > 9 else seen[0] + (seen[-1] - seen[0]) * w // 9
            while v in self.used:
                v += 1
            if self.flight:
                self.used.add(v)
            op = ("d", op[1], v)
        return super().step(ctl, op)


def run(job):
    spec, ops = job
    d = tempfile.mkdtemp() if spec["crash"] else None
    try:
        r = SopRun(spec, ops, d and os.path.join(d, "f"))
        t = r.run()
    finally:
        if d:
            shutil.rmtree(d)
    if t["exc"]:
        r.sev = [{"op": "other", "exc": t["exc"], "p": 0, "v": 0, "n": 0, "step": False, "around": [], "pend": [], "evs": [], "ctr": []}]
    g = {"pt": [[int(v) for v in x] for x in r.rec.pts], "G": spec["grid"], "M": spec["M"], "n0": spec["n0"], "nc": spec["ncent"], "async": spec["async"]}
    tabu = max([e["tb"] for x in r.sev for e in x["evs"]] or [0])
    freed = sum(e["tb"] == 5 and any(f["tb"] == 0 and f["p"] == e["p"] for f in y["evs"]) for x, y in zip(r.sev, r.sev[1:]) for e in x["evs"])
    return {"id": spec["id"], "g": g, "ev": r.sev, "exc": t["exc"], "tabu": tabu, "freed": freed, "reject": sum(e["op"] == "withdrawn" for e in r.sev),
            "fails": sum(e["op"] == "fail" for e in r.sev), "choices": sum(e["op"] == "choice" for e in r.sev), "resumes": sum(e["op"] == "resume" for e in r.sev)}


def job(rng, ident, words):
    n0 = rng.choice([4, 4, 5, 6])
    nc = rng.choice([4, 4, 5, 6])
    sp = dict(id=ident, kind="sop", dim=rng.choice([1, 1, 2, 2, 3, 4]), grid=rng.choice([16, 16, 64, 256]), n0=n0, ncent=nc, b=rng.randint(1, nc), W=rng.randint(1, n0 - 1),
              restarts=rng.random() < .5, seed=rng.randint(0, 10 ** 6), ncand=30, M=n0 + rng.choice([6, 12, 24, 24]), drain=rng.randint(0, 2))
    sp["async"] = rng.random() < .6
    if sp["dim"] == 1 and rng.random() < .5:
        sp["grid"] = 1024  # points may be very close (the specification computes with 32-bit integers)
    n0 = sp["n0"]
    if sp["dim"] + 1 > n0 - 1:
        sp["W"] = min(sp["W"], n0 - 1)
    if rng.random() < .3:  # more workers than centres
        sp["n0"] = n0 = nc + 3
        sp["M"] += 3
        sp["W"] = nc + rng.randint(1, 2)
    size = rng.random()
    if size < .08:  # many evaluations, up to the end of the budget
        sp.update(dim=1, grid=256, M=n0 + 60, restarts=False)
    elif size < .25:  # far from the end of the budget
        sp.update(grid=min(sp["grid"], 64), M=n0 + 80, nodrain=True)
    sp["crash"] = rng.random() < .3
    bad = rng.choice([.1, .5, .9, 1])  # how often the values are bad
    pf, px = rng.choice([0, 0, .15]), rng.choice([0, 0, .15])
    ops = []

    def value():
        return 9 if rng.random() < bad else rng.choice([0, 0, 1, 4, 8])
    for _ in range(n0):
        ops += [("a",), ("d", 0, rng.randint(0, 9))]
    if words:
        for w in rng.choice(words):
            ops.append(("a",) if w == "a" else ("x",) if w == "x" else ("f", 0, 0) if w == "f" else ("f", 1, 1) if w == "F" else
                       ("d", 0 if w in "gb" else 1, 0 if w in "gG" else 9))
    ph = rng.choice([0, 0, .3, .7])
    for _ in range(4 * sp["M"] if not sp.get("nodrain") else 120):
        u = rng.random()
        if sp["crash"] and rng.random() < .06:
            ops.append(("k",))
            continue
        ops.append((rng.choice("hAR" if px else "hA"), rng.randrange(3)) if u < .45 and rng.random() < ph else ("a",) if u < .45 else ("x",) if u < .45 + px else ("f", rng.randrange(4), rng.randrange(2)) if u < .45 + px + pf else ("d", rng.randrange(4), value()))
    return sp, ops


def corrupt(t, rng):
    """A recording in which the memory goes wrong at one point; the rest is left out."""
    t = copy.deepcopy(t)
    idx = [k for k, e in enumerate(t["ev"]) if e["evs"] and e["ctr"]]
    if not idx:
        return None
    k = rng.choice(idx)
    e = t["ev"][k]
    t["ev"] = t["ev"][:k + 1]
    x = rng.choice(e["evs"])
    c = rng.choice(e["ctr"])
    a = rng.randrange(6)
    if a == 0:
        x["nf"] += 1
    elif a == 1:
        x["tb"] += 1
    elif a == 2:
        x["h"] += 1
    elif a == 3:
        e["ctr"].append(dict(c, np=0, ni=0))
    elif a == 4:
        e["ctr"].remove(c)
    else:
        c["i"] = c["i"] % len(e["evs"]) + 1
    return t


def words(ctx):
    r = ctx.tlc("SopGen", cfgtext="CONSTANTS LEN = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ctx.pick(6, 8))
    return sorted(r.lines("SCHED"), key=str)


def check(ctx):
    rng = ctx.rng
    ctx.assumptions += ["the points of recorded runs lie on integer grids and their values are distinct, so that ranks and the radius rule are decided exactly",
                        "at most as many workers as the design has points minus one (as for all surrogate strategies)"]
    for asy in ("TRUE", "FALSE"):
        size = ctx.pick("G = 4\nM = 6\nNC = 2\nB = 2\nMAXFAIL = 1\nSPREAD = 1\n", "G = 8\nM = 8\nNC = 2\nB = 2\nMAXFAIL = 1\nSPREAD = 1\n")
        r = ctx.tlc("SopMC", workers=8, timeout=ctx.pick(300, 1500), cfgtext="CONSTANTS %sASYNC = %s\nSPECIFICATION Spec\nINVARIANTS Memory Centers Owned\nPROPERTIES BestCentre TabuLasts\nCHECK_DEADLOCK FALSE\n" % (size, asy))
    w = words(ctx)
    ctx.cov["words_of_the_specification"] = len(w)
    jobs = [job(rng, i, w) for i in range(ctx.pick(320, 6000))]
    res = [t for t in main.results("harness.sop:run", jobs, chunk=2) if t is not None]
    for k in ("choices", "reject", "fails", "freed", "resumes"):
        ctx.cov[k] = sum(t[k] for t in res)
    ctx.cov["runs_with_tabu_points"] = sum(t["tabu"] > 0 for t in res)
    v = {}
    for i in range(0, len(res), 160):
        v.update(ctx.judge("SopJudge", res[i:i + 160]))
    for t in res:
        for b in v[t["id"]]["bad"]:
            at = v[t["id"]]["at"]
            ctx.violate("C20: %s" % b, {"job": jobs[t["id"]], "at": at, "before": t["ev"][max(0, at - 2):at - 1], "event": t["ev"][at - 1] if at else None, "g": t["g"]})
    ctx.sample(jobs[0])
    if ctx.violations:
        return
    bad = [c for c in (corrupt(t, rng) for t in res[:200]) if c]
    x, _ = tla.judge("SopJudge", bad)
    if any(not x[t["id"]]["bad"] for t in bad):
        raise tla.MachineryError("a corrupted recording was accepted")
    ctx.add("corrupted_recordings_rejected", len(bad))
