"""C10: search radius and convergence of SRBF and DYCORS."""
import json
import random

from . import life, main, tla


class Sim:
    """Chooses values that make a step a success or a failure (the verdict is TLC's alone)."""

    def __init__(self, rng):
        self.rng, self.best = rng, None

    def value(self, ok):
        rng = self.rng
        if self.best is None:
            self.best = rng.choice([0, 7, 1000, -1000, 123457, -54321, 1])
            return self.best
        a = abs(self.best)
        need = a // 1000 + 1  # the smallest integer improvement above 0.1 %
        if ok:
            self.best -= need + rng.choice([0, 0, 1, 5, 999])
            if abs(self.best) > 900000:
                self.best += 0
            return self.best
        lack = a // 1000 if a % 1000 or a in (0, 1000) else a // 1000 - 1
        return self.best - rng.randint(0, lack) if rng.random() < .5 else self.best + rng.choice([0, 1, 40, 100000])


def concretise(c, word, rng, n0):
    """The steps of the driver for a history of RadiusGen."""
    ops, sim, fly = [], Sim(rng), []
    b = 1 if c["ASYNC"] else c["B"]

    def initial():
        k = len(fly)
        ops.extend([("a",)] * n0)
        for _ in range(n0):
            ops.append(("d", k, rng.choice([3, -10 ** 5, 50, -7])))
    initial()
    for op in word:
        if op[0] == "A":
            for _ in range(b):
                if rng.random() < .1:
                    ops.append(("x",))
                ops += [("h",), ("A", 0)] if rng.random() < .1 else [("a",)]
            fly.append(b)
        elif op[0] == "R":
            sim.best = None
            initial()
        else:
            k = op[1]
            fly.pop(k)
            if c["ASYNC"]:
                if op[0] == "X":
                    ops.append(("f", k, rng.randint(0, 1)))
                else:
                    ops.append(("d", k, sim.value(op[0] == "S")))
            else:  # the members of the batch finish one by one; the best counts
                n = b
                if op[0] == "X":
                    outs = [("f", rng.randint(0, 1))] * b
                else:
                    prev = sim.best
                    v = sim.value(op[0] == "S")
                    outs = [("d", v)]
                    for _ in range(b - 1):
                        outs.append(("f", rng.randint(0, 1)) if rng.random() < .2 else ("d", v + rng.choice([0, 1, 5, 77])))
                    rng.shuffle(outs)
                for o in outs:
                    ops.append((o[0], rng.randrange(n), o[1]))
                    n -= 1
    return ops


def from_word(c, word, rng, ident):
    sp = dict(id=ident, kind=rng.choice(["srbf", "dycors"]), n0=c["D"] + 1, M=5000, b=c["B"], W=c["D"] + 1 + max(c["W"], c["B"]) + 1,
              restarts=True, seed=rng.randint(0, 10 ** 6), dim=c["D"], nodrain=True, ncand=5)
    sp["async"] = c["ASYNC"]
    if rng.random() < .2:
        sp["grid"] = 3
    return sp, concretise(c, word, rng, sp["n0"])


def random_job(rng, ident):
    """Several evaluations in flight, values that drift."""
    d = rng.choice([1, 2, 3, 4, 5, 6, 9])
    sp = dict(id=ident, kind=rng.choice(["srbf", "dycors"]), n0=d + 1 + rng.randint(0, 2), restarts=rng.random() < .8,
              b=rng.choice([1, 1, 2, 3, 4, 5, 7]), seed=rng.randint(0, 10 ** 6), dim=d, nodrain=True, ncand=5)
    sp["M"] = rng.choice([60, 5000])
    sp["async"] = rng.random() < .6
    sp["W"] = rng.randint(1, sp["n0"] - 1)  # as many as there are data for
    n = rng.randint(50, 300)
    p = rng.choice([0, .1, .3, .5, .9])
    v = rng.choice([0, 1000, 100000, -3, 12345])
    pf, px = rng.choice([(0, 0), (.1, .1), (.3, .1)])
    ph = rng.choice([0, 0, .3, .7])
    ops = []
    for _ in range(n):
        u = rng.random()
        if u < px:
            ops.append(("x",))
        elif u < .5:
            ops.append((rng.choice("hAR" if px else "hA"), rng.randrange(3)) if rng.random() < ph else ("a",))
        elif u < .5 + pf / 2:
            ops.append(("f", rng.randrange(8), 0))
        else:
            if rng.random() < p:
                v = v - rng.choice([1, 2, 1 + abs(v) // 1000, abs(v) // 999, 500])
                v = max(v, -900000)
            w = v + rng.choice([0, 0, 1, 3, 1000])
            if w % 1000 == 0 and abs(w) > 1000:
                w += 1
            ops.append(("d", rng.randrange(8), w))
    return sp, ops


def check(ctx):
    ctx.assumptions += ["radius and convergence are read from the public attributes sampling_radius and converged",
                        "values are integers below 10^6 that are not multiples of 1000 (so that rounding in the 0.1 % test cannot matter)"]
    rng = ctx.rng
    Q = [dict(ASYNC=True, D=3, B=1, W=1, MAXRUNS=2, MAXABORT=0), dict(ASYNC=True, D=2, B=1, W=2, MAXRUNS=2, MAXABORT=0),
         dict(ASYNC=True, D=6, B=1, W=1, MAXRUNS=1, MAXABORT=0),
         dict(ASYNC=False, D=3, B=2, W=1, MAXRUNS=2, MAXABORT=1), dict(ASYNC=False, D=9, B=3, W=1, MAXRUNS=1, MAXABORT=1),
         dict(ASYNC=False, D=2, B=5, W=1, MAXRUNS=1, MAXABORT=0)]
    T = Q + [dict(ASYNC=True, D=4, B=1, W=3, MAXRUNS=1, MAXABORT=1), dict(ASYNC=True, D=5, B=1, W=2, MAXRUNS=2, MAXABORT=1),
             dict(ASYNC=True, D=12, B=1, W=2, MAXRUNS=1, MAXABORT=0), dict(ASYNC=False, D=1, B=1, W=1, MAXRUNS=2, MAXABORT=2),
             dict(ASYNC=False, D=12, B=4, W=1, MAXRUNS=2, MAXABORT=1), dict(ASYNC=False, D=7, B=3, W=1, MAXRUNS=2, MAXABORT=1)]
    jobs = []
    for c in ctx.pick(Q, T):
        r = ctx.tlc("RadiusGen", workers=1, cfgtext="SPECIFICATION Spec\nINVARIANT Sane\nVIEW View\nACTION_CONSTRAINT Emit\n" + life.cfgtext(c))
        S = set(tuple(map(tuple, x)) for x in r.lines("SCHED"))
        pre = set(x[:i] for x in S for i in range(len(x)))
        leaves = sorted(x for x in S if x not in pre)
        ctx.add("abstract_transitions", len(S))
        ctx.add("histories_generated_by_tlc", len(leaves))
        for w in leaves if ctx.thorough else rng.sample(leaves, min(len(leaves), 130)):
            jobs.append(from_word(c, w, rng, len(jobs)))
    ctx.cov["histories_from_spec"] = len(jobs)
    for _ in range(ctx.pick(200, 3000)):
        jobs.append(random_job(rng, len(jobs)))
    traces = []
    for (sp, ops), t in zip(jobs, main.results("harness.driver:execute", [(sp, ops, None) for sp, ops in jobs], chunk=8, limit=90)):
        if t is None:
            ctx.add("timeouts")
            continue
        traces.append(slim(t))
    hs, convs = {}, 0
    for i in range(0, len(traces), 1000):
        v = ctx.judge("RadiusTrace", traces[i:i + 1000])
        for x in v.values():
            hs[x["h"]] = hs.get(x["h"], 0) + 1
            convs += x["conv"]
            for n, at in x["bad"]:
                sp, ops = jobs[x["id"]]
                t = next(t for t in traces if t["id"] == x["id"])
                ctx.violate("C10: " + n, {"spec": sp, "schedule": ops, "event": at, "events": [(e["op"], e["r"], e["raw"], e["o"]["rad"], e["o"]["c"]) for e in t["ev"][:at]]})
    ctx.cov["radius_at_the_end"] = {str(k): hs[k] for k in sorted(hs)}
    ctx.cov["converged_at_the_end"] = convs
    for sp, ops in jobs[:2]:
        ctx.sample({"spec": sp, "schedule": ops[:60]})
    # a recording with another radius, or a later convergence, must be rejected
    bad = []
    for t in traces[:150]:
        k = [k for k, e in enumerate(t["ev"]) if e["op"] == "done"]
        if not k or ctx.violations:
            continue
        u = json.loads(json.dumps(t))
        e = u["ev"][rng.choice(k)]
        if rng.random() < .5:
            e["o"]["rad"] += 1
        else:
            e["o"]["c"] = not e["o"]["c"]
        bad.append(u)
    if bad:
        w, _ = tla.judge("RadiusTrace", bad)
        if any(not x["bad"] for x in w.values()):
            raise tla.MachineryError("a corrupted recording was accepted")
        ctx.add("corrupted_recordings_rejected", len(bad))


def slim(t):
    """Only what the judge needs."""
    ev = []
    for e in t["ev"]:
        ev.append({"op": e["op"], "exc": e["exc"], "file": "-", "r": e["r"], "q": e["q"], "v": e["v"], "raw": e["raw"], "res": e["res"], "p": e["p"],
                   "designs": e["designs"], "gens": [0] * min(1, len(e["gens"])), "o": {"c": e["o"]["c"], "rad": e["o"]["rad"]}})
    return {"id": t["id"], "c": t["c"], "design": t["design"], "exc": t["exc"], "o": {"rad": t["o"]["rad"]}, "ev": ev}
