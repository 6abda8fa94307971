"""The life cycle of a strategy: C01-C07, C09, C14, C15.

1. TLC explores the abstract state graph of SurrogateOptGen and prints a schedule
   of the environment for every transition.
2. The schedules (and seeded random ones, for longer runs and other settings) are
   replayed on the real strategies, every event and what the strategy shows is recorded.
3. TLC judges every recorded run against the contract (SurrogateOptTrace).
"""
import json
import os
import random

from . import main, tla

BASE = dict(M=5, N0=3, ASYNC=True, B=1, RESTARTS=True, NKNOWN=0, NASKED=0, WORKERS=2,
            MAXFAIL=1, MAXREJ=1, MAXCONV=1, MAXCRASH=0, MAXTORN=0, HOLD=0)


def cfgtext(c):
    v = lambda x: str(x).upper() if isinstance(x, bool) else '"%s"' % x if isinstance(x, str) else str(x)
    return "CONSTANTS " + " ".join("%s=%s" % (k, v(x)) for k, x in c.items()) + "\nCHECK_DEADLOCK FALSE\n"


def gen(ctx, **k):
    """Schedules covering every transition of the abstract state graph for these constants."""
    c = dict(BASE)
    c.update(k)
    r = ctx.tlc("SurrogateOptGen", cfgtext="SPECIFICATION Spec\nINVARIANT Conforms\nVIEW View\nACTION_CONSTRAINT Emit\n" + cfgtext(c), workers=1)
    S = set(tuple(map(tuple, x)) for x in r.lines("SCHED"))
    pre = set(x[:i] for x in S for i in range(len(x)))
    leaves = sorted(x for x in S if x not in pre)
    ctx.add("abstract_transitions", len(S))
    return c, leaves


VALS = [0, 1, 2, 3, 5, 5, 8, 13, 40]


def concretise(sched, rng):
    out = []
    for op in sched:
        if op[0] == "d":
            out.append(("d", op[1], rng.choice(VALS)))
        elif op[0] == "f":
            out.append(("f", op[1], rng.randint(0, 1)))
        elif op[0] == "t":
            out.append(("t", op[1], rng.choice(VALS), rng.randint(0, 70)))
        else:
            out.append(op)
    return out


def from_gen(c, sched, rng, ident, kinds):
    kind = rng.choice(kinds)
    ops = concretise(sched, rng)
    sp = dict(id=ident, kind=kind, M=c["M"], n0=c["N0"], b=c["B"], restarts=c["RESTARTS"], W=c["WORKERS"],
              seed=rng.randint(0, 10 ** 6), drain=rng.randint(0, 2), probe=rng.random() < .3, again=rng.random() < .2)
    sp["async"] = c["ASYNC"]
    sp["extras"] = [5] * c["NKNOWN"] + [None] * c["NASKED"]
    if rng.random() < .35:
        sp["grid"] = rng.choice([1, 2, 3])
        sp["dim"] = rng.choice([1, 2])
    else:
        sp["dim"] = rng.choice([1, 2, 3])
        if rng.random() < .3:
            sp["ints"] = [0]
    if sp["async"] and rng.random() < .2:
        sp["bs_in_async"], sp["b"] = True, rng.randint(1, 3)
    if rng.random() < .3:
        sp["infvals"] = True
    scale_values(sp, rng)
    return sp, ops


def scale_values(sp, rng):
    """Objectives of very different magnitudes and signs, and types of values."""
    sp["vtype"] = rng.choice(["float", "float", "int", "numpy"])
    if sp["kind"] not in ("ei", "lcb") and rng.random() < .4:
        sp["vscale"] = rng.choice([1e-9, -1.0, 1e12, -1e6, -1e-3, 1e20])
        sp["voff"] = rng.choice([0.0, 0.0, 5.0, -1e6])
    sp["endfail"], sp["endrej"] = rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 2])


def random_job(rng, ident, kinds, crash, big=False):
    kind = rng.choice(kinds)
    sp = dict(id=ident, kind=kind, seed=rng.randint(0, 10 ** 6), drain=rng.randint(0, 2), restarts=rng.random() < .7,
              probe=rng.random() < .3, again=rng.random() < .3, dim=rng.randint(1, 3))
    sp["async"] = rng.random() < .5
    sp["n0"] = rng.randint(2, 6)
    slow = kind in ("ei", "lcb")
    sp["M"] = sp["n0"] + rng.randint(0, 6 if slow else 40 if big else 12)
    sp["W"] = rng.randint(1, sp["n0"] - 1)
    sp["b"] = rng.randint(1, 4)
    if kind == "sop":
        sp["ncent"] = rng.randint(4, 6)
        if sp["b"] == 4 and rng.random() < .5:
            sp["b"] = sp["ncent"]
    if slow:
        sp["flat"] = sorted(rng.sample(range(2, 12), rng.randint(0, 2)))
        sp["dim"] = rng.randint(1, 2)
    if rng.random() < .3:
        sp["grid"] = rng.choice([1, 2, 3, 5])
    elif rng.random() < .3:
        sp["ints"] = [rng.randrange(sp["dim"])]
    elif rng.random() < .3:
        lb = rng.choice([-1e6, -5.0, 0.0, 1e-9])
        sp["lb"], sp["ub"] = lb, lb + rng.choice([1e-3, 1.0, 1e4])
    if rng.random() < .35:
        sp["extras"] = [rng.choice([None, 3, 0]) for _ in range(rng.randint(1, 3))]
        sp["infvals"] = rng.random() < .5
        sp["nanvals"] = rng.random() < .5
    # RBF needs enough points in the first place, whatever is in flight
    if not slow and sp["dim"] == 1 and sp["n0"] >= 4 and not sp.get("grid") and rng.random() < .4:
        sp["rbf"] = True
        sp["W"] = min(sp["W"], sp["n0"] - 2)
    scale_values(sp, rng)
    style = rng.random()
    pf, px, pc, pk = (.1, .1, .02, .05) if style < .5 else (.3, .25, .05, .1) if style < .8 else (0, 0, .1, .02)
    ph = rng.choice([0, 0, .3, .8])
    n = rng.randint(0, 4 * sp["M"])
    ops = []
    trend = rng.random()
    v = 1000
    for _ in range(n):
        u = rng.random()
        k = rng.randrange(4) if rng.random() < .7 else 0
        if trend < .3:
            v = v - rng.randint(0, 5) if rng.random() < .5 else v
            val = max(v, 0)
        elif trend < .5:
            val = 7
        else:
            val = rng.choice(VALS)
        if crash and u < pk:
            ops.append(("k",) if rng.random() < .5 else ("t", k, val, rng.randint(0, 70)))
        elif u < pk + pc:
            ops.append(("c",))
        elif u < pk + pc + pf:
            ops.append(("f", k, rng.randint(0, 1)))
        elif u < pk + pc + pf + px:
            ops.append(("x",))
        elif u < .65:
            ops.append((rng.choice("hAR"), k) if rng.random() < ph else ("a",))
        else:
            ops.append(("d", k, val))
    return sp, ops


def restart_job(rng, ident, kinds):
    """Several runs, with evaluations of the old run in flight at the restart."""
    kind = rng.choice(kinds)
    slow = kind in ("ei", "lcb")
    sp = dict(id=ident, kind=kind, seed=rng.randint(0, 10 ** 6), drain=rng.randint(0, 2), restarts=True, dim=rng.randint(1, 2), b=rng.randint(1, 3))
    sp["async"] = rng.random() < .7
    sp["n0"] = rng.randint(3, 5)
    sp["W"] = rng.randint(2, sp["n0"] - 1)
    sp["M"] = 2 * sp["n0"] + rng.randint(3, 10)
    if slow:
        sp["flat"] = [sp["n0"] + rng.randint(1, 2)]
    if rng.random() < .4:
        sp["grid"] = rng.choice([2, 5])
    if rng.random() < .3:
        sp["extras"] = [rng.choice([None, 3]) for _ in range(rng.randint(1, 2))]
        sp["nanvals"] = True
    scale_values(sp, rng)
    ops = []
    for _ in range(rng.randint(1, 3)):
        done = 0
        while done < sp["n0"] + 2:  # the design and some adaptive points
            ops += [("a",)] * rng.randint(1, sp["W"]) if rng.random() < .7 else [("h",), ("h",), ("A", rng.randrange(2))]
            for _ in range(rng.randint(1, 2)):
                u = rng.random()
                ops.append(("f", rng.randrange(3), 0) if u < .1 else ("x",) if u < .2 else ("d", rng.randrange(3), rng.choice(VALS)))
                done += ops[-1][0] == "d"
        ops += rng.choice([[("a",)] * sp["W"], [("h",)] + [("a",)] * (sp["W"] - 1), [("h",)] * sp["W"]]) + [("d", 0, rng.choice(VALS)), ("c",)]
        if not sp["async"]:
            ops += [("A", 0)] * sp["W"] + [("d", 0, 3)] * sp["W"] + [("c",)]
        elif rng.random() < .5:  # decide about old proposals after the restart
            ops += [("a",)] + [(rng.choice("AAR"), 0)] * 2
        ops += [("a",)] * rng.randint(1, 2) + [rng.choice([("d", 0, rng.choice(VALS)), ("f", 0, 1)]) for _ in range(rng.randint(0, 2))]
    return sp, ops


def monitor_job(rng, ident, kinds):
    kind = rng.choice(kinds)
    slow = kind in ("ei", "lcb")
    sp = dict(id=ident, kind=kind, n0=rng.randint(8, 10), b=rng.randint(1, 4), restarts=rng.random() < .7, W=rng.randint(1, 4),
              seed=rng.randint(0, 10 ** 6), dim=2, problem=rng.choice(["ackley", "rastrigin", "sphere"]),
              controller=rng.choice(["serial", "sim", "thread"]), pfail=rng.choice([0, .15]), round=rng.random() < .5)
    sp["M"] = rng.randint(14, 18) if slow else rng.randint(20, 50)
    if slow:
        sp["flat"] = [rng.randint(10, 17)]
    if sp["controller"] == "serial":
        sp.update(b=1, pfail=0, W=1)
    sp["async"] = rng.random() < .5
    return sp


def explore(ctx, gens, kinds, nrandom, nmon, ngen, crash=False, rkinds=None, big=False):
    """Generates, replays, judges; reports the clauses of ctx.prop that are broken."""
    rng = ctx.rng
    jobs, total = [], 0
    for g in gens:
        c, leaves = gen(ctx, **g)
        total += len(leaves)
        part = leaves if ctx.thorough and len(leaves) <= ngen else rng.sample(leaves, min(len(leaves), max(20, ngen // len(gens))))
        for l in part:
            ks = [k for k in kinds if not (k == "sop" and ("c",) in l)] or ["srbf"]
            jobs.append(from_gen(c, l, rng, len(jobs), ks))
    ctx.add("schedules_from_spec", len(jobs))
    ctx.add("schedules_generated_by_tlc", total)
    for _ in range(nrandom):
        jobs.append(random_job(rng, len(jobs), rkinds or kinds, crash, big))
    for _ in range(0 if crash else nrandom // 2):
        jobs.append(restart_job(rng, len(jobs), ["srbf", "dycors", "ei", "lcb"]))
    args = [(sp, ops, os.path.join(ctx.tmp, "ck%d" % sp["id"]) if crash else None) for sp, ops in jobs]
    # slow ones first
    args.sort(key=lambda a: a[0]["kind"] not in ("ei", "lcb"))
    st = main.pmap("harness.driver:execute", args, limit=90, chunk=4)
    mons = [monitor_job(rng, len(jobs) + i, rkinds or kinds) for i in range(nmon)]
    st += main.pmap("harness.monitor:execute", mons, limit=90, chunk=1)
    src = {a[0]["id"]: (a[0], a[1]) for a in args}
    src.update({m["id"]: (m, []) for m in mons})
    traces = []
    for a, (status, t) in zip([x[0] for x in args] + mons, st):
        if status == "error":
            raise tla.MachineryError("driver failed on %s:\n%s" % (a, t))
        if status == "timeout":
            ctx.add("timeouts")
            if ctx.prop == "C06":
                ctx.violate("C06: run does not come to an end", {"spec": a, "schedule": src[a["id"]][1]})
            continue
        traces.append(t)
    ctx.add("random_schedules", nrandom)
    ctx.add("runs_under_poap_controllers", nmon)
    verdicts = {}
    for i in range(0, len(traces), 3000):
        verdicts.update(ctx.judge("SurrogateOptTrace", traces[i:i + 3000]))
    other = set()
    for t in traces:
        v = verdicts[t["id"]]
        for p, clause, at in v["bad"]:
            if p == "harness":
                raise tla.MachineryError("ill-formed trace: %s at event %s of %s" % (clause, at, src[t["id"]]))
            if p == ctx.prop:
                e = t["ev"][at - 1] if 0 < at <= len(t["ev"]) else {}
                ctx.violate("%s: %s" % (p, clause), {
                    "spec": src[t["id"]][0], "schedule": src[t["id"]][1], "event": at, "exc": e.get("exc"), "tb": e.get("tb"),
                    "what": e, "before": [x["op"] for x in t["ev"][:at]]})
            else:
                other.add(p)
    if other:
        ctx.cov["other_properties_broken"] = sorted(other)
    cnt = {}
    for t in traces:
        for e in t["ev"]:
            cnt[e["op"]] = cnt.get(e["op"], 0) + 1
            if e["designs"]:
                cnt["restart"] = cnt.get("restart", 0) + 1
            if e["gens"]:
                cnt["adaptive_choice"] = cnt.get("adaptive_choice", 0) + 1
    ctx.cov["events"] = cnt
    for t in traces[:: max(1, len(traces) // 3)]:
        sp, ops = src[t["id"]]
        ctx.sample({"spec": sp, "schedule": [list(o) for o in ops], "events": [e["op"] for e in t["ev"]]})
    selftest(ctx, traces, verdicts)
    return traces, verdicts


def selftest(ctx, traces, verdicts):
    """Corrupted recordings must be rejected: the binding is not vacuous."""
    good = [t for t in traces if not verdicts[t["id"]]["bad"] and len(t["ev"]) > 12]
    if not good:
        return
    rng = random.Random(5)
    bad, want = [], {}
    def corrupt(t, f, prop):
        t = json.loads(json.dumps(t))
        t["ev"] = [e for e in t["ev"] if e["op"] not in ("norun", "noresume")]
        if f(t):
            t["id"] = len(bad)
            want[t["id"]] = prop
            bad.append(t)
    def drop_x(t):
        es = [e for e in t["ev"] if len(e["o"]["X"]) > 1]
        if es:
            e = rng.choice(es)
            e["o"]["X"] = e["o"]["X"][:-1]
        return bool(es)
    def more_pending(t):
        es = [e for e in t["ev"] if e["o"]["P"]]
        if es:
            e = rng.choice(es)
            e["o"]["P"] = e["o"]["P"] + e["o"]["P"][:1]
        return bool(es)
    def lose_data(t):
        es = [e for e in t["ev"] if e["gens"] and len(e["gens"][0]["X"]) > 1]
        if es:
            e = rng.choice(es)
            e["gens"][0]["X"] = e["gens"][0]["X"][1:]
            e["gens"][0]["F"] = e["gens"][0]["F"][1:]
        return bool(es)
    def miscount(t):
        e = rng.choice(t["ev"])
        e["o"]["n"] += 1
        return True
    for t in rng.sample(good, min(6, len(good))):
        corrupt(t, drop_x, "C02")
        corrupt(t, more_pending, "C03")
        corrupt(t, lose_data, "C07")
        corrupt(t, miscount, "C01")
    v, _ = tla.judge("SurrogateOptTrace", bad)
    for i, p in want.items():
        if not any(x[0] in (p, "C15") for x in v[i]["bad"]):
            raise tla.MachineryError("a corrupted recording (%s) was accepted" % p)
    ctx.add("corrupted_recordings_rejected", len(bad))


def design_model(ctx, configs):
    """Exhaustive check of the contract itself: the clauses imply the global guarantees."""
    for c in configs:
        d = dict(M=4, N0=2, ASYNC=True, B=1, RESTARTS=True, KIND="srbf", NKNOWN=0, NASKED=0, WORKERS=2,
                 MAXFAIL=1, MAXREJ=1, MAXCONV=1, MAXCRASH=0, HOLD=1)
        d.update(c)
        ctx.tlc("SurrogateOptMC", cfgtext="SPECIFICATION Spec\nINVARIANTS Budget UsedUp Ledger OncePerInit BatchBound NoMixing DataIsRun Receptive\n"
                "PROPERTY Terminates\n" + cfgtext(d), workers=8, timeout=1500)
        ctx.add("design_models")


ALL = ["srbf", "dycors", "sop"]
WITHGP = ["srbf", "srbf", "dycors", "dycors", "sop", "sop", "ei", "lcb"]
SMALL = [dict(), dict(ASYNC=False, B=2), dict(RESTARTS=False), dict(ASYNC=False, B=2, RESTARTS=False, M=5),
         dict(M=6, MAXFAIL=2, MAXREJ=1, MAXCONV=0, NASKED=1), dict(M=4, HOLD=2, MAXFAIL=0), dict(M=4, ASYNC=False, B=2, HOLD=2, MAXFAIL=0, MAXCONV=0)]
DEEP = SMALL + [dict(M=6, MAXFAIL=2, MAXREJ=2), dict(M=7), dict(M=6, N0=4, WORKERS=3), dict(M=7, ASYNC=False, B=3, MAXFAIL=2, MAXREJ=2),
                dict(NKNOWN=1, NASKED=1, M=6), dict(M=8, N0=2, WORKERS=1, MAXCONV=2), dict(M=7, N0=2, WORKERS=1, ASYNC=False, B=2, MAXCONV=2, MAXFAIL=2)]
CRASH = [dict(MAXCRASH=1, MAXCONV=0), dict(ASYNC=False, B=2, MAXTORN=1, MAXCRASH=1), dict(MAXTORN=1, MAXREJ=0)]
CRASHDEEP = CRASH + [dict(M=6, MAXCRASH=2, MAXFAIL=1, MAXREJ=0), dict(M=6, ASYNC=False, B=2, MAXTORN=2, MAXCONV=1),
                     dict(M=6, N0=4, WORKERS=3, MAXREJ=0, MAXTORN=1, MAXCONV=0), dict(NASKED=1, NKNOWN=1, MAXCRASH=1, MAXTORN=1)]
MODELS = {
    "C01": [dict(), dict(RESTARTS=False)],
}


def life(ctx):
    p = ctx.prop
    ctx.assumptions += [
        "the strategies are observed through their public attributes (X, fX, Xpend, num_evals, pending_evals, fevals, converged, surrogate.X)",
        "workers do not outnumber the initial design, so that there is data when the adaptive phase begins",
        "convergence is an input of the contract: for SRBF and DYCORS it is also forced through the documented attribute 'converged'"]
    if p in ("C14", "C15"):
        explore(ctx, ctx.pick(CRASH, CRASHDEEP), ALL, ctx.pick(120, 1500), 0, ctx.pick(300, 20000), crash=True)
    else:
        gens = ctx.pick(SMALL, DEEP)
        explore(ctx, gens, ALL, ctx.pick(240, 4000), ctx.pick(12, 120), ctx.pick(700, 40000), rkinds=WITHGP, big=True)
    if ctx.thorough:
        design_model(ctx, THOROUGH_MODELS)


THOROUGH_MODELS = [dict(NKNOWN=1, NASKED=1), dict(ASYNC=False, B=2), dict(RESTARTS=False), dict(ASYNC=False, B=2, RESTARTS=False),
                   dict(KIND="ei"), dict(KIND="ei", ASYNC=False, B=2), dict(KIND="sop", ASYNC=True), dict(MAXCRASH=1, MAXREJ=0),
                   dict(ASYNC=False, B=2, MAXCRASH=1, MAXREJ=0)]
