"""C22: the random strategy."""
from . import env  # noqa: F401
import random

import numpy as np
from poap.controller import Controller

from pySOT.strategy import RandomStrategy

from . import driver, life, main, tla


def play(spec, ops, reseed, bag=None):
    """The events of one run and its points, numbered as in bag."""
    rng = random.Random(spec["seed"])
    np.random.seed(spec["seed"])
    p = driver.Box(spec["dim"], spec["lb"], spec["ub"], spec["ints"])
    ev, ids, order = [], {} if bag is None else dict(bag), []

    def pid(x):
        k = (np.asarray(x, dtype=float) + 0.0).tobytes()
        ids.setdefault(k, len(ids) + 1)
        return ids[k]

    def feas(x):
        x = np.asarray(x, dtype=float)
        return bool(x.shape == (p.dim,) and np.all(x >= p.lb) and np.all(x <= p.ub) and np.all(x[p.int_var] == np.round(x[p.int_var])))

    def put(op, **k):
        e = {"op": op, "exc": "", "res": "", "p": 0, "q": 0, "r": 0, "feas": True}
        e.update(k)
        ev.append(e)
        return e
    ctl = Controller()
    fly, held, n = [], [], {"q": 0, "r": 0, "again": 0}

    def accept(q, pr):
        pr.record = ctl.new_feval(pr.args)
        n["r"] += 1
        pr.record.rid = n["r"]
        pr.accept()
        fly.append(pr.record)
        put("accept", q=q, r=n["r"])

    def reject(q, pr):
        pr.reject()
        put("reject", q=q)
    try:
        s = RandomStrategy(spec["M"], p)
        np.random.seed(reseed)
        ctl.strategy = s
        script, steps = list(ops), 0
        while steps < 60 * spec["M"] + 300:
            steps += 1
            if script:
                op = script.pop(0)
            elif held:
                op = (rng.choice("AAR"), rng.randrange(len(held)))
            elif len(fly) < spec["W"] and not (ev and ev[-1]["op"] == "ask" and ev[-1]["res"] == "none"):
                op = ("a",)
            elif fly:
                op = ("d", rng.randrange(len(fly)))
            else:
                op = ("a",)
            if op[0] in "axh":
                try:
                    pr = s.propose_action()
                except Exception as ex:
                    put("ask", exc=repr(ex), res="none")
                    break
                if pr is None:
                    put("ask", res="none")
                    if not fly and not held:
                        break
                elif pr.action == "terminate":
                    put("ask", res="term")
                    if op[0] == "x" and n["again"] < 3:
                        n["again"] += 1
                        pr.reject()
                        put("again")
                        continue
                    pr.accept()
                    break
                else:
                    x = pr.args[0]
                    n["q"] += 1
                    order.append(pid(x))
                    put("ask", res="eval", p=order[-1], q=n["q"], feas=feas(x))
                    if op[0] == "h":
                        held.append((n["q"], pr))
                    elif op[0] == "a" and len(fly) < spec["W"]:
                        accept(n["q"], pr)
                    else:
                        reject(n["q"], pr)
            elif op[0] in "AR":
                if held and (op[0] == "R" or len(fly) < spec["W"]):
                    (accept if op[0] == "A" else reject)(*held.pop(op[1] % len(held)))
                elif held and not script and fly:
                    script.append(("d", rng.randrange(len(fly))))
            elif fly:
                r = fly.pop(op[1] % len(fly))
                if op[0] == "d":
                    r.complete(float(rng.choice([0, 1, 5, 9, -3e9, 1e300, float("inf")])))
                elif rng.random() < .5:
                    r.kill()
                else:
                    r.cancel()
                put("done" if op[0] == "d" else "fail", r=r.rid)
    except Exception as ex:
        put("end", exc=repr(ex))
    return ev, order, ids


def execute(job):
    """The points of a plain run, and a run with failures that draws other random numbers after the start."""
    spec, ops = job
    plain, bag, ids = play(dict(spec, W=1), [], 4711)
    ev, _, _ = play(spec, ops, 11, ids)
    return {"id": spec["id"], "M": spec["M"], "bag": bag, "exc": "".join(e["exc"] for e in plain), "ev": ev}


def check(ctx):
    rng = ctx.rng
    jobs = []
    for c in ctx.pick([dict(M=3, TWINS=1, WORKERS=2, MAXREJ=1, MAXFAIL=1, HOLD=0), dict(M=3, TWINS=0, WORKERS=3, MAXREJ=0, MAXFAIL=2, HOLD=0),
                       dict(M=2, TWINS=0, WORKERS=1, MAXREJ=2, MAXFAIL=1, HOLD=2)],
                      [dict(M=4, TWINS=0, WORKERS=2, MAXREJ=2, MAXFAIL=2, HOLD=0), dict(M=4, TWINS=1, WORKERS=4, MAXREJ=1, MAXFAIL=2, HOLD=0),
                       dict(M=5, TWINS=2, WORKERS=3, MAXREJ=1, MAXFAIL=1, HOLD=0), dict(M=3, TWINS=1, WORKERS=2, MAXREJ=2, MAXFAIL=2, HOLD=2)]):
        r = ctx.tlc("RandomRetryGen", workers=1, cfgtext="SPECIFICATION Spec\nINVARIANTS Conforms Conserved Ends\nVIEW View\nACTION_CONSTRAINT Emit\n" + life.cfgtext(dict(c, HIST=True)))
        S = set(tuple(map(tuple, x)) for x in r.lines("SCHED"))
        pre = set(x[:i] for x in S for i in range(len(x)))
        leaves = sorted(x for x in S if x not in pre)
        ctx.add("abstract_transitions", len(S))
        for l in leaves if ctx.thorough else rng.sample(leaves, min(len(leaves), 400)):
            jobs.append((dict(M=c["M"], W=c["WORKERS"]), l))
        ctx.tlc("RandomRetryGen", workers=4, cfgtext="SPECIFICATION Spec\nINVARIANTS Conforms Conserved Ends\nPROPERTY Terminates\n" + life.cfgtext(dict(c, M=min(c["M"], 3), HIST=False)), timeout=600)
    for _ in range(ctx.pick(300, 5000)):
        M = rng.choice([1, 2, 3, 5, 8, 12])
        h = rng.random() < .4
        ops = [rng.choice([("a",), ("a",), ("x",), ("d", rng.randrange(4)), ("f", rng.randrange(4))] + h * [("h",), ("h",), ("A", rng.randrange(3)), ("R", rng.randrange(3))])
               for _ in range(rng.randint(0, 5 * M))]
        jobs.append((dict(M=M, W=rng.randint(1, 4)), ops))
    for i, (sp, ops) in enumerate(jobs):
        sp["id"], sp["seed"], sp["dim"] = i, rng.randint(0, 10 ** 6), rng.randint(1, 4)
        sp["lb"] = rng.choice([0.0, -3.0, 1e8, -1e-7])
        sp["ub"] = sp["lb"] + rng.choice([1.0, 1.0, 2.0, 7.0, 1e4])
        sp["ints"] = rng.sample(range(sp["dim"]), rng.choice([sp["dim"], rng.randint(0, sp["dim"])])) if sp["lb"] != -1e-7 else []
    traces = [t for t in main.results("harness.randomretry:execute", jobs, chunk=32) if t is not None]
    ctx.cov["runs_with_equal_points"] = sum(len(set(t["bag"])) < len(t["bag"]) for t in traces)
    v = ctx.judge("RandomRetryTrace", traces)
    for t in traces:
        for n, at in v[t["id"]]["bad"]:
            if n.startswith("harness"):
                raise tla.MachineryError("%s in %s" % (n, jobs[t["id"]]))
            ctx.violate("C22: " + n, {"spec": jobs[t["id"]][0], "schedule": jobs[t["id"]][1], "event": at, "events": t["ev"][:at + 1]})
    for t in traces[:3]:
        ctx.sample({"spec": jobs[t["id"]][0], "schedule": jobs[t["id"]][1]})
    # a recording in which a point is evaluated twice must be rejected
    bad = [dict(t) for t in traces if len(set(t["bag"])) > 1 and not v[t["id"]]["bad"]][:40]
    for t in bad:
        last = [e for e in t["ev"] if e["res"] == "eval"][-1]
        t["ev"] = [dict(e, p=rng.choice([p for p in t["bag"] if p != e["p"]])) if e is last else e for e in t["ev"]]
    w, _ = tla.judge("RandomRetryTrace", bad)
    if any(not x["bad"] for x in w.values()):
        raise tla.MachineryError("corrupted recordings were accepted")
    ctx.add("corrupted_recordings_rejected", len(bad))
