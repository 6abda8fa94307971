"""check.py <property>: runs the check of one property."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import tempfile
import shutil
import time
import traceback

from . import tla

VERIF = tla.VERIF
NPROC = max(1, min(8, os.cpu_count() or 1))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(seed * 1000003 + int(prop[1:]))
        self.violations = []  # (key, replay data)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.level = "model_checking"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def violate(self, key, data):
        self.violations.append((key, data))

    def tlc(self, module, **k):
        r = tla.tlc(module, **k)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        return r

    def judge(self, module, traces, **k):
        v, r = tla.judge(module, traces, **k)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["traces_validated_against_impl"] += len(traces)
        return v

    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def add(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def known(self):
        """Findings listed in KNOWN_FINDINGS: 'finding: property=Cxx key=<key>' (fixed ones suppress nothing)."""
        res = []
        fn = os.path.join(VERIF, "KNOWN_FINDINGS")
        if os.path.exists(fn):
            for line in open(fn):
                if line.startswith("finding: property=%s key=" % self.prop):
                    res.append(line.split("key=", 1)[1].strip())
        return res


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


_FUN = {}


def _job(x):
    name, arg, limit = x
    fun = _FUN.get(name)
    if fun is None:
        mod, f = name.rsplit(":", 1)
        fun = _FUN[name] = getattr(importlib.import_module(mod), f)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return ("ok", fun(arg))
    except Timeout:
        return ("timeout", None)
    except BaseException:
        return ("error", traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            sys.settrace(None)
        except Exception:
            pass


def pmap(name, args, limit=120, chunk=8, nproc=None):
    """[(status, result)] of fun(arg) in worker processes; status ok, timeout or error."""
    args = list(args)
    if not args:
        return []
    with mp.get_context("fork").Pool(nproc or NPROC, maxtasksperchild=None) as pool:
        return pool.map(_job, [(name, a, limit) for a in args], chunksize=chunk)


def results(name, args, **k):
    """The results of pmap; an error in the harness is an error of the machinery."""
    res = []
    for st, r in pmap(name, args, **k):
        if st == "error":
            raise tla.MachineryError("worker failed:\n" + r)
        res.append(r if st == "ok" else None)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(a.property, a.tier, seed)
    try:
        reg = importlib.import_module("harness.registry")
        mod, fun, level = reg.CHECKS[a.property]
        ctx.level = level
        getattr(importlib.import_module(mod), fun)(ctx)
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            print("ERROR the check of %s could not be carried out" % a.property)
            return 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    known = ctx.known()
    new, seen = {}, {}
    for key, data in ctx.violations:
        (seen if key in known else new).setdefault(key, []).append(data)
    ev = {"property": a.property, "tier": ctx.tier, "seed": seed, "level": ctx.level, "coverage": ctx.cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for key in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (a.property, key))
    out = os.path.join(VERIF, "out")
    for i, key in enumerate(sorted(new)):
        os.makedirs(out, exist_ok=True)
        fn = os.path.join(out, "%s-%d.json" % (a.property, i))
        with open(fn, "w") as f:
            json.dump({"property": a.property, "key": key, "count": len(new[key]), "case": new[key][0]}, f, indent=1, default=str)
        print("  %s (%d cases)" % (key, len(new[key])))
        if i < 20:
            print("VIOLATION property=%s replay=%s" % (a.property, fn))
    c = {k: v for k, v in ctx.cov.items() if k != "samples"}
    print("%s %s: %s in %.1f s: %s" % (a.property, ctx.tier, "%d violations" % len(new) if new else "held", time.time() - ctx.t0, json.dumps(c, default=str)[:900]))
    return 1 if new else 0
