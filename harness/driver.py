"""Drives the real pySOT strategies through schedules and records what they do.

A schedule is a list of steps of the environment (the controller):
   ("a",)          ask; accept an evaluation (rejected if W are in flight)
   ("x",)          ask; reject an evaluation
   ("h",)          ask; decide later about what is proposed
   ("A", k), ("R", k)   accept or reject the k-th undecided proposal
   ("d", k, v)     complete the k-th evaluation in flight (modulo) with value v
   ("f", k, kind)  kill (0) or cancel (1) the k-th evaluation in flight
   ("c",)          the search converges
   ("k",)          the process dies and is resumed from the checkpoint file
   ("t", k, v, j)  complete the k-th in flight, and die at the j-th instant of handling it
A step that is impossible in the current state is skipped.  After the schedule
the environment is fair: it asks and completes until the strategy terminates.

What is recorded is judged by spec/SurrogateOptTrace.tla.
"""
from . import env  # noqa: F401
import inspect
import builtins
import errno
import io
import math
import os
import random
import shutil
import sys

import dill
import numpy as np
from poap.controller import Controller

from pySOT.controller import CheckpointController
from pySOT.experimental_design import ExperimentalDesign
from pySOT.optimization_problems import OptimizationProblem
from pySOT.strategy import DYCORSStrategy, EIStrategy, LCBStrategy, SOPStrategy, SRBFStrategy
from pySOT.surrogate import CubicKernel, GPRegressor, LinearTail, RBFInterpolant
from pySOT.surrogate.surrogate import Surrogate
import pySOT.strategy as _strategies  # noqa: F401

CUR = None  # the recorder of the run in progress (never pickled)


class Recorder:
    def __init__(self):
        self.ids = {}
        self.pts = []
        self.events = []
        self.nrid = 0
        self.clear()
        self.predicts = None  # candidates and predictions, if wanted
        self.watch = None  # called at instants inside pySOT while it handles an update

    def clear(self):
        self.designs, self.gens, self.search, self.ncand = [], [], [], 0

    def pid(self, x):
        x = np.asarray(x, dtype=float).ravel() + 0.0
        key = x.tobytes()
        if key not in self.ids:
            self.ids[key] = len(self.ids) + 1
            self.pts.append(x)
        return self.ids[key]

    def pids(self, X):
        return [self.pid(x) for x in np.atleast_2d(X)] if len(X) else []

    def queried(self, X, fX):
        g = {"X": self.pids(X), "F": [float(v) for v in np.ravel(fX)]}
        if g not in self.gens:
            self.gens.append(g)

    def searched(self, X, fX, Xpend):
        h = {"X": self.pids(X), "F": [float(v) for v in np.ravel(fX)],
             "P": self.pids(Xpend) if Xpend is not None else []}
        if h not in self.search:
            self.search.append(h)


# ---------------------------------------------------------------------------
# Components that show what the strategies do with them

class RecSurrogate(Surrogate):
    """A surrogate that records the data it holds whenever it is queried."""

    def __init__(self, dim, lb, ub, a=None):
        super().__init__(dim=dim, lb=lb, ub=ub)
        self.a = np.ones(dim) if a is None else np.asarray(a, dtype=float)

    def predict(self, xx):
        CUR.queried(self.X, self.fX)
        xx = np.atleast_2d(xx)
        u = (xx - self.lb) / (self.ub - self.lb)
        y = u.dot(self.a).reshape(-1, 1) + 1e-3 * len(self.X)
        if getattr(self, "wavy", 0):
            y = np.sin(self.wavy * (u + .1 * np.arange(self.dim))).dot(self.a).reshape(-1, 1)
        if CUR.predicts is not None:
            CUR.predicts.append((np.array(xx, dtype=float), y.copy()))
        return y

    def predict_deriv(self, xx):
        return np.tile(self.a / (self.ub - self.lb), (len(np.atleast_2d(xx)), 1))

    def __getstate__(self):
        if CUR is not None and CUR.watch is not None:
            CUR.watch()
        return self.__dict__


class RecRBF(RBFInterpolant):
    def predict(self, xx):
        CUR.queried(self.X, self.fX)
        return super().predict(xx)


class RecGP(GPRegressor):
    """A stub Gaussian process whose search converges at chosen data sizes."""

    def __init__(self, dim, lb, ub, flat=()):
        super().__init__(dim=dim, lb=lb, ub=ub)
        self.flat = frozenset(flat)

    def _u(self, xx):
        return (np.atleast_2d(xx) - self.lb) / (self.ub - self.lb)

    def predict(self, xx):
        CUR.queried(self.X, self.fX)
        if len(self.X) in self.flat:
            return 1e9 * np.ones((len(np.atleast_2d(xx)), 1))
        return self._u(xx).sum(axis=1, keepdims=True)

    def predict_std(self, xx):
        CUR.queried(self.X, self.fX)
        s = 1e-9 if len(self.X) in self.flat else 5.0 + len(self.X) + 1e3
        return s * np.ones((len(np.atleast_2d(xx)), 1))

    def __getstate__(self):
        if CUR is not None and CUR.watch is not None:
            CUR.watch()
        return self.__dict__


class RealGP(GPRegressor):
    def predict(self, xx):
        CUR.queried(self.X, self.fX)
        return super().predict(xx)

    def predict_std(self, xx):
        CUR.queried(self.X, self.fX)
        return super().predict_std(xx)


class RecDesign(ExperimentalDesign):
    """A design of given size; random points (duplicates are possible on small domains)."""

    def __init__(self, dim, num_pts, seed):
        self.dim, self.num_pts = dim, num_pts
        self.rng = np.random.RandomState(seed)

    def generate_points(self, lb=None, ub=None, int_var=None):
        for _ in range(50):
            u = self.rng.uniform(0.05, 0.95, (self.num_pts, self.dim))
            X = lb + (ub - lb) * u
            if int_var is not None and len(int_var):
                X[:, int_var] = np.clip(np.round(X[:, int_var]), lb[int_var], ub[int_var])
            if np.linalg.matrix_rank(np.hstack((np.ones((self.num_pts, 1)), X))) == self.dim + 1:
                break
        CUR.designs.append(CUR.pids(X))
        return X


class Box(OptimizationProblem):
    def __init__(self, dim, lb, ub, int_var=()):
        self.dim = dim
        self.lb, self.ub = np.asarray(lb, dtype=float) * np.ones(dim), np.asarray(ub, dtype=float) * np.ones(dim)
        self.int_var = np.array(sorted(int_var), dtype=int)
        self.cont_var = np.setdiff1d(np.arange(dim), self.int_var)
        self.info = "box"

    def eval(self, x):
        raise RuntimeError("the objective is played by the environment")


def _patch_search():
    """Record the arguments of the candidate searches, wherever a strategy module names them."""
    for name, mod in list(sys.modules.items()):
        if not name.startswith("pySOT.strategy"):
            continue
        for f in ("candidate_srbf", "candidate_dycors", "candidate_uniform", "ei_ga", "lcb_ga"):
            g = getattr(mod, f, None)
            if g is None or hasattr(g, "_verif"):
                continue
            sig = inspect.signature(g)

            def wrapped(*a, _g=g, _sig=sig, **k):
                if CUR is not None:
                    try:
                        b = _sig.bind(*a, **k)
                        b.apply_defaults()
                        CUR.searched(b.arguments["X"], b.arguments["fX"], b.arguments["Xpend"])
                        CUR.calls.append(b.arguments) if hasattr(CUR, "calls") else None
                    except (TypeError, KeyError, ValueError):
                        pass
                return _g(*a, **k)

            wrapped._verif = True
            setattr(mod, f, wrapped)


_patch_search()


# ---------------------------------------------------------------------------
class Crash(BaseException):
    """The process dies here."""


def observe(s, rec):
    log = []
    for r in s.fevals:
        v = float(r.value) if r.is_completed and r.value is not None else None
        log.append([getattr(r, "rid", 0), rec.pid(r.params[0]), v])
    rad = 0
    if isinstance(s, SRBFStrategy):
        rad = int(round(math.log2(0.2 / s.sampling_radius)))
        if abs(s.sampling_radius * 2.0 ** rad / 0.2 - 1) > 1e-9:
            rad = 99  # not a power of two times 0.2
    return {"n": int(s.num_evals), "k": int(s.pending_evals), "X": rec.pids(s.X),
            "F": [float(v) for v in np.ravel(s.fX)], "P": rec.pids(s.Xpend), "L": log,
            "c": bool(s.converged), "sx": rec.pids(s.surrogate.X), "rad": rad}


def counters(s):
    """The counters of successes and failures, whatever their initial values are."""
    return {a: getattr(s, a) for a in ("status", "failcount", "_fbest") if isinstance(s, SRBFStrategy) and hasattr(s, a)}


NOFILE = {"X": [], "F": [], "n": 0, "L": []}


def read_file(fname, rec):
    if not os.path.exists(fname):
        return "none", NOFILE
    try:
        watch, rec.watch = rec.watch, None
        with open(fname, "rb") as f:
            t = dill.load(f)
        o = observe(t, rec)
        return "ok", {k: o[k] for k in ("X", "F", "n", "L")}
    except Exception:
        return "bad", NOFILE
    finally:
        rec.watch = watch


class ScriptController(Controller):
    """A POAP controller that follows a schedule."""

    def __init__(self, run):
        Controller.__init__(self)
        self._run_ = run

    def __getstate__(self):  # the run itself is not part of a snapshot
        return {}

    def run(self):
        crashed = False
        best = None
        try:
            best = self._run_.play(self)
            return best
        except Crash:
            crashed = True
            raise
        finally:
            if not crashed:
                self.call_term_callbacks()
                if best is not None or self._run_.over:
                    self._run_.event("end")


class Run:
    """One run of a real strategy under a schedule."""

    def __init__(self, spec, schedule, fname=None):
        self.spec, self.schedule, self.fname = spec, list(schedule), fname
        self.rec = Recorder()
        self.flight = []  # records in flight, in order of proposal
        self.held = []  # undecided proposals
        self.nq = 0
        self.over = False
        self.pos = 0
        self.steps = 0
        self.bad_instant = False
        self.rng = random.Random(spec.get("seed", 0))

    # -- configuration
    def build(self):
        c = self.spec
        dim, ints = c.get("dim", 2), c.get("ints", ())
        if getattr(self, "problem", None) is not None:
            self.prob = self.problem
        elif c.get("grid"):
            self.prob = Box(dim, 0, c["grid"], range(dim))
        else:
            self.prob = Box(dim, c.get("lb", -1.0), c.get("ub", 2.0), ints)
        p = self.prob
        des = RecDesign(dim, c["n0"], c.get("seed", 0))
        kind = c["kind"]
        if getattr(self, "surrogate", None) is not None:
            sur = self.surrogate(p)
        elif kind in ("ei", "lcb"):
            sur = RecGP(dim, p.lb, p.ub, c.get("flat", ()))
        elif c.get("rbf"):
            sur = RecRBF(dim=dim, lb=p.lb, ub=p.ub, kernel=CubicKernel(), tail=LinearTail(dim))
        else:
            sur = RecSurrogate(dim, p.lb, p.ub, a=np.linspace(-1, 1, dim) if dim > 1 else [1.0])
        ex = c.get("extras", [])
        if c.get("wavy"):
            sur.wavy = c["wavy"]
        kw = {}
        self.extras = []
        if ex:
            r = np.random.RandomState(c.get("seed", 0) + 7)
            pts = p.lb + (p.ub - p.lb) * r.uniform(0.05, 0.95, (len(ex), dim))
            pts[:, p.int_var] = np.round(pts[:, p.int_var])
            kw["extra_points"] = pts
            if any(v is not None for v in ex) or c.get("nanvals"):
                unk = np.inf if c.get("infvals") else np.nan
                kw["extra_vals"] = np.array([[unk if v is None else float(v)] for v in ex])
            self.extras = [{"p": self.rec.pid(pts[i]), "v": ex[i]} for i in range(len(ex))]
        kw.update(max_evals=c["M"], opt_prob=p, exp_design=des, surrogate=sur, asynchronous=c["async"],
                  batch_size=None if c["async"] and not c.get("bs_in_async") else c["b"], use_restarts=c["restarts"])
        if kind in ("srbf", "dycors", "sop"):
            kw["num_cand"] = c.get("ncand", 20)
        if c.get("weights") and kind in ("srbf", "dycors"):
            kw["weights"] = c["weights"]
        if kind == "sop":
            kw["ncenters"] = c.get("ncent", 4)
        kw.update(c.get("kw", {}))
        cls = {"srbf": SRBFStrategy, "dycors": DYCORSStrategy, "sop": SOPStrategy, "ei": EIStrategy, "lcb": LCBStrategy}[kind]
        s = cls(**kw)
        return s

    # -- recording
    def event(self, op, s=None, **kw):
        s = s if s is not None else self.ctl.strategy
        e = {"op": op, "exc": "", "file": "-", "fo": NOFILE, "r": 0, "q": 0, "v": 0.0, "raw": 0, "res": "", "p": 0, "designs": [], "gens": [],
             "search": [], "best": {"r": 0, "v": 0.0}, "inner": ""}
        e.update(kw)
        e["raw"] = int(e["v"]) if abs(e["v"]) < 2e9 else 0
        try:
            e["o"] = observe(s, self.rec)
        except Exception as ex:  # the strategy no longer shows its state
            e["o"] = {"n": -1, "k": -1, "X": [], "F": [], "P": [], "L": [], "c": False, "sx": [], "rad": 0}
            e["exc"] = e["exc"] or "unobservable: %r" % ex
        if not e["designs"]:
            e["o"]["sx"] = []
        elif op == "ask" and not e["exc"] and e["o"]["rad"] == 0 and counters(s) != self.initial:
            e["o"]["rad"] = 98  # the counters are not what they were at the start
        if self.fname and op in ("done", "fail", "end"):
            e["file"], e["fo"] = read_file(self.fname, self.rec)
            if self.bad_instant:
                e["file"] = "bad"
        self.bad_instant = False
        self.rec.events.append(e)
        return e

    class Stop(Exception):
        pass

    def guard(self, op, f, **kw):
        try:
            return f()
        except Exception as ex:
            import traceback
            tb = traceback.format_exc().strip().splitlines()[-3:]
            self.event(op, exc="%s: %s" % (type(ex).__name__, ex), **kw)
            self.rec.events[-1]["tb"] = tb
            raise Run.Stop()

    # -- the environment
    def ask(self, ctl, accept, hold=False):
        s = ctl.strategy
        self.rec.clear()
        p = self.guard("ask", s.propose_action)
        info = dict(designs=self.rec.designs, gens=self.rec.gens, search=self.rec.search)
        if not p:
            self.event("ask", res="none", **info)
            return "none"
        if p.action == "terminate":
            best = ctl.best_point()
            b = {"r": 0, "v": 0.0} if best is None else {"r": getattr(best, "rid", 0), "v": float(best.value)}
            self.event("ask", res="term", best=b, **info)
            p.accept()
            self.over = True
            return "term"
        if p.action != "eval":
            self.event("ask", exc="unknown action %s" % p.action, **info)
            raise Run.Stop()
        x = np.asarray(p.args[0], dtype=float)
        self.nq += 1
        self.event("ask", res="eval", q=self.nq, p=self.rec.pid(x), **info)
        busy = len(self.flight) + len(self.held) >= self.spec["W"]
        if hold and not busy:
            self.held.append((self.nq, p))
        else:
            self.decide(ctl, self.nq, p, accept and not busy)
        return "eval"

    def decide(self, ctl, q, p, accept):
        if accept:
            self.rec.nrid += 1
            rid = self.rec.nrid

            def acc():
                p.record = ctl.new_feval(p.args)
                p.record.rid, p.record.pq = rid, q
                p.accept()
            self.guard("accept", acc)
            self.flight.append(p.record)
            self.flight.sort(key=lambda r: r.pq)
            self.event("accept", r=rid, q=q)
        else:
            self.guard("reject", p.reject)
            self.event("reject", q=q)

    def finish(self, k, op, f, die=None, **kw):
        rec = self.flight.pop(k % len(self.flight))
        rid = rec.rid
        if not self.fname:
            self.guard(op, lambda: f(rec), r=rid, **kw)
        else:
            try:
                with Instants(self, die):
                    f(rec)
            except Crash:
                self.torn = dict(r=rid, inner=op, **kw)
                raise
            except Exception as ex:
                self.event(op, exc="%s: %s" % (type(ex).__name__, ex), r=rid, **kw)
                raise Run.Stop()
        self.event(op, r=rid, **kw)

    def step(self, ctl, op):
        s = ctl.strategy
        if op[0] == "a":
            return self.ask(ctl, True)
        if op[0] == "x":
            return self.ask(ctl, False)
        if op[0] == "h":
            return self.ask(ctl, True, hold=True)
        if op[0] in "AR" and self.held:
            self.decide(ctl, *self.held.pop(op[1] % len(self.held)), op[0] == "A")
        elif op[0] == "d" and self.flight:
            v = self.value(op[2])
            self.finish(op[1], "done", lambda r: r.complete(v), v=float(v))
        elif op[0] == "f" and self.flight:
            self.finish(op[1], "fail", lambda r: r.kill() if op[2] == 0 else r.cancel())
        elif op[0] == "c" and self.spec["kind"] in ("srbf", "dycors"):
            # the search can only find itself converged after an adaptive evaluation (of a whole batch)
            if self.adaptive() and not s.converged and (self.spec["async"] or (not self.flight and not self.held and not self.waiting())):
                s.converged = True
                self.event("conv")
        elif op[0] == "k" and self.fname and os.path.exists(self.fname):
            raise Crash()
        elif op[0] == "t" and self.fname and self.flight and os.path.exists(self.fname):
            v = self.value(op[2])
            self.finish(op[1], "done", lambda r: r.complete(v), die=op[3], v=float(v))
        return ""

    def value(self, v):
        """The value the objective returns: scaled, and of one of the types objectives return."""
        v = v * self.spec.get("vscale", 1.0) + self.spec.get("voff", 0.0)
        kind = self.spec.get("vtype", "float")
        return int(v) if kind == "int" and v == int(v) and abs(v) < 2 ** 62 else np.float64(v) if kind == "numpy" else float(v)

    def adaptive(self):
        """Has an adaptive evaluation of the current run completed?"""
        run, kind, res = 0, {}, False
        gen = 0
        cur = {}
        first = {}
        for e in self.rec.events:
            if e["exc"]:
                continue
            if e["op"] == "ask":
                if e["designs"]:
                    run, res, gen = run + 1, False, 0
                if e["gens"]:
                    gen = 1
                cur[e["q"]] = (run, gen)
            elif e["op"] == "accept":
                first[e["r"]] = cur[e["q"]]
            elif e["op"] == "done" and first.get(e["r"]) == (run, 1):
                res = True
        return res

    def waiting(self):
        """Is some proposed point still to be proposed again, or part of the batch unproposed?  (sync)"""
        b, n, seen = self.spec["b"], 0, False
        for e in self.rec.events:
            if e["op"] == "ask":
                if e["designs"]:
                    seen = False
                if e["gens"]:
                    n, seen = b, True
                if e["res"] == "eval" and seen:
                    n -= 1
            elif e["op"] == "reject" and seen:
                n += 1
        return (not seen) or n > 0

    def play(self, ctl):
        lim = 60 * self.spec["M"] + 300
        while self.pos < len(self.schedule) and not self.over:
            op = self.schedule[self.pos]
            self.pos += 1
            self.step(ctl, op)
        if self.spec.get("nodrain"):
            raise Run.Stop()
        # fair from now on
        mode = self.spec.get("drain", 0)
        fails, rejs = self.spec.get("endfail", 0), self.spec.get("endrej", 0)  # some more of them on the way to the end
        while not self.over:
            self.steps += 1
            if self.steps > lim:
                raise Run.Stop()
            if self.held:
                no = rejs > 0 and self.rng.random() < .3
                rejs -= no
                self.step(ctl, ("R" if no else "A", self.rng.randrange(len(self.held))))
                continue
            full = len(self.flight) >= self.spec["W"]
            if not full and (mode != 2 or not self.flight):
                no = rejs > 0 and self.rng.random() < .2
                rejs -= no
                r = self.step(ctl, ("x",) if no else ("a",))
                if r == "eval" or self.over:
                    continue
                if r == "none" and not self.flight:
                    raise Run.Stop()
            if self.flight:
                k = 0 if mode == 0 else self.rng.randrange(len(self.flight))
                if fails > 0 and self.rng.random() < .35:
                    fails -= 1
                    self.step(ctl, ("f", k, self.rng.randint(0, 1)))
                    continue
                self.step(ctl, ("d", k, self.rng.choice([0, 1, 2, 5, 9, 40])))
        return ctl.best_point()

    def run(self):
        global CUR
        CUR = self.rec
        c = self.spec
        cfg = {"M": c["M"], "n0": c["n0"], "async": c["async"], "b": c["b"], "restarts": c["restarts"],
               "cont": not c.get("grid") and not c.get("ints"), "d": c.get("dim", 2), "kind": c["kind"], "ncent": c.get("ncent", 4), "extras": []}
        np.random.seed((c.get("seed", 0) * 7919 + 17) % (2 ** 31))
        random.seed(c.get("seed", 0))
        out = {"id": c["id"], "c": cfg, "design": [], "o": {}, "exc": "", "ev": self.rec.events, "ck": bool(self.fname)}
        zero = {"n": 0, "k": 0, "X": [], "F": [], "P": [], "L": [], "c": False, "sx": [], "rad": 0}
        try:
            s = self.build()
            self.initial = counters(s)
            out["o"] = observe(s, self.rec)
            out["o"]["sx"] = []
        except Exception as ex:
            out["exc"] = "%s: %s" % (type(ex).__name__, ex)
            out["o"] = zero
            cfg["extras"] = self.extras if hasattr(self, "extras") else []
            return self.final(out)
        cfg["extras"] = self.extras
        out["design"] = [p for d in self.rec.designs for p in d]
        self.ctl = ctl = ScriptController(self)
        ctl.strategy = s
        try:
            if not self.fname:
                ctl.run()
            else:
                self.checkpointed(ctl)
        except Run.Stop:
            pass
        self.rec.watch = None
        CUR = None
        return self.final(out)

    def checkpointed(self, ctl):
        if os.path.exists(self.fname):
            os.remove(self.fname)
        if self.spec.get("probe"):
            res = "none"
            try:
                CheckpointController(ScriptController(self), fname=self.fname).resume()
            except IOError:
                res = "ioerror"
            except Exception as ex:
                res = type(ex).__name__
            self.event("noresume", res=res)
            with open(self.fname, "wb") as f:  # a file that is something else is not overwritten either
                f.write(b"" if self.spec["seed"] % 2 else b"not a snapshot")
            self.refused(ctl)
            os.remove(self.fname)
        cc = CheckpointController(ctl, fname=self.fname)
        start, first = cc.run, True
        died = 0
        while True:
            try:
                start()
                break
            except Run.Stop:
                raise
            except Exception as ex:  # a snapshot could not be written
                if not any(e["exc"] for e in self.rec.events):
                    self.event("end", exc="%s: %s" % (type(ex).__name__, ex))
                raise Run.Stop()
            except Crash:
                died += 1
                if self.spec.get("probe") and first and os.path.exists(self.fname):
                    self.refused(self.ctl)
                first = False
                self.flight, self.held = [], []
                self.ctl = ctl = ScriptController(self)
                cc = CheckpointController(ctl, fname=self.fname)
                start = self.resuming(cc, ctl)
        if self.over and self.spec.get("again"):  # resuming a finished run finishes at once
            self.pos = len(self.schedule)
            self.over = False
            self.ctl = ctl = ScriptController(self)
            cc = CheckpointController(ctl, fname=self.fname)
            self.resuming(cc, ctl)()

    def refused(self, ctl):
        """A run is started although the file exists."""
        before = open(self.fname, "rb").read()
        probe = ScriptController(self)
        probe.strategy = ctl.strategy
        probe._run_ = _Refuse()
        res = "none"
        try:
            CheckpointController(probe, fname=self.fname).run()
        except IOError:
            res = "ioerror"
        except Exception as ex:
            res = type(ex).__name__
        if not os.path.exists(self.fname) or open(self.fname, "rb").read() != before:
            res = "overwritten"
        self.event("norun", res=res)

    def resuming(self, cc, ctl):
        def go():
            orig = self.play
            torn = getattr(self, "torn", None)
            self.torn = None

            def play(c):
                self.play = orig
                if torn:
                    self.event("torn", **torn)
                else:
                    self.event("crash")
                return orig(c)
            self.play = play
            try:
                cc.resume()
            except (Crash, Run.Stop):
                raise
            except Exception as ex:
                self.ctl.strategy = self.ctl.strategy or self.last
                self.event("crash", exc="%s: %s" % (type(ex).__name__, ex))
                raise Run.Stop()
        self.last = self.ctl.strategy
        return go

    def final(self, out):
        """Values become small integers of the same order; -1: no value, -2: not a finite number."""
        vals = set()

        def walk(f):
            for x in out["c"]["extras"]:
                x["v"] = f(x["v"])
            for o in [out["o"]] + [e["o"] for e in out["ev"]] + [e["fo"] for e in out["ev"] if e["fo"] is not NOFILE]:
                o["F"] = [f(v) for v in o["F"]]
                for l in o["L"]:
                    l[2] = f(l[2])
            for e in out["ev"]:
                e["v"] = f(e["v"])
                e["best"]["v"] = f(e["best"]["v"])
                for g in e["gens"] + e["search"]:
                    g["F"] = [f(v) for v in g["F"]]

        def collect(v):
            if v is not None and math.isfinite(v):
                vals.add(float(v))
            return v
        walk(collect)
        rank = {v: i for i, v in enumerate(sorted(vals))}
        walk(lambda v: -1 if v is None else rank[float(v)] if math.isfinite(v) else -2)
        return out


class _Refuse:
    over = False

    def play(self, ctl):
        raise RuntimeError("the run was started")

    def event(self, *a, **k):
        pass


class Instants:
    """While it is active, looks at the checkpoint file at every line pySOT executes.

    die = j: the process dies at the j-th of these instants.  Files that are written have large
    buffers, so that what is not flushed is not in the file.
    """

    def __init__(self, run, die=None):
        self.run, self.die, self.n, self.sig = run, die, 0, None
        self.root = os.path.join(env.REPO, "pySOT") + os.sep

    def look(self):
        self.n += 1
        try:
            st = os.stat(self.run.fname)
            sig = (st.st_mtime_ns, st.st_size, st.st_ino)
        except OSError:
            sig = None
        if sig != self.sig:
            self.sig = sig
            had = self.had
            st, _ = read_file(self.run.fname, self.run.rec)
            if st == "bad" or (st == "none" and had):
                self.run.bad_instant = True
            self.had = self.had or st != "none"
        if self.die is not None and self.n > self.die:
            self.die = None
            raise Crash()

    def local(self, frame, what, arg):
        if what == "line":
            self.off()
            try:
                self.look()
            finally:
                self.on()
        return self.local

    def trace(self, frame, what, arg):
        f = frame.f_code.co_filename
        if f.startswith(self.root):
            return self.local
        return None

    def on(self):
        sys.settrace(self.trace)

    def off(self):
        sys.settrace(None)

    def __enter__(self):
        self.had = os.path.exists(self.run.fname)
        self.run.rec.watch = self.look
        self.open = builtins.open

        def buffered(file, mode="r", buffering=-1, *a, **k):
            if buffering == -1 and isinstance(mode, str) and "r" not in mode:
                buffering = 1 << 24
            return self.open(file, mode, buffering, *a, **k)
        builtins.open = io.open = buffered
        self.on()

    def __exit__(self, *a):
        self.off()
        builtins.open = io.open = self.open
        self.run.rec.watch = None
        return False


class Elsewhere:
    """Every directory is a file system of its own: nothing can be renamed from one to another."""

    def __enter__(self):
        self.old = os.rename, os.replace

        def across(f):
            def g(src, dst, *a, **k):
                if os.path.dirname(os.path.realpath(src)) != os.path.dirname(os.path.realpath(dst)):
                    raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src)
                return f(src, dst, *a, **k)
            return g
        os.rename, os.replace = across(os.rename), across(os.replace)

    def __exit__(self, *a):
        os.rename, os.replace = self.old
        return False


def place(fname, i):
    """A checkpoint file: any path may be used.  Returns the directory to be in and the path."""
    d, b = os.path.split(fname)
    sub = os.path.join(d, "d %s.x" % b)
    os.makedirs(sub)
    return [(None, os.path.join(sub, "run.pysot")), (sub, "run"), (None, os.path.join(sub, "checkpoint.tmp")), (d, os.path.join("d %s.x" % b, "a.b.c")),
            (sub, "temp_"), (sub, os.path.join(".", "checkpoint.bak"))][i % 6]


def execute(job):
    spec, schedule, fname = job
    if not fname:
        return Run(spec, schedule, None).run()
    cwd = os.getcwd()
    there, name = place(fname, spec["id"])
    try:
        if there:
            os.chdir(there)
        with Elsewhere():
            return Run(spec, schedule, name).run()
    finally:
        os.chdir(cwd)
        shutil.rmtree(os.path.join(os.path.dirname(fname), "d %s.x" % os.path.basename(fname)), ignore_errors=True)
