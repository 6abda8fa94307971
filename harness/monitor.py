"""Passive monitoring of a strategy under POAP's own controllers."""
from . import driver
import random
import threading
import time

import numpy as np
from poap.controller import BasicWorkerThread, SerialController, SimTeamController, ThreadController

from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube
from pySOT.optimization_problems import Ackley, Rastrigin, Sphere
from pySOT.strategy import DYCORSStrategy, EIStrategy, LCBStrategy, SOPStrategy, SRBFStrategy
from pySOT.surrogate import ConstantTail, CubicKernel, LinearKernel, LinearTail, TPSKernel


class RecSLHD(SymmetricLatinHypercube):
    def generate_points(self, lb=None, ub=None, int_var=None):
        X = super().generate_points(lb=lb, ub=ub, int_var=int_var)
        driver.CUR.designs.append(driver.CUR.pids(X))
        return X


class RecLHD(LatinHypercube):
    def generate_points(self, lb=None, ub=None, int_var=None):
        X = super().generate_points(lb=lb, ub=ub, int_var=int_var)
        driver.CUR.designs.append(driver.CUR.pids(X))
        return X


class Monitored:
    """Stands between a controller and a strategy and records what passes."""

    def __init__(self, run, strategy):
        self.run, self.s = run, strategy
        self.fevals = []

    def propose_action(self):
        run, rec = self.run, self.run.rec
        run.nasks += 1
        if run.nasks > run.maxasks:
            raise driver.Run.Stop()
        rec.clear()
        p = run.guard("ask", self.s.propose_action)
        info = dict(designs=rec.designs, gens=rec.gens, search=rec.search)
        if not p:
            if not (rec.events and rec.events[-1]["op"] == "ask" and not info["gens"] and not info["designs"]):
                run.event("ask", s=self.s, res="none", **info)  # asking again and again is recorded once
        elif p.action == "terminate":
            run.event("ask", s=self.s, res="term", **info)
            run.over = True
        else:
            run.nq += 1
            p.vq = run.nq
            run.event("ask", s=self.s, res="eval", q=p.vq, p=rec.pid(p.args[0]), **info)
            p.add_callback(self.decided)
        return p

    def decided(self, p):
        run = self.run
        if p.accepted:
            run.rec.nrid += 1
            p.record.rid = run.rec.nrid
            run.event("accept", s=self.s, r=p.record.rid, q=p.vq)
            p.record.add_callback(self.updated)
        else:
            run.event("reject", s=self.s, q=p.vq)

    def updated(self, r):
        if r.is_completed:
            self.run.event("done", s=self.s, r=r.rid, v=float(r.value))
        elif r.is_done:
            self.run.event("fail", s=self.s, r=r.rid)


class ObjectiveFailed(Exception):
    pass


class MonitoredRun(driver.Run):
    """spec: id, kind, M, n0, b, async, restarts, W, seed, dim, problem, controller, pfail."""

    def __init__(self, spec):
        super().__init__(spec, [])
        self.nasks, self.maxasks = 0, 400 * spec["M"] + 4000

    def build(self):
        c = self.spec
        P = {"ackley": Ackley, "rastrigin": Rastrigin, "sphere": Sphere}[c["problem"]]
        self.prob = p = P(dim=c["dim"])
        if c.get("ints"):
            p.int_var = np.array(c["ints"])
            p.cont_var = np.setdiff1d(np.arange(c["dim"]), p.int_var)
        des = (RecSLHD if c["seed"] % 2 else RecLHD)(dim=c["dim"], num_pts=c["n0"], iterations=50)
        if c["kind"] in ("ei", "lcb"):
            sur = driver.RealGP(c["dim"], p.lb, p.ub, n_restarts_optimizer=0) if c.get("real") else driver.RecGP(c["dim"], p.lb, p.ub, c.get("flat", ()))
        else:
            ker = [CubicKernel(), TPSKernel(), LinearKernel()][c["seed"] % 3]
            tail = ConstantTail(c["dim"]) if c["seed"] % 3 == 2 else LinearTail(c["dim"])
            sur = driver.RecRBF(dim=c["dim"], lb=p.lb, ub=p.ub, kernel=ker, tail=tail)
        kw = dict(max_evals=c["M"], opt_prob=p, exp_design=des, surrogate=sur, asynchronous=c["async"],
                  batch_size=None if c["async"] else c["b"], use_restarts=c["restarts"])
        if c["kind"] in ("srbf", "dycors", "sop"):
            kw["num_cand"] = 30
        if c["kind"] == "sop":
            kw["ncenters"] = c.get("ncent", 4)
        self.extras = []
        return {"srbf": SRBFStrategy, "dycors": DYCORSStrategy, "sop": SOPStrategy, "ei": EIStrategy, "lcb": LCBStrategy}[c["kind"]](**kw)

    def objective(self, x):
        with self.lock:
            self.ncalls += 1
            die = self.rng.random() < self.spec.get("pfail", 0)
        if self.spec["controller"] == "thread":
            time.sleep(0.0005 * (self.ncalls % 3))
        if die:
            raise ObjectiveFailed()
        v = self.prob.eval(x)
        return round(float(v), 1) if self.spec.get("round") else float(v)

    def run(self):
        rec = driver.CUR = self.rec
        c = self.spec
        np.random.seed(c["seed"] + 1)
        random.seed(c["seed"])
        self.lock, self.ncalls = threading.Lock(), 0
        cfg = {"M": c["M"], "n0": c["n0"], "async": c["async"], "b": c["b"], "restarts": c["restarts"],
               "cont": False, "kind": c["kind"], "ncent": c.get("ncent", 4), "extras": []}
        out = {"id": c["id"], "c": cfg, "design": [], "o": {}, "exc": "", "ev": rec.events, "ck": False}
        s = self.build()
        self.initial = driver.counters(s)
        out["o"] = driver.observe(s, rec)
        out["o"]["sx"] = []
        out["design"] = [p for d in rec.designs for p in d]
        if c["controller"] == "serial":
            ctl = SerialController(self.objective)
        elif c["controller"] == "sim":
            ctl = SimTeamController(self.objective, lambda r: self.rng.choice([1, 2, 2.5, 4]), c["W"])
        else:
            ctl = ThreadController()
            for _ in range(c["W"]):
                w = _Worker(ctl, self.objective)
                ctl.launch_worker(w, daemon=True)
        self.ctl = ctl
        ctl.strategy = Monitored(self, s)
        try:
            ctl.run()
        except driver.Run.Stop:
            pass
        except Exception as ex:
            tb = ex.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            if tb.tb_frame.f_code.co_filename in (__file__, driver.__file__):
                raise  # the recorder itself failed
            if not (rec.events and rec.events[-1]["exc"]):
                rec.clear()
                # the controller could not go on: no answer while nothing is in flight shows in the trace itself
                if not isinstance(ex, (AssertionError, NameError)) or "eadlock" not in str(ex) and "No proposed" not in str(ex):
                    self.event("ask", s=s, exc="%s: %s" % (type(ex).__name__, ex))
        driver.CUR = None
        return self.final(out)


class _Worker(BasicWorkerThread):
    def handle_eval(self, record):
        try:
            value = self.objective(*record.params)
            self.finish_success(record, value)
        except ObjectiveFailed:
            self.finish_cancelled(record)


def execute(spec):
    return MonitoredRun(spec).run()
