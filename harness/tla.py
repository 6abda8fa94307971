"""Running TLC and reading what it prints."""
import json, os, re, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")


class MachineryError(Exception):
    """The checking machinery itself failed (never a verdict about pySOT)."""


def jar():
    for p in ("/opt/veriftools/tla",):
        t = os.path.join(p, "tla2tools.jar")
        if os.path.exists(t):
            cps = [t] + [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".jar") and f != "tla2tools.jar"]
            return ":".join(cps)
    raise MachineryError("tla2tools.jar not found")


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?,? ?([\d,]+)? ?(?:distinct states found)?", out)
        self.generated = self.distinct = 0
        for line in out.splitlines():
            g = re.match(r"^([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if g:
                self.generated, self.distinct = int(g.group(1).replace(",", "")), int(g.group(2).replace(",", ""))
            g = re.match(r"^The number of states generated: ([\d,]+)", line)
            if g:
                self.generated = int(g.group(1).replace(",", ""))

    def lines(self, tag):
        """The JSON payloads of the lines  "TAG {...}"  printed with PrintT."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"%s ' % tag) and line.endswith('"'):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
            elif line.startswith(tag + " "):
                res.append(json.loads(line[len(tag) + 1:]))
        return res


def tlc(module, cfg=None, env=None, workers=8, args=(), timeout=800, heap="6g", ok=(0,), cfgtext=None):
    """Runs TLC on spec/<module>.tla.  rc 0: no error, 12: invariant violated, 13: liveness violated."""
    meta = tempfile.mkdtemp(prefix="tlc_")
    try:
        if cfgtext is not None:
            cfg = os.path.join(meta, "run.cfg")
            with open(cfg, "w") as f:
                f.write(cfgtext)
        else:
            cfg = os.path.join(SPEC, cfg or module + ".cfg")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
               "-cp", jar(), "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
               "-metadir", os.path.join(meta, "states"), "-config", cfg, *args, module + ".tla"]
        cmd = [c for c in cmd if not c.startswith("-Dtlc2")]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError("TLC timed out on %s after %ss" % (module, timeout))
        r = Result(p.stdout, p.returncode, time.time() - t0)
        if p.returncode not in ok:
            raise MachineryError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, p.stdout[-6000:]))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def judge(module, traces, workers=8, timeout=800, keep=None, env=None, cfg=None):
    """Has TLC judge the recorded traces (a list of JSON-able dicts with an id).

    Returns {id: verdict}; a trace without a verdict is an error of the machinery.
    """
    d = tempfile.mkdtemp(prefix="traces_")
    try:
        fn = os.path.join(d, "traces.ndjson")
        with open(fn, "w") as f:
            for t in traces:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        e = {"TRACES": fn}
        e.update(env or {})
        r = tlc(module, cfg=cfg, env=e, workers=workers, timeout=timeout)
        v = {x["id"]: x for x in r.lines("VERDICT")}
        missing = [t["id"] for t in traces if t["id"] not in v]
        if missing:
            raise MachineryError("no verdict for traces %s from %s\n%s" % (missing[:5], module, r.out[-3000:]))
        return v, r
    finally:
        shutil.rmtree(d, ignore_errors=True)
