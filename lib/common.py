"""Shared machinery: building, the harness process, TLC runs, evidence and reports."""
import hashlib
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def _cargo(args, cwd, target):
    e = env()
    e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if p.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), p.stdout[-4000:]))


def build_harness():
    _cargo(["build", "--offline", "--quiet"], os.path.join(ROOT, "harness"), os.path.join(BUILD, "h"))
    return os.path.join(BUILD, "h", "debug", "mgx_harness")


def build_cli():
    _cargo(["build", "--offline", "--quiet"], REPO, os.path.join(BUILD, "cli"))
    return os.path.join(BUILD, "cli", "debug", "mutagenyx")


def build_stub():
    _cargo(["build", "--offline", "--quiet"], os.path.join(ROOT, "stub"), os.path.join(BUILD, "stub"))
    return os.path.join(BUILD, "stub", "debug", "mgx_stub")


class Harness:
    """One harness process; restarted after a hang or an abort."""

    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        e = env()
        e["TMPDIR"] = BUILD
        self.p = subprocess.Popen([self.exe], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.q = queue.Queue()
        p, q = self.p, self.q

        def rd():
            for line in p.stdout:
                q.put(line)
            q.put(None)
        threading.Thread(target=rd, daemon=True).start()

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def ask(self, req, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            return {"abort": "the harness process died"}
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            self.stop()
            return {"hang": "no answer within %d s" % timeout}
        if line is None:
            rc = self.p.wait()
            self.p = None
            return {"abort": "process ended with status %s" % rc}
        return json.loads(line)


class Pool:
    """Ask many requests over several harness processes, keeping order."""

    def __init__(self, exe, n=NCPU):
        self.exe, self.n = exe, n

    def map(self, reqs, timeout=60):
        out = [None] * len(reqs)
        it = iter(range(len(reqs)))
        lock = threading.Lock()

        def work():
            h = Harness(self.exe)
            while True:
                with lock:
                    i = next(it, None)
                if i is None:
                    break
                out[i] = h.ask(reqs[i], timeout)
            h.stop()
        ts = [threading.Thread(target=work) for _ in range(min(self.n, max(1, len(reqs))))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return out


# ---------------------------------------------------------------------------------------------
def parallel(f, items, n=NCPU):
    out = [None] * len(items)
    err = []
    it = iter(range(len(items)))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                i = next(it, None)
            if i is None or err:
                return
            try:
                out[i] = f(items[i])
            except Exception as e:        # noqa
                err.append(e)
                return
    ts = [threading.Thread(target=work) for _ in range(min(n, max(1, len(items))))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    return out


def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    return '"%s"' % v


class Work:
    """A scratch directory under .build, removed at the end."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="w.", dir=BUILD)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.dir, n)


_n = [0]
_nl = threading.Lock()


def tlc(work, module, constants=None, cfg_extra="", timeout=600, workers=1, heap="3g", args=(), check=True):
    """Run TLC on spec/<module>.tla with a generated configuration.  Returns (ok, output, stats)."""
    with _nl:
        _n[0] += 1
        k = _n[0]
    cfg = work.path("c%d.cfg" % k)
    with open(cfg, "w") as f:
        if constants:
            f.write("CONSTANTS\n")
            for c, v in constants.items():
                f.write("  %s = %s\n" % (c, tla_val(v)))
        f.write(cfg_extra + "\n")
    e = env()
    jar = "/opt/veriftools/tla"
    cp = ":".join([os.path.join(jar, j) for j in sorted(os.listdir(jar)) if j.endswith(".jar")])
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", cp,
           "tlc2.TLC", "-workers", str(workers), "-metadir", work.path("m%d" % k), "-noGenerateSpecTE",
           "-config", cfg] + list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on " + module)
    out = p.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
    st = {"states": int(m.group(2)) if m else 0, "transitions": int(m.group(1)) if m else 0}
    ok = p.returncode == 0
    if check and not ok:
        raise ToolError("TLC failed on %s (status %d):\n%s" % (module, p.returncode, out[-6000:]))
    return ok, out, st


def tlc_eval(work, module, constants, heap="3g", timeout=600):
    """A module whose ASSUME writes Out; returns the parsed output."""
    with _nl:
        _n[0] += 1
        k = _n[0]
    out = work.path("o%d.json" % k)
    c = dict(constants)
    c["Out"] = out
    tlc(work, module, c, heap=heap, timeout=timeout)
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    return r


# ---------------------------------------------------------------------------------------------
class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.times = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = {}

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, s):
        if s and len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def time(self, **kw):
        for k, v in kw.items():
            self.times[k] = round(self.times.get(k, 0) + v, 1)

    def violation(self, what, detail, key=None):
        """key identifies the failing input for the known-findings file."""
        if key is not None:
            for kf in self.known:
                if kf["key"] == key:
                    self.known_hit[key] = kf["what"]
                    return
        self.violations.append({"what": what, "detail": detail, "key": key})

    def finish(self, level, level_note=""):
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for k, w in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        lines = []
        for i, v in enumerate(self.violations[:20]):
            path = os.path.join(rdir, "%s_%d.json" % (self.pid, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=True)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + v["what"])
            lines.append(v["what"])
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s in %.1f s; %s" % (self.pid, self.tier, "VIOLATED" if self.violations else "held",
                                          time.time() - self.t0,
                                          json.dumps({k: v for k, v in self.cov.items() if k != "samples"}) + " " + json.dumps(self.times)))
        return 1 if self.violations else 0


def load_known(pid):
    p = os.path.join(ROOT, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                o = json.loads(l)
                if o.get("status") == "known" and o["property"] == pid:
                    out.append(o)
    return out
