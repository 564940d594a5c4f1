"""Builds the driver from /repo's working tree, runs scripts on it, and lets TLC judge the traces."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]


class Broken(Exception):
    """The machinery failed: neither a pass nor a violation."""


class Violation:
    def __init__(self, stage, what, detail, replay):
        self.stage, self.what, self.detail, self.replay = stage, what, detail, replay


def env():
    e = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.decode(errors="replace").split("\0"):
            k, _, v = kv.partition("=")
            if k and k not in ("PWD", "SHLVL", "_", "OLDPWD"):
                e[k] = v
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e


class Engine:
    def __init__(self):
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=base)
        self.env = env()
        self.states = self.transitions = self.runs = 0
        self.tlc_wall = 0.0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def run(self, cmd, timeout, what, cwd=None, env=None):
        try:
            r = subprocess.run(cmd, cwd=cwd, env=env or self.env, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken(f"{what}: no end within {timeout} s")
        r.stdout, r.stderr = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        return r

    # -- building
    def build(self):
        classes = self.path("classes")
        os.makedirs(classes)
        srcs = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java"))) if f.endswith(".java")]
        jc = subprocess.Popen(["javac", "-cp", JARS[0], "-d", classes] + srcs, env=self.env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            self.drv = self.go_build("drv")
        finally:
            out = jc.communicate()[0]
        if jc.returncode != 0:
            raise Broken("javac: " + out.decode()[-2000:])

    def overlay(self, extra=None):
        rep = {}
        for part in ("drv", "zsched", "zsync", "ztime"):
            d = os.path.join(VERIF, "harness", part)
            rep.update({f"{REPO}/zz_verif/{part}/{f}": os.path.join(d, f) for f in os.listdir(d) if f.endswith(".go")})
        rep.update(extra or {})
        f = self.path(f"overlay-{len(os.listdir(self.dir))}.json")
        with open(f, "w") as h:
            json.dump({"Replace": rep}, h)
        return f

    def go_build(self, name, pkg="./zz_verif/drv", extra=None, flags=()):
        mod = self.path("mod")
        if not os.path.isdir(mod):
            os.makedirs(mod)
            for f in ("go.mod", "go.sum"):
                shutil.copy(os.path.join(REPO, f), mod)
        out = self.path(name)
        r = self.run(["go", "build", *flags, "-overlay", self.overlay(extra), "-modfile", mod + "/go.mod", "-o", out, pkg],
                     600, "go build", cwd=REPO)
        if r.returncode != 0:
            raise Broken(f"go build {pkg}: " + r.stderr[-3000:])
        return out

    def instrumented(self, name, dirs, flags=()):
        """The driver with the packages in dirs (below the repository) under zsched's control; (None, why) if that cannot be."""
        instr = self.path("instr")
        if not os.path.exists(instr):
            r = self.run(["go", "build", "-o", instr, "main.go"], 300, "go build instr",
                         cwd=os.path.join(VERIF, "harness", "instr"), env=dict(self.env, GO111MODULE="off"))
            if r.returncode != 0:
                raise Broken("go build instr: " + r.stderr[-2000:])
        d = self.path(name + "-src")
        os.makedirs(d)
        r = self.run([instr, *flags, d] + [os.path.join(REPO, x) for x in dirs], 60, "instr")
        if r.returncode != 0:
            raise Broken("instr: " + r.stderr[-2000:])
        out = json.loads(r.stdout)
        if "unable" in out:
            return None, out["unable"]
        if not out["files"]:
            return self.drv, ""
        try:
            return self.go_build(name, extra=out["files"]), ""
        except Broken as e:
            return None, "the instrumented packages do not build: " + str(e)[-600:]

    def timed(self):
        """The driver with packages whose clock it can move, and how it does: "jump", or "sleep" if that cannot be."""
        if not hasattr(self, "with_clock"):
            dirs = [os.path.relpath(d, REPO) for d, _, fs in os.walk(REPO)
                    if any(f.endswith(".go") for f in fs) and "/." not in d and not os.path.relpath(d, REPO).startswith(("cmd", "zz_verif"))]
            self.with_clock = self.instrumented("drv-timed", dirs, ["-time"])
        drv, why = self.with_clock
        return (drv, "jump") if drv else (self.drv, "sleep")

    # -- the real code
    def drive(self, mode, script, tag, drv=None, timeout=800, args=(), env=None):
        """Returns the trace (list of dicts) and its file; a dead or hung process is reported as (kind, text)."""
        s, t = self.path(tag + ".script"), self.path(tag + ".trace")
        with open(s, "w") as f:
            for o in script:
                f.write(json.dumps(o, separators=(",", ":")) + "\n")
        e = dict(self.env)
        e["VERIF_WORK"] = self.dir
        e.update(env or {})
        r = self.run([drv or self.drv, mode, s, t, *args], timeout, f"driver {mode}", env=e)
        if r.returncode != 0:
            m = re.search(r"^LINE (\d+)", r.stderr, re.M)
            line = int(m.group(1)) if m else 0
            if r.returncode == 4 and "moov-io/dukpt/" in r.stderr:
                return None, ("hang", line, r.stderr)
            if r.returncode in (2, -11, -6) and re.search(r"^(fatal error|panic|SIG|unexpected fault)", r.stderr, re.M) \
                    and re.search(r"moov-io/dukpt/(pkg|encryption|cmd)", r.stderr):
                return None, ("crash", line, r.stderr)
            raise Broken(f"driver {mode} ended with {r.returncode}: {r.stderr[-3000:]}")
        return t, None

    # -- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=1500, heap="8g", extra=(), ok=None):
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.dir)
        e = dict(self.env)
        e.update(env or {})
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", ":".join([self.path("classes")] + JARS),
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
        t0 = time.time()
        r = self.run(cmd, timeout, f"TLC {module}", cwd=SPEC, env=e)
        self.tlc_wall += time.time() - t0
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found, 0 states left", out, re.M)
        if not ok and '"BAD' in out and "Model checking completed. No error has been found." not in out:
            print(f"TLC {module}: stopped after a verdict", flush=True)   # a wrong line may leave nothing to go on from
            self.runs += 1
            return out
        if (ok or "Model checking completed. No error has been found." not in out) and not (ok and ok in out):
            keep = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", '"BAD')))
            raise Broken(f"TLC {module} ({cfg or module}): " + keep[-3000:] + r.stderr[-500:])
        if m and not ok:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
        self.runs += 1
        return out

    def bad(self, out):
        """[(line, verdict, rest)] of the BAD lines of a trace check"""
        found = []
        for l in out.splitlines():
            m = re.match(r'"BAD <<(\d+), \\"([^"\\]*)\\"(.*)>>"$', l)
            if m:
                found.append((int(m.group(1)), m.group(2), m.group(3)[:600]))
            elif l.startswith('"BAD'):
                raise Broken("unreadable verdict: " + l[:300])
        return sorted(found)


def read_trace(path):
    with open(path) as f:
        return [json.loads(l) for l in f]


def readable(o, depth=0):
    """byte arrays as text, for people"""
    if isinstance(o, dict):
        return {k: readable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        if o and all(isinstance(x, int) and 0 <= x < 256 for x in o):
            b = bytes(o)
            try:
                t = b.decode("ascii")
                if t.isprintable():
                    return "text " + t
            except UnicodeDecodeError:
                pass
            return "hex " + b.hex()
        return [readable(x, depth + 1) for x in o]
    return o
