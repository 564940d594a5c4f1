"""What is run for which property."""
import collections
import concurrent.futures
import json
import os
import re

import engine
import cligen
import concgen
import fillgen
import httpgen
import libgen
import pargen
import procgen
import svcgen
import tourgen
import unigen
import walkgen
from engine import Broken, Violation, read_trace
from libgen import ALL_OPS
from pools import Pools

ASSUMPTIONS = [
    "the specification's block ciphers and SHA-256 are right: they are written out in TLA+, compared with Java's "
    "implementations on random inputs (PrimSelfTest) and with published vectors (KnownAnswers); TLC runs the Java ones",
    "TLC 1.8 evaluates the trace specifications correctly",
    "what was not generated was not observed: conformance is established for the calls, histories and schedules counted here",
]
EXTRA_ASSUMPTIONS = {}


class Context:
    def __init__(self, prop, tier, seed, eng):
        self.prop, self.tier, self.seed, self.eng = prop, tier, seed, eng
        self.violations, self.gaps = [], collections.Counter()
        self.traces = self.calls = 0
        self.ops, self.ends = collections.Counter(), collections.Counter()
        self.samples, self.stages, self.extra = [], [], {}
        self.n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tag(self, name):
        self.n += 1
        return f"{self.n}-{name}"

    def note(self, stage, wall):
        self.stages.append({"stage": stage.name, "wall_s": round(wall, 1)})

    def dead(self, stage, death, script, mode):
        kind, line, text = death
        part = [script[line - 1]] if 0 < line <= len(script) else script
        self.violations.append(Violation(stage.name, kind, {"stderr": text[:3000]}, {"mode": mode, "script": part[:2000]}))


class Model:
    """An exhaustive check of a model; it has no implementation in it, so its failure is an error of the machinery."""

    def __init__(self, module, quick=None, thorough=None):
        self.name = "model " + module
        self.module, self.quick, self.deep = module, quick or module, thorough or quick or module

    def run(self, ctx):
        ctx.eng.tlc(self.module, self.deep if ctx.thorough else self.quick, timeout=3000)

    def replay(self, ctx, r):
        self.run(ctx)


class Calls:
    """Library calls, judged by LibTrace."""
    mode, module, chunk = "lib", "LibTrace", "100"

    def __init__(self, gen, quick, thorough, rounds=1):
        if quick == 1:
            self.chunk = "1"
        self.name = "calls " + gen.__name__
        self.gen, self.sizes, self.rounds = gen, (quick, thorough), rounds

    def run(self, ctx):
        rounds = self.rounds if ctx.thorough else 1
        for i in range(rounds):
            p = Pools(ctx.seed * 1000 + i, self.name)
            script = self.gen(p, self.sizes[1 if ctx.thorough else 0])
            self.judge(ctx, script)
            if ctx.violations:
                return

    def origin(self, script):
        """the script line every trace line comes from"""
        return script

    def times(self, o):
        """how often each of its calls is made"""
        return 3

    def judge(self, ctx, script):
        trace, death = ctx.eng.drive(self.mode, script, ctx.tag(self.mode))
        if death:
            ctx.dead(self, death, script, self.mode)
            return
        self.verdicts(ctx, script, trace)

    def verdicts(self, ctx, script, trace):
        out = ctx.eng.tlc(self.module, env={"TRACE": trace, "CHUNK": self.chunk})
        lines = read_trace(trace)
        origin = self.origin(script)
        ctx.traces += len(lines)
        ctx.calls += sum(self.times(o) + ("back" in t) for t, o in zip(lines, origin))
        for t in lines:
            ctx.ops[t["op"]] += 1
            ctx.ends["panic" if t["res"]["panic"] else "answered" if t["res"]["ok"] else "refused"] += 1
        bad = ctx.eng.bad(out)
        for n, verdict, rest in bad:
            if verdict == "gap":
                ctx.gaps["pin-10-12"] += 1
                continue
            t = dict(lines[n - 1])
            ctx.violations.append(Violation(self.name, f"{verdict} ({t['op']})", {"call": t, "specified": rest},
                                            {"mode": self.mode, "script": [origin[n - 1]]}))
        for k in (0, len(lines) // 3, 2 * len(lines) // 3):
            ctx.samples.append({"stage": self.name, "call": engine.readable(
                {a: b for a, b in lines[k].items() if a not in ("heap", "again")})})

    def replay(self, ctx, r):
        self.judge(ctx, r["script"])


class Batches(Calls):
    """Batches of library calls made one after the other and at the same time, judged call by call by LibTrace."""
    mode = "par"

    def run(self, ctx):
        for i in range(self.rounds if ctx.thorough else 1):
            p = Pools(ctx.seed * 1000 + i, self.name)
            self.judge(ctx, self.gen(p, *self.sizes[1 if ctx.thorough else 0]))
            if ctx.violations:
                return

    def origin(self, script):
        return [b for b in script for _ in b["calls"]]

    def times(self, o):
        return 2 + o["threads"] * o.get("rounds", 1)


class Sweeps(Calls):
    """Runs of neighbouring counters, judged by SweepTrace."""
    mode, module = "sweep", "SweepTrace"

    def run(self, ctx):
        p = Pools(ctx.seed * 1000, self.name)
        self.judge(ctx, self.gen(p, *self.sizes[1 if ctx.thorough else 0]))

    def verdicts(self, ctx, script, trace):
        out = ctx.eng.tlc(self.module, env={"TRACE": trace})
        ctx.traces += len(script)
        ctx.calls += sum(o["n"] for o in script) * 2
        ctx.extra["counters_swept"] = ctx.extra.get("counters_swept", 0) + sum(o["n"] for o in script)
        for n, verdict, rest in ctx.eng.bad(out):
            ctx.violations.append(Violation(self.name, verdict, {"run": script[n - 1], "at": rest},
                                            {"mode": self.mode, "script": [script[n - 1]]}))


class Cubes(Sweeps):
    """The keys of all choices of some bits of a counter, judged by CubeTrace."""
    mode, module = "cube", "CubeTrace"

    def verdicts(self, ctx, script, trace):
        out = ctx.eng.tlc(self.module, env={"TRACE": trace})
        ctx.traces += len(script)
        n = sum(1 << len(o["free"]) for o in script)
        ctx.calls += n
        ctx.extra["counters_swept"] = ctx.extra.get("counters_swept", 0) + n
        for n, verdict, rest in ctx.eng.bad(out):
            ctx.violations.append(Violation(self.name, verdict, {"family": script[n - 1], "at": rest},
                                            {"mode": self.mode, "script": [script[n - 1]]}))


class Unified(Batches):
    """Batches of unified operations, judged call by call by UnifiedTrace."""
    mode, module = "uni", "UnifiedTrace"

    def run(self, ctx):
        Calls.run(self, ctx)


class Schedules(Batches):
    """Batches of library calls made under controlled schedules, in parts at the same time."""
    parts = 8

    def interleaved(self, ctx):
        if not hasattr(ctx.eng, "interleaved"):
            ctx.eng.interleaved, why = ctx.eng.instrumented("drv-interleaved", ["pkg", "pkg/aes", "pkg/des", "encryption"])
            if why:
                ctx.extra["schedules_not_controlled"] = why
        return ctx.eng.interleaved

    def judge(self, ctx, script):
        drv = self.interleaved(ctx)
        if drv is None:
            return
        n = max(1, min(self.parts, len(script)))
        parts = [script[i::n] for i in range(n)]
        tags = [ctx.tag(self.mode) for _ in parts]
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            done = list(ex.map(lambda a: ctx.eng.drive(self.mode, a[0], a[1], drv=drv), zip(parts, tags)))
        ctx.extra["schedules_run"] = ctx.extra.get("schedules_run", 0) + sum(b["schedules"] for b in script)
        self.merge(ctx, parts, done)

    def merge(self, ctx, parts, done):
        f = ctx.eng.path(ctx.tag("all") + ".trace")
        order = []
        with open(f, "w") as h:
            for part, (trace, death) in zip(parts, done):
                if death:
                    ctx.dead(self, death, part, self.mode)
                    continue
                order += part
                with open(trace) as t:
                    h.write(t.read())
        if order:
            self.verdicts(ctx, order, f)


class Firsts(Schedules):
    """Processes whose first calls are made at the same time, or in the middle of one another."""

    def __init__(self, quick, thorough, *ops):
        super().__init__(pargen.firsts, quick, thorough)
        self.name = "first calls" + (" of " + ", ".join(ops) if ops else "")
        self.ops = ops or libgen.ALL_OPS

    def run(self, ctx):
        p = Pools(ctx.seed * 1000, self.name)
        self.judge(ctx, pargen.firsts(p, self.sizes[1 if ctx.thorough else 0], self.ops))

    def judge(self, ctx, script):
        drv = {"together": ctx.eng.drv, "interrupted": self.interleaved(ctx)}
        script = [b for b in script if drv[b["first"]]]
        tags = [ctx.tag(self.mode) for _ in script]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            done = list(ex.map(lambda a: ctx.eng.drive(self.mode, [a[0]], a[1], drv=drv[a[0]["first"]]), zip(script, tags)))
        ctx.extra["processes_started"] = ctx.extra.get("processes_started", 0) + len(script)
        self.merge(ctx, [[b] for b in script], done)

    def times(self, o):
        return 4


class Histories:
    """Histories (one script line each, several trace lines), judged line by line."""

    def __init__(self, name, mode, module, gen, quick, thorough, rounds=1, gap=None):
        self.name = name
        self.mode, self.module, self.gen, self.sizes, self.rounds, self.gap = mode, module, gen, (quick, thorough), rounds, gap

    def run(self, ctx):
        for i in range(self.rounds if ctx.thorough else 1):
            p = Pools(ctx.seed * 1000 + i, self.name)
            self.judge(ctx, self.gen(p, *self.sizes[1 if ctx.thorough else 0]))
            if ctx.violations:
                return

    def origin(self, script, k):
        return script[k]

    def starts(self, t):
        return t.get("op") == "start" or t.get("ev") == "start"

    def drive(self, ctx, script):
        return ctx.eng.drive(self.mode, script, ctx.tag(self.mode))

    def judge(self, ctx, script):
        trace, death = self.drive(ctx, script)
        if death:
            ctx.dead(self, death, script, self.mode)
            return
        out = ctx.eng.tlc(self.module, env={"TRACE": trace})
        lines = read_trace(trace)
        which, k = [], -1
        for t in lines:
            k += self.starts(t)
            which.append(k)
            if not self.starts(t):
                ctx.ops[t.get("op") or t.get("ev")] += 1
                for c in t.get("conns", []):
                    ctx.ops["connection"] += 1
                    ctx.calls += len(c["log"])
                    ctx.ends["connection: " + c["log"][-1]["what"]] += 1
                if "ev" in t:
                    continue
                ctx.ends[str(t.get("kind", t.get("status", t["a"]["status"] if "a" in t else "answered" if t.get("ok") else "refused")))] += 1
        ctx.traces += k + 1
        ctx.calls += len(lines) - (k + 1)
        for n, verdict, rest in ctx.eng.bad(out):
            if verdict == "gap":
                ctx.gaps["pin-10-12"] += 1
                continue
            ctx.violations.append(Violation(self.name, verdict, {"line": lines[n - 1], "specified": rest},
                                            {"mode": self.mode, "script": [self.origin(script, which[n - 1])]}))
        for k in (1, len(lines) // 2):
            if k < len(lines):
                ctx.samples.append({"stage": self.name, "line": engine.readable(lines[k])})

    def replay(self, ctx, r):
        self.judge(ctx, r["script"])


class Rested(Histories):
    """Histories with long pauses, which pass at once: the packages under test read a clock that is moved."""

    def drive(self, ctx, script):
        drv, how = ctx.eng.timed()
        return ctx.eng.drive(self.mode, script, ctx.tag(self.mode), drv=drv, env={"VERIF_REST": how})


class Tours(Histories):
    """Behaviours that TLC writes out from the model, replayed: every step from every registry, or every sequence."""

    def __init__(self, name, quick, thorough, word="STEP", most=2, mode="svc", longest=1200, listed=0.3, peeks=0.0, uses=1, deletes=True):
        super().__init__(name, mode, {"svc": "ServiceTrace", "http": "HttpTrace"}[mode], None, quick, thorough)
        self.word, self.most, self.longest, self.listed, self.peeks, self.uses, self.deletes = word, most, longest, listed, peeks, uses, deletes

    def run(self, ctx):
        found = tourgen.printed(ctx.eng.tlc("ServiceTours", self.sizes[1 if ctx.thorough else 0]), self.word)
        if not found:
            raise Broken("the model printed no behaviours")
        ctx.extra["behaviours_of_the_model"] = ctx.extra.get("behaviours_of_the_model", 0) + len(found)
        p = Pools(ctx.seed * 1000, self.name)
        if self.word == "STEP":
            if not self.deletes:
                found = [s for s in found if s["label"]["op"] != "delete"]
            found = tourgen.tours(p, found, self.longest)
        elif not self.deletes:
            found = [w for w in found if all(t["op"] != "delete" for t in w)]
        found = [[t for t in w for _ in range(self.uses if t["op"] == "use" else 1)] for w in found]
        if self.mode == "http":
            script = tourgen.browse(p, found, self.most, self.listed)
        else:
            script = tourgen.play(p, found, self.most, self.listed, self.peeks)
        for k in range(0, len(script), 12000):
            self.judge(ctx, script[k:k + 12000])


def svc(focus, quick, thorough, rounds=1):
    return Histories("histories " + focus, "svc", "ServiceTrace", lambda p, n, s: svcgen.histories(p, focus, n, s),
                     quick, thorough, rounds)


def http(focus, quick, thorough, rounds=1):
    return Histories("requests " + focus, "http", "HttpTrace", lambda p, n, s: httpgen.histories(p, focus, n, s),
                     quick, thorough, rounds)


class Invocations(Batches):
    """Invocations of the built command line tool."""
    mode, module = "cli", "CliTrace"

    def run(self, ctx):
        for i in range(self.rounds if ctx.thorough else 1):
            p = Pools(ctx.seed * 1000 + i, self.name)
            self.judge(ctx, self.gen(p, self.sizes[1 if ctx.thorough else 0]))
            if ctx.violations:
                return

    def judge(self, ctx, script):
        if "VERIF_CLI" not in ctx.eng.env:
            ctx.eng.env["VERIF_CLI"] = ctx.eng.go_build("dukptcli", "./cmd/dukptcli")
        trace, death = ctx.eng.drive(self.mode, script, ctx.tag(self.mode))
        if death:
            raise Broken("driver cli: " + death[2][:500])
        out = ctx.eng.tlc(self.module, env={"TRACE": trace, "CHUNK": "40"})
        lines = read_trace(trace)
        origin = [[c] for b in script for c in b["chains"] for _ in c]
        ctx.traces += len(lines)
        ctx.calls += len(lines)
        for t in lines:
            ctx.ops[(t["q"]["sel"] + ["none"])[0]] += 1
            ctx.ends["exit %d" % t["e"]["exit"]] += 1
        for n, verdict, rest in ctx.eng.bad(out):
            ctx.violations.append(Violation(self.name, verdict, {"invocation": lines[n - 1]},
                                            {"mode": self.mode, "script": [{"chains": origin[n - 1]}]}))
        for k in (0, len(lines) // 2):
            ctx.samples.append({"stage": self.name, "invocation": engine.readable(lines[k])})


class Served(Histories):
    """HTTP histories with started server processes."""

    def judge(self, ctx, script):
        if "VERIF_SERVER" not in ctx.eng.env:
            ctx.eng.env["VERIF_SERVER"] = ctx.eng.go_build("server", "./cmd/server")
        super().judge(ctx, script)


class Lives(Served):
    """Lives of started server processes."""

    def origin(self, script, k):
        return {"scenarios": [[s for o in script for s in o["scenarios"]][k]]}

    def run(self, ctx):
        for i in range(self.rounds if ctx.thorough else 1):
            p = Pools(ctx.seed * 1000 + i, self.name)
            for o in self.gen(p, *self.sizes[1 if ctx.thorough else 0]):
                self.judge(ctx, [o])
            if ctx.violations:
                return


class LivesOfModel(Lives):
    """Configurations and lives that TLC writes out from Process, with real processes."""

    def run(self, ctx):
        out = ctx.eng.tlc("ProcessPaths", "ProcessPathsDeep" if ctx.thorough else "ProcessPaths")
        p = Pools(ctx.seed * 1000, self.name)
        cs, ls = tourgen.printed(out, "CONFIG"), tourgen.printed(out, "LIFE")
        if not cs or not ls:
            raise Broken("the model printed no lives")
        p.r.shuffle(cs)
        p.r.shuffle(ls)
        serving, refused, lives = self.sizes[1 if ctx.thorough else 0]
        cs = [x for x in cs if x["serves"]][:serving] + [x for x in cs if not x["serves"]][:refused]
        ls = ls[:lives]
        ctx.extra["behaviours_of_the_model"] = len(cs) + len(ls)
        many = [procgen.configured(p, x["config"], x["serves"]) for x in cs] + [procgen.played(p, l) for l in ls]
        for k in range(0, len(many), 400):
            self.judge(ctx, [{"scenarios": many[k:k + 400], "atonce": 8}])
            if ctx.violations:
                return


class Concurrent:
    """Concurrent histories of one service; LinTrace looks for an order of the calls that explains them."""
    mode, module = "conc", "LinTrace"

    def __init__(self, gen, quick, thorough, rounds=1, controlled=False, parts=1):
        self.name = "concurrent " + gen.__name__
        self.gen, self.sizes, self.rounds, self.controlled, self.parts = gen, (quick, thorough), rounds, controlled, parts

    def run(self, ctx):
        for i in range(self.rounds if ctx.thorough else 1):
            p = Pools(ctx.seed * 1000 + i, self.name)
            script = self.gen(p, *self.sizes[1 if ctx.thorough else 0])
            for k in range(0, len(script), 60):          # a trace at a time that TLC can hold
                self.judge(ctx, script[k:k + 60])
            if ctx.violations:
                return

    def driver(self, ctx):
        if not self.controlled:
            return ctx.eng.drv
        if not hasattr(ctx.eng, "controlled"):
            ctx.eng.controlled, why = ctx.eng.instrumented("drv-controlled", ["pkg/server"])
            if why:
                ctx.extra["schedules_not_controlled"] = why
        return ctx.eng.controlled

    def record(self, ctx, script):
        """[(trace line, script line)], or None after a death; the script in parts at the same time"""
        drv = self.driver(ctx)
        if drv is None:
            return []
        n = max(1, min(self.parts, len(script)))
        parts = [script[i::n] for i in range(n)]
        tags = [ctx.tag(self.mode) for _ in parts]
        with concurrent.futures.ThreadPoolExecutor(min(n, 8 if self.controlled else 2)) as ex:
            done = list(ex.map(lambda a: ctx.eng.drive(self.mode, a[0], a[1], drv=drv), zip(parts, tags)))
        found = []
        for part, (trace, death) in zip(parts, done):
            if death:
                ctx.dead(self, death, part, self.mode)
                continue
            for t in read_trace(trace):
                o = part[t["from"] - 1]
                if t.get("stuck"):
                    ctx.extra["scenarios_not_controlled"] = ctx.extra.get("scenarios_not_controlled", 0) + 1
                else:
                    ctx.extra["schedules_run"] = ctx.extra.get("schedules_run", 0) + t.get("runs", 0)
                    found.append((t, o))
        return found

    def judge(self, ctx, script):
        found = self.record(ctx, script)
        if not found:
            return
        f = ctx.eng.path(ctx.tag("conc") + ".trace")
        with open(f, "w") as h:
            for t, _ in found:
                h.write(json.dumps(t, separators=(",", ":")) + "\n")
        self.verdicts(ctx, found, ctx.eng.tlc(self.module, env={"TRACE": f}))
        ctx.traces += len(found)
        for t, o in found[:: max(1, len(found) // 2)]:
            ctx.samples.append({"stage": self.name, "history": engine.readable(t)})

    def verdicts(self, ctx, found, out):
        done = {int(x) for x in re.findall(r'"DONE (\d+)"', out)}
        for i, (t, o) in enumerate(found, 1):
            for ops in t["threads"]:
                ctx.calls += len(ops)
                for x in ops:
                    ctx.ops[x.get("op") or "request " + x["q"]["path"]] += 1
                    ctx.ends[str(x["kind"] if "kind" in x else x["a"]["status"])] += 1
            if i not in done:
                what = "calls that never return" if t["hang"] else "no order of the calls explains the answers"
                ctx.violations.append(Violation(self.name, what, {"history": t}, {"mode": self.mode, "script": [o]}))

    def replay(self, ctx, r):
        self.judge(ctx, r["script"])


class Spinning(Concurrent):
    """Readers and writers racing on one machine."""
    module = "SpinTrace"

    def verdicts(self, ctx, found, out):
        for t, _ in found:
            ctx.calls += sum(len(w) for w in t["writes"]) + sum(len(r) for r in t["reads"])
            ctx.ops["racing advance"] += sum(len(w) for w in t["writes"])
            ctx.ops["racing look"] += sum(len(r) for r in t["reads"])
        for n, verdict, rest in ctx.eng.bad(out):
            t, o = found[n - 1]
            ctx.violations.append(Violation(self.name, verdict, {"at": rest, "history": t}, {"mode": self.mode, "script": [o]}))


class Fills:
    """Runs of PIN encryptions, judged by FillTrace."""
    mode, module = "fill", "FillTrace"

    def __init__(self, quick, thorough):
        self.name, self.sizes = "runs of pin encryptions", (quick, thorough)

    def run(self, ctx):
        for i in range(self.sizes[1] if ctx.thorough else 1):
            p = Pools(ctx.seed * 1000 + i, self.name)
            more = self.sizes[0] if not ctx.thorough else p.some(1, 2)
            script = [{"part": 0, "o": o} for o in fillgen.runs(p, more)] + [{"part": k, "o": o} for o, k in fillgen.processes(p, more)]
            self.judge(ctx, script)
            if ctx.violations:
                return

    def record(self, ctx, s):
        """a trace line, or the death of the process"""
        o, k = s["o"], s["part"]
        if not k:
            trace, death = ctx.eng.drive(self.mode, [o], ctx.tag(self.mode))
            return None if death else read_trace(trace)[0], death
        parts = []
        for _ in range(-(-o["n"] // k)):
            trace, death = ctx.eng.drive(self.mode, [dict(o, n=k)], ctx.tag(self.mode))
            if death:
                return None, death
            parts.append(read_trace(trace)[0])
        # what the processes did first, then what they did next, and so on
        ctx.extra["processes_started"] = ctx.extra.get("processes_started", 0) + len(parts)
        return dict(o, outs=[t["outs"][i] for i in range(k) for t in parts], of=[t["of"][i] for i in range(k) for t in parts]), None

    def judge(self, ctx, script):
        if "VERIF_CLI" not in ctx.eng.env and any(s["o"]["layer"] == "cli" for s in script):
            ctx.eng.env["VERIF_CLI"] = ctx.eng.go_build("dukptcli", "./cmd/dukptcli")
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            done = list(ex.map(lambda s: self.record(ctx, s), script))
        f = ctx.eng.path(ctx.tag("fills") + ".trace")
        from_ = []
        with open(f, "w") as h:
            for s, (t, death) in zip(script, done):
                if death:
                    ctx.dead(self, death, [s], self.mode)
                    continue
                from_.append(s)
                h.write(json.dumps(t, separators=(",", ":")) + "\n")
                ctx.calls += len(t["outs"])
                ctx.ops[f"{t['layer']} {bytes(t['calls'][0]['fmt']).decode().upper() if t['calls'][0]['op'] == 'des.ep' else 'ISO-4'}"] += len(t["outs"])
        ctx.traces += len(from_)
        for n, verdict, rest in ctx.eng.bad(ctx.eng.tlc(self.module, env={"TRACE": f})):
            ctx.violations.append(Violation(self.name, f"{verdict} ({rest.strip(', ')})", {"run": engine.readable(from_[n - 1])},
                                            {"mode": self.mode, "script": [from_[n - 1]]}))

    def replay(self, ctx, r):
        self.judge(ctx, r["script"])


class MustFail:
    """A model with a mistake put in on purpose: the check has to find it."""

    def __init__(self, module, cfg, says):
        self.name, self.module, self.cfg, self.says = f"model {cfg} (must fail)", module, cfg, says

    def run(self, ctx):
        ctx.eng.tlc(self.module, self.cfg, ok=self.says)

    def replay(self, ctx, r):
        self.run(ctx)


ROUNDS = 6000           # of a long batch: calls that are made again and again, well over a hundred thousand times

PLANS = {
    "C01": [Model("TerminalModel"), Model("PrimSelfTest"), Model("KnownAnswers"),
            Calls(libgen.tdes_keys, 9000, 60000, 6),
            Histories("walks des keys", "walk", "WalkTrace", walkgen.des_keys, (24, 120), (60, 1500)),
            Cubes(walkgen.des_cubes, (48, 11), (128, 14)),
            Batches(pargen.only("des.ik", "des.tk"), (40, 40), (200, 60), 3),
            Batches(pargen.long("des.ik", "des.tk"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "des.ik", "des.tk")],
    "C02": [Model("TerminalModel"), Model("PrimSelfTest"), Model("KnownAnswers"),
            Calls(libgen.aes_keys, 9000, 60000, 6),
            Histories("walks aes keys", "walk", "WalkTrace", walkgen.aes_keys, (24, 100), (60, 1000)),
            Cubes(walkgen.aes_cubes, (48, 11), (128, 14)),
            Batches(pargen.only("aes.ik", "aes.tk"), (40, 40), (200, 60), 3),
            Batches(pargen.long("aes.ik", "aes.tk"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "aes.ik", "aes.tk")],
    "C03": [Model("KsnModel"), Calls(libgen.des_ksns, 9000, 60000, 3),
            Histories("walks des", "walk", "WalkTrace", walkgen.des, (40, 700), (16, 65540)),
            Sweeps(walkgen.every_des, (4096,), (1024,)),
            Batches(pargen.only("ksn.des"), (40, 40), (200, 60), 3),
            Batches(pargen.long("ksn.des"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "ksn.des")],
    "C04": [Model("KsnModel"), Calls(libgen.aes_ksns, 9000, 60000, 3),
            Histories("walks aes", "walk", "WalkTrace", walkgen.aes, (40, 700), (60, 12000)),
            Sweeps(walkgen.aes_runs, (1000, 1024), (16000, 1024)),
            Batches(pargen.only("ksn.aes", "ksn.valid"), (40, 40), (200, 60), 3),
            Batches(pargen.long("ksn.aes", "ksn.valid"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "ksn.aes", "ksn.valid")],
    "C05": [Model("PinModel"), Calls(libgen.des_pins, 7000, 60000, 5), Calls(libgen.des_pin_blocks, 6000, 40000, 3),
            Calls(libgen.every_des_pin, 10000, 10000, 10),
            Batches(pargen.only("des.ep", "des.dp"), (40, 40), (200, 60), 3),
            Batches(pargen.long("des.ep", "des.dp"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "des.ep", "des.dp")],
    "C06": [Model("PinModel"), Calls(libgen.aes_pins, 7000, 60000, 5), Calls(libgen.aes_pin_blocks, 0, 0, 40),
            Calls(libgen.every_aes_pin, 10000, 10000, 10),
            Batches(pargen.only("aes.ep", "aes.dp"), (40, 40), (200, 60), 3),
            Batches(pargen.long("aes.ep", "aes.dp"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "aes.ep", "aes.dp")],
    "C07": [Model("KnownAnswers"), Calls(libgen.des_macs, 7000, 40000, 5), Calls(libgen.huge("des.mac"), 1, 1, 3),
            Batches(pargen.only("des.mac"), (40, 40), (200, 60), 3),
            Batches(pargen.long("des.mac"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "des.mac")],
    "C08": [Model("KnownAnswers"), Calls(libgen.aes_macs, 8000, 40000, 5), Calls(libgen.huge("aes.cmac", "aes.hmac"), 1, 1, 3),
            Batches(pargen.only("aes.cmac", "aes.hmac"), (40, 40), (200, 60), 3),
            Batches(pargen.long("aes.cmac", "aes.hmac"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "aes.cmac", "aes.hmac")],
    "C09": [Model("KnownAnswers"), Calls(libgen.des_data, 7000, 30000, 5), Calls(libgen.huge("des.en", "des.de"), 1, 1, 3),
            Batches(pargen.only("des.en", "des.de"), (40, 40), (200, 60), 3),
            Batches(pargen.long("des.en", "des.de"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "des.en", "des.de")],
    "C10": [Model("KnownAnswers"), Calls(libgen.aes_data, 8000, 30000, 5), Calls(libgen.huge("aes.en", "aes.de"), 1, 1, 3),
            Batches(pargen.only("aes.en", "aes.de"), (40, 40), (200, 60), 3),
            Batches(pargen.long("aes.en", "aes.de"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "aes.en", "aes.de")],
    "C11": [Calls(libgen.heaps, 8000, 40000, 5),
            Batches(pargen.batches, (120, 40), (400, 60), 3)],
    "C12": [Calls(libgen.malformed, 9000, 40000, 5), Batches(pargen.batches, (60, 40), (300, 60), 3), Unified(unigen.unreadable, 4000, 20000, 5)],
    "C13": [Model("ServiceModel"), svc("keys", (60, 60), (300, 120), 4),
            Histories("long lives", "svc", "ServiceTrace", svcgen.long_life, (8, 250), (40, 900)),
            Histories("lives of devices", "svc", "ServiceTrace", svcgen.devices, (40, 60), (300, 120), 2),
            Rested("histories with pauses", "svc", "ServiceTrace", svcgen.idle, (40, 60), (300, 120), 2),
            Histories("marathons", "svc", "ServiceTrace", svcgen.marathon, (6, 2500), (8, 20000)),
            Tours("every step of the model", "ServiceToursDeep", "ServiceToursDeep"),
            Tours("every sequence of the model", "ServicePaths", "ServicePathsDeep", word="PATH", listed=0.1),
            Concurrent(concgen.focused("sched", "keys"), (20, 600), (100, 6000), 3, controlled=True, parts=7),
            Concurrent(concgen.focused("stress", "keys"), (20, 80), (120, 400), 3),
            Concurrent(concgen.firsts("sched", "keys"), (160, 2), (1600, 2), controlled=True, parts=10000),
            Concurrent(concgen.firsts("stress", "keys"), (160, 2), (1600, 2), parts=10000)],
    "C14": [Model("ServiceModel"), svc("registry", (90, 60), (400, 120), 4),
            Rested("histories with pauses", "svc", "ServiceTrace", svcgen.idle, (40, 60), (300, 120), 2),
            Histories("crowds", "svc", "ServiceTrace", svcgen.crowd, (4, 1300), (8, 2500)),
            Histories("lives of devices", "svc", "ServiceTrace", svcgen.devices, (40, 60), (300, 120), 2),
            Histories("names that are nearly keys", "svc", "ServiceTrace", svcgen.lookalikes, (48, 90), (400, 120), 2),
            Tours("every life of a des machine", "ServiceLivesDes", "ServiceLivesDesDeep", word="PATH", listed=0.1),
            Tours("every life of an aes machine", "ServiceLivesAes", "ServiceLivesAesDeep", word="PATH", listed=0.1),
            Concurrent(concgen.focused("sched", "registry"), (20, 600), (100, 6000), 3, controlled=True, parts=7),
            Concurrent(concgen.focused("stress", "registry"), (20, 80), (120, 400), 3),
            Concurrent(concgen.firsts("sched", "registry"), (160, 2), (1600, 2), controlled=True, parts=10000),
            Concurrent(concgen.firsts("stress", "registry"), (160, 2), (1600, 2), parts=10000)],
    "C15": [svc("crypto", (90, 60), (400, 100), 5),
            Histories("machines in use", "svc", "ServiceTrace", svcgen.in_use, (4, 160), (8, 700), 2),
            Rested("histories with pauses", "svc", "ServiceTrace", svcgen.idle, (30, 60), (300, 120), 2),
            Tours("every step of the model, with much use", "ServiceTours", "ServiceToursDeep", uses=4),
            Concurrent(concgen.focused("sched", "crypto"), (20, 600), (100, 6000), 3, controlled=True, parts=7),
            Concurrent(concgen.focused("stress", "crypto"), (20, 80), (120, 400), 3),
            Concurrent(concgen.firsts("sched", "crypto"), (160, 2), (1600, 2), controlled=True, parts=10000),
            Concurrent(concgen.firsts("stress", "crypto"), (160, 2), (1600, 2), parts=10000)],
    "C16": [Model("ServiceLocks", thorough="ServiceLocksDeep"), Model("ServiceLocks", "ServiceLocksLive"),
            MustFail("ServiceLocks", "ServiceLocksOff", "Invariant Linearizable is violated"),
            Concurrent(concgen.sched, (40, 1500), (150, 12000), 4, controlled=True, parts=7),
            Concurrent(concgen.stress, (40, 120), (240, 600), 3),
            Spinning(concgen.spin, (16, 40), (48, 200), 3),
            Concurrent(concgen.firsts("sched", "all"), (160, 2), (1600, 2), controlled=True, parts=10000),
            Concurrent(concgen.firsts("stress", "all"), (160, 2), (1600, 2), parts=10000)],
    "C17": [Model("ServiceModel"), svc("isolation", (90, 60), (400, 120), 4),
            Histories("machines that come back", "svc", "ServiceTrace", svcgen.returns, (60, 60), (400, 120), 2),
            Tours("every step of the model, with machines held", "ServiceTours", "ServiceToursDeep", peeks=0.6),
            Spinning(concgen.spin, (8, 40), (48, 200), 3)],
    "C18": [http("serve", (110, 70), (400, 120), 4),
            Rested("requests with pauses", "http", "HttpTrace", httpgen.idle, (40, 60), (300, 120), 2),
            Histories("requests many", "http", "HttpTrace", httpgen.many, (2, 900), (8, 3000)),
            Histories("crowds", "http", "HttpTrace", httpgen.crowd, (4, 1100), (8, 2500)),
            Histories("names that are nearly keys", "http", "HttpTrace", httpgen.lookalikes, (32, 90), (300, 120), 2),
            Tours("every step of the model by requests", "ServiceTours", "ServiceToursDeep", mode="http", longest=400, deletes=False),
            Concurrent(concgen.focused("sched", "requests", 1.0), (20, 600), (100, 6000), 3, controlled=True, parts=7),
            Concurrent(concgen.focused("stress", "requests", 1.0), (20, 80), (120, 400), 3),
            Concurrent(concgen.firsts("sched", "requests", 1.0), (160, 2), (1600, 2), controlled=True, parts=10000),
            Concurrent(concgen.firsts("stress", "requests", 1.0), (160, 2), (1600, 2), parts=10000)],
    "C19": [http("fail", (110, 70), (400, 120), 4),
            Tours("every sequence of the model by requests", "ServicePaths", "ServicePathsDeep", word="PATH", mode="http", listed=0.2, deletes=False),
            Concurrent(concgen.focused("stress", "requests", 1.0), (20, 80), (120, 400), 3)],
    "C24": [http("front", (110, 70), (400, 120), 4),
            Histories("requests many", "http", "HttpTrace", httpgen.many_front, (1, 300), (6, 1500)),
            Histories("requests together", "http", "HttpTrace", httpgen.together, (30, 60), (150, 120), 4),
            Served("server processes", "http", "HttpTrace", httpgen.processes, (24, 40), (45, 120), 3)],
    "C20": [Invocations(cligen.invocations, 12000, 30000, 3)],
    "C21": [Model("PrimSelfTest"), Calls(libgen.ecbs, 9000, 40000, 4),
            Batches(pargen.only(*libgen.ECB_OPS, *libgen.SEQ_OPS), (40, 40), (200, 60), 3),
            Batches(pargen.long(*libgen.ECB_OPS, *libgen.SEQ_OPS), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, *libgen.ECB_OPS, *libgen.SEQ_OPS)],
    "C23": [Batches(pargen.batches, (500, 40), (900, 60), 4),
            Schedules(pargen.schedules, (400, 16, 250), (800, 20, 800), 4),
            Batches(pargen.long(*ALL_OPS), (1, 1000), (1, 6000)),
            Firsts(240, 3000)],
    "C22": [Calls(libgen.hexes, 6000, 40000, 4),
            Batches(pargen.only("hex.enc", "hex.dec", "ksn.tcdes", "ksn.tcaes"), (40, 40), (200, 60), 3),
            Batches(pargen.long("hex.enc", "hex.dec", "ksn.tcdes", "ksn.tcaes"), (1, ROUNDS), (2, 3 * ROUNDS)),
            Firsts(96, 1200, "hex.enc", "hex.dec", "ksn.tcdes", "ksn.tcaes")],
    "C26": [Histories("histories stores", "svc", "ServiceTrace", svcgen.stores, (120, 60), (400, 120), 4),
            Histories("crowds", "svc", "ServiceTrace", svcgen.crowd, (3, 1300), (8, 2500)),
            Histories("names that are nearly keys", "svc", "ServiceTrace", svcgen.lookalikes, (30, 90), (300, 120), 2),
            Rested("stores with pauses", "svc", "ServiceTrace", svcgen.idle_stores, (40, 60), (300, 120), 2),
            Concurrent(concgen.store_schedules, (40, 400), (150, 4000), 4, controlled=True, parts=7),
            Concurrent(concgen.stores, (40, 120), (240, 600), 3)],
    "C27": [Histories("histories failures", "svc", "ServiceTrace", svcgen.failures, (120, 60), (400, 120), 4),
            Rested("failures with pauses", "svc", "ServiceTrace", svcgen.idle_failures, (40, 60), (300, 120), 2),
            Histories("requests failures", "http", "HttpTrace", httpgen.failures, (60, 60), (300, 120), 4)],
    "C28": [Lives("server lives", "proc", "ProcTrace", procgen.lives, (80,), (400,), 4), Model("ProcessModel"),
            LivesOfModel("lives of the model", "proc", "ProcTrace", None, (24, 24, 60), (999, 999, 1500))],
    "C29": [Model("KnownAnswers"), Fills(1, 8)],
    "C30": [Lives("stalled connections", "proc", "ProcTrace", procgen.stalls, (6,), (48,), 1), Model("ConnModel", thorough="ConnModelDeep"),
            MustFail("ConnModel", "ConnNoRead", "AllFine"), MustFail("ConnModel", "ConnNoIdle", "AllFine"),
            MustFail("ConnModel", "ConnNoWrite", "AllFine"), MustFail("ConnModel", "ConnNone", "AllFine")],
    "C25": [Unified(unigen.unified, 8000, 40000, 4), Unified(unigen.narrow, 3000, 20000, 4), Unified(unigen.names, 9999, 9999, 10)],
}
