#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   decide a property on /repo's working tree
check.py --setup                                          check that the tools are there and everything builds
check.py --replay FILE                                    run what a replay file recorded again
check.py --list                                           the properties and their stages"""
import collections
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import engine                                   # noqa: E402
from engine import Broken, Engine, Violation    # noqa: E402
import plan                                     # noqa: E402

VERIF = engine.VERIF


def known_findings():
    out = []
    f = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            if l.strip():
                out.append(json.loads(l))
    return out


def save_replay(prop, v, n):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{n}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "stage": v.stage, "what": v.what, "detail": v.detail, "replay": v.replay}, f)
        f.write("\n")
    return p


def decide(prop, tier, seed):
    t0 = time.time()
    ctx = plan.Context(prop, tier, seed, Engine())
    try:
        ctx.eng.build()
        for stage in plan.PLANS[prop]:
            t1 = time.time()
            stage.run(ctx)
            ctx.note(stage, time.time() - t1)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.eng.close()
    shown = set()
    for k in known_findings():
        if k.get("status") == "open" and k["property"] == prop:
            n = ctx.gaps.get(k["id"], 0)
            print(f"KNOWN-FINDING: property={prop} {k['what']} (id {k['id']}, met {n} times in this run)")
            shown.add(k["id"])
    for g in ctx.gaps:
        if g not in {k["id"] for k in known_findings() if k.get("status") == "open"}:
            raise Broken(f"gap {g} is not in known-findings.jsonl")
    evidence(ctx, time.time() - t0)
    if ctx.violations:
        for i, v in enumerate(ctx.violations[:6]):
            p = save_replay(prop, v, i + 1)
            print(f"[{v.stage}] {v.what}: {json.dumps(engine.readable(v.detail))[:1500]}")
            if i == 0:
                first = p
        print(f"{len(ctx.violations)} mismatch(es)")
        print(f"VIOLATION property={prop} replay={first}")
        return 1
    print(f"{prop}: held on {ctx.traces} recorded traces ({ctx.calls} calls); TLC: {ctx.eng.runs} runs, "
          f"{ctx.eng.states} states; {time.time() - t0:.0f} s")
    return 0


def short(x):
    """x with long texts and lists cut"""
    if isinstance(x, str) and len(x) > 300:
        return x[:200] + f"... ({len(x)} characters)"
    if isinstance(x, list) and len(x) > 40:
        return [short(y) for y in x[:30]] + [f"... ({len(x)} in all)"]
    if isinstance(x, list):
        return [short(y) for y in x]
    if isinstance(x, dict):
        return {k: short(v) for k, v in x.items()}
    return x


def evidence(ctx, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "states": ctx.eng.states,
        "transitions": ctx.eng.transitions,
        "traces_validated_against_impl": ctx.traces,
        "calls_checked": ctx.calls,
        "operations": dict(sorted(ctx.ops.items())),
        "endings": dict(sorted(ctx.ends.items())),
        "stages": ctx.stages,
        "samples": [short(x) for x in ctx.samples[:12]],
    }
    cov.update(ctx.extra)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
                   "assumptions": plan.ASSUMPTIONS + plan.EXTRA_ASSUMPTIONS.get(ctx.prop, []),
                   "wall_s": round(wall, 1), "violations": len(ctx.violations)}, f, indent=1)
        f.write("\n")


def setup():
    e = Engine()
    try:
        e.build()
        out = e.tlc("KnownAnswers")
        print("setup: the driver builds and the specification gives the published answers")
    finally:
        e.close()
    return 0


def replay(file):
    r = json.load(open(file))
    ctx = plan.Context(r["property"], "quick", 1, Engine())
    try:
        ctx.eng.build()
        stage = next(s for s in plan.PLANS[r["property"]] if s.name == r["stage"])
        stage.replay(ctx, r["replay"])
    finally:
        ctx.eng.close()
    for v in ctx.violations:
        print(f"[{v.stage}] {v.what}: {json.dumps(engine.readable(v.detail))[:3000]}")
    print("the violation shows again" if ctx.violations else "no violation")
    return 1 if ctx.violations else 0


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        return setup()
    if args[:1] == ["--replay"]:
        return replay(args[1])
    if args[:1] == ["--list"]:
        for p, st in plan.PLANS.items():
            print(p, ", ".join(s.name for s in st))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.pop(0)
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        else:
            print(__doc__)
            return 2
    return decide(prop, tier, seed)


if __name__ == "__main__":
    try:
        code = main()
    except Broken as e:
        print("ERROR (no verdict):", e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
