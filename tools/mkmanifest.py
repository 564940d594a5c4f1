#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plans in lib/plan.py and the notes below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import plan  # noqa: E402

NOTES = {
    "lib": ("TLA+ specification of the operation, TLC trace validation of recorded library calls",
            "every recorded call of the real library (generated by class: every length, key size, format and counter shape) "
            "has the answer the specification computes; says nothing about calls that were not generated"),
    "walk": ("TLA+ model of the terminal / KSN register checked exhaustively by TLC; recorded calls and walks of the real code validated against it",
             "the model is checked exhaustively for small registers; the code is compared with the same operators at full size on generated calls and walks"),
    "svc": ("TLA+ state machine of the service, model checked by TLC; recorded histories of the real service validated against it",
            "the model is exhaustive for small constants; every step of every recorded history is the specification's"),
    "conc": ("TLA+ linearizability check (TLC) of recorded concurrent histories; TLA+ model of the locking checked exhaustively",
             "the locking model is exhaustive for small constants; recorded schedules of the real code are all linearizable"),
    "par": ("TLA+ specification of the operations, TLC trace validation of library calls recorded under concurrency",
            "every answer given while other calls ran is the one the specification computes for that call alone"),
    "http": ("TLA+ state machine of the HTTP API over the service's, TLC trace validation of recorded request/response histories",
             "every response of every recorded history is one the specification allows"),
    "cli": ("TLA+ specification of the tool's decision table and operations, TLC trace validation of recorded invocations",
            "every recorded invocation of the built binary printed and exited as specified"),
    "proc": ("TLA+ specification of a server process's life, refined by a TLA+ model of its goroutines that TLC checks exhaustively; TLC trace validation of recorded lives of real processes",
             "the goroutine model is exhaustive for small constants; every event of every recorded life of the built binary is one the specification allows"),
    "conn": ("TLA+ specification of a connection in time (Connection), refined by a TLA+ model of the server's timers that TLC checks exhaustively (and finds wrong when a timer is taken away); TLC trace validation of recorded connections of real server processes",
             "the timer model is exhaustive for small constants; every event of every recorded connection happens when the specification allows it"),
    "fill": ("TLA+ specification of the fill of every PIN format and of what a long run of fills looks like, TLC trace validation of recorded runs of PIN encryptions",
             "every recorded run of PIN encryptions has fills of the specified places and digits, spread as specified; the demands on the spread are such that random fills meet them (they miss less than once in 10^9 runs)"),
}
KIND = {"C29": "fill", "C01": "walk", "C02": "walk", "C03": "walk", "C04": "walk", "C13": "svc", "C14": "svc", "C15": "svc", "C17": "svc", "C26": "svc", "C27": "svc",
        "C16": "conc", "C23": "par", "C18": "http", "C19": "http", "C24": "http", "C20": "cli", "C28": "proc", "C30": "conn"}
NOT_APPLICABLE = {}

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if i not in plan.PLANS:
        missing.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
        continue
    t, n = NOTES[KIND.get(i, "lib")]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking",
                   "level_note": n + "; trusts TLC, the Java block ciphers behind the specification's (compared with the TLA+ ones), the generators and the driver"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": missing,
     "notes": "No hooks in /repo: the driver is compiled into the module through a go build overlay and observes the public interfaces. "
              "Language: TLA+ with TLC. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
