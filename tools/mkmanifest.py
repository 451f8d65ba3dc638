#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
CLAIMED = open(here + "/tools/claimed.txt").read().split()
NA = {
 "C21": "A pure function of one message value: no scheduling, clock, I/O, fault or second party for a simulation to vary.",
 "C22": "Pure formatting and parsing of a value: nothing nondeterministic for a simulation to vary.",
 "C23": "Bucketer construction is a pure function of its arguments and the result is immutable: no schedule, clock or fault can influence it.",
 "C24": "Pure functions from a Go type to a descriptor: nothing nondeterministic for a simulation to vary.",
}
note = ("Seeded search over schedules, client behaviour and faults against the real library code in one process; every run is a pure function of its seed "
        "and every reported violation is minimised and replayed exactly in a fresh process before it is reported. A clean batch is evidence, not proof. "
        "Trusts the instrumenter, the simulated sync/channel/clock semantics and the oracles.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection (seeded scheduler over instrumented code, history oracles)",
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks instrument a throw-away copy of its working tree (see DESIGN.md). replay.sh FILE replays a recorded violation."}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
