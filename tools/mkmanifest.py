#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23".split()
NA = {
    "C24": "The log level and filter decision is a pure function of one record and the configuration: no concurrency, time, I/O order or second party takes part in it, so there is no schedule or fault for a simulation to search.",
    "C25": "Getch changes the settings of a real terminal through ioctl on a file descriptor; it is a straight line of two system calls with one caller. Nothing in it depends on scheduling, time or a peer, and a simulated terminal would only test the stub.",
}
PENDING = "No check is built for this property yet."
note = ("Seeded search over simulated executions of the instrumented working tree: no execution explored broke the property. "
        "Not exhaustive. Assumes statement-granular, sequentially consistent interleavings and the simulator's models of "
        "goroutines, channels, sync, timers and UDP (see DESIGN.md); RSA keys come from a fixed pool.")
extra = {"C22": "C22 runs the same simulation with the code under test built with Go's race detector, whose happens-before edges are those of the library's own synchronisation only (the simulator's hand-overs are hidden from it)."}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": "deterministic simulation with fault injection (seeded search over schedules and fault sequences, history oracle)",
                       "level": "exploration", "level_note": note + (" " + extra[i] if i in extra else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: check.sh instruments a copy of the working tree under .build/ (source rewriting) and builds the simulator with it."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
