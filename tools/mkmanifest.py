#!/usr/bin/env python3
"""Write MANIFEST.json from props.py and the not-applicable list."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "hooks": {
        "guard": "EXSEISDAT_SIMULATION",
        "enable": "tools/build.py compiles /repo's sources with -DEXSEISDAT_SIMULATION and links exseisdat_simulation_limit() from drv/hooks.cc",
        "source_commits": hooks[::-1],
    },
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(HERE), "properties.jsonl"))]
for p in ids:  # pending
    if p not in PROPS and p not in NOT_APPLICABLE:
        m["not_applicable"].append({"property": p, "reason": "no scenario has been built for it yet"})
for p in sorted(PROPS):
    c = PROPS[p]
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 tools/check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real library on a simulated MPI",
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Samples schedules, faults and workloads; a clean batch is evidence, not proof. " + c["rule"]),
    })
with open(os.path.join(os.path.dirname(HERE), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
