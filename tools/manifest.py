#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of built checks."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
TECH = {
 "C01": "stateless model checking of the real code under a controlled rayon scheduler: every steal, split and bounded-preemption interleaving enumerated by DFS",
 "C14": "exhaustive enumeration of operation histories (union/root/find) executed on the real forest, compared with a partition model",
}
DEF = "bounded exhaustive enumeration (explicit-state DFS over every choice of input, shape, parameter and operation) executing the real code and comparing each execution with an independent reference"
NA = {"C43": "Needs a display server and the SDL2 event loop; neither can run in this sandbox."}
checks, na = [], []
for p in props:
    i = p["id"]
    b = f"{root}/mc/src/bin/{i.lower()}.rs"
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(b):
        secs = re.findall(r'r\.section\(\s*"([^"]+)"', open(b).read())
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": TECH.get(i, DEF),
            "level": "model_checking",
            "level_note": f"complete within the bounds listed per section in the evidence ({', '.join(secs)}); the executions are of the real code, so no model has to be bound to it; see DESIGN.md",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
