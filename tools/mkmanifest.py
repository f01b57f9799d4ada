#!/usr/bin/env python3
"""Writes MANIFEST.json from props.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(H + "/props.json"))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
na = json.load(open(H + "/tools/not_applicable.json"))
checks = []
for i in ids:
    if i not in props:
        continue
    p = props[i]
    checks.append({
        "property": i,
        "quick_cmd": "./check.py %s" % i,
        "thorough_cmd": "./check.py %s --thorough" % i,
        "technique": p["technique"],
        "level": "other",
        "level_note": p["level_note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": na.get(i, "not yet covered by a check")} for i in ids if i not in props],
    "notes": "All checks are static: flacai, an abstract interpreter over rustc's MIR written for this repository (flacai/), analyses claxon's current sources together with specification roots (harness/). No hooks in /repo are needed.",
}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
