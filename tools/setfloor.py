#!/usr/bin/env python3
"""setfloor.py ID...: floors from the evidence of the last run on the reference tree."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = H + "/props.json"
props = json.load(open(P))
for i in sys.argv[1:]:
    c = json.load(open(H + "/evidence/%s.json" % i))["coverage"]
    props[i]["floor"] = {"obligations": c["obligations"], "checks": c["checks_against_specification"]}
    print(i, props[i]["floor"], "inconclusive", len(c["inconclusive"]))
json.dump(props, open(P, "w"), indent=1)
