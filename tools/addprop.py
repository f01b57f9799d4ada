#!/usr/bin/env python3
"""addprop.py ID: takes what to say from stdin (scope, rule, explanation, one per line), the roots from harness/."""
import json, os, re, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
scope, rule, expl = [l.strip() for l in sys.stdin.read().strip().split("\n") if l.strip()]
roots = []
for f in sorted(glob.glob(H + "/harness/*.rs")):
    roots += re.findall(r"fn root_(%s_\w*)\(" % pid.lower(), open(f).read())
P = H + "/props.json"
props = json.load(open(P))
old = props.get(pid, {})
props[pid] = dict(old)
props[pid].update({
    "roots": roots,
    "technique": "abstract interpretation of MIR: value numbering with bit-level and affine domains, trace partitioning",
    "level_note": "Decides the property on the MIR of the current sources for " + scope + " Alarms are only raised when the abstract counterexample has a concrete input satisfying every decision on its path. Trusted: the analyser's transfer functions (flacai), rustc's MIR, the specification roots (harness). Paths the analyser cannot follow are reported as inconclusive, not as violations.",
    "rule": rule,
    "explanation": expl,
})
json.dump(props, open(P, "w"), indent=1)
print(pid, roots)
