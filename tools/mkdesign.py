#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between markers) from props.json, properties.jsonl, seeded/ and tools/caught.txt."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(H + "/props.json"))
na = json.load(open(H + "/tools/not_applicable.json"))
cost = json.load(open(H + "/tools/cost.json")) if os.path.exists(H + "/tools/cost.json") else {}
out = []
for l in open(H + "/properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    out.append("### %s %s\n" % (i, d["title"]))
    if i in na:
        out.append("Not applicable. " + na[i] + "\n")
        continue
    p = props[i]
    m = re.search(r"on the MIR of the current sources for (.*?) ?\.? ?Alarms are only", p["level_note"], re.S)
    out.append("- *Decided:* " + p["rule"])
    if m:
        out.append("- *For:* " + m.group(1).strip().rstrip(".") + ".")
    out.append("- *How:* " + p["explanation"])
    why = json.load(open(H + "/tools/why.json")).get(i)
    if why:
        out.append("- *Beyond tests:* " + why)
    f = p.get("floor", {})
    c = "- *Roots:* %d" % len(p["roots"])
    if p.get("thorough_roots"):
        c += " (thorough: %d more)" % len(p["thorough_roots"])
    if i in cost:
        c += "; about %s s" % cost[i]
    out.append(c + ".\n")
seeds = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
by = {}
if os.path.exists(H + "/tools/caught.txt"):
    for l in open(H + "/tools/caught.txt"):
        w = l.split()
        if len(w) > 4:
            by[w[0]] = (w[1] if w[4] == "CAUGHT" else "missed")
for s in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, s)))
    seeds.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], by.get(s, "?")))
t = open(H + "/DESIGN.md").read()
for name, body in (("properties", "\n".join(out)), ("planted", "\n".join(seeds))):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    i, j = t.index(a), t.index(b)
    t = t[:i] + a + "\n" + body + "\n" + t[j:]
open(H + "/DESIGN.md", "w").write(t)
