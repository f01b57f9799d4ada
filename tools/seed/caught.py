#!/usr/bin/env python3
"""caught.py [ID...]: which planted changes their property's check reports (on copies of /repo)."""
import sys, os, json, shutil, subprocess
H = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ids = sys.argv[1:] or sorted(os.listdir(H + "/seeded"))
for i in ids:
    d = "%s/seeded/%s" % (H, i)
    m = json.load(open(d + "/meta.json"))
    w = "/tmp/caught." + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call(["cp", "-r", "/repo/src", w + "/src"])
    subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + w, d + "/patch.diff"], cwd="/")
    r = subprocess.run(["python3", H + "/check.py", m["property"]], env=dict(os.environ, CLAXON_REPO=w), stdout=subprocess.PIPE, universal_newlines=True)
    v = [l for l in r.stdout.split("\n") if " line " in l]
    print("%-24s %s exit %d %s %s" % (i, m["property"], r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", v[0][:120] if v else r.stdout[-200:]))
    shutil.rmtree(w)
