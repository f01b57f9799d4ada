#!/usr/bin/env python3
"""plant.py ID PROPERTY < spec: makes seeded/ID from a python spec on stdin:
edits=[(file, old, new[, n])], demo='''rust''', needs='', breaks='', flags=''. Confirms all claims in a scratch copy."""
import sys, os, json, shutil, subprocess, tempfile
H = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ident, prop = sys.argv[1:3]
s = {"flags": ""}
exec(sys.stdin.read(), s)
W = "/tmp/plant." + ident
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", W])
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
D = H + "/seeded/" + ident
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
shutil.copy(H + "/tools/seed/fk.rs", D)
open(D + "/demo.rs", "w").write("mod fk;\nuse fk::*;\nuse std::io::Cursor;\n" + s["demo"].lstrip())
open(D + "/demo.sh", "w").write(open(H + "/tools/seed/demo.sh").read().replace(" FLAGS", (" " + s["flags"]) if s["flags"] else ""))
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(D + "/meta.json", "w"), indent=1)
def bail(m, o=""):
    print(ident, "REJECTED:", m, o[-1500:])
    shutil.rmtree(D); shutil.rmtree(W)
    sys.exit(1)
r = sh("sh %s/demo.sh" % D, cwd=W)
if r.returncode: bail("demo fails on the unchanged tree", r.stdout)
for e in s["edits"]:
    f, o, n = e[:3]
    k = e[3] if len(e) > 3 else 0
    p = W + "/" + f
    t = open(p).read().split(o)
    if len(t) < 2: bail("not found: " + o)
    open(p, "w").write(o.join(t[:k + 1]) + n + o.join(t[k + 1:]))
open(D + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
r = sh("sh %s/demo.sh" % D, cwd=W)
if r.returncode in (0, 2): bail("demo does not fail with the patch: %d" % r.returncode, r.stdout)
out = r.stdout
# tests (in place of /repo, so with its own target directory)
r = sh(". /opt/vp/env.sh; export CARGO_TARGET_DIR=$PWD/target; cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 2>&1", cwd=W)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
names = set(b.split("::")[-1] for b in base)
bad = [l for l in r.stdout.split("\n") if l.startswith("test ") and l.endswith("FAILED") and l.split()[1].split("::")[-1] in names]
npass = len([l for l in r.stdout.split("\n") if l.startswith("test ") and l.endswith("ok")])
if bad or npass < len(base): bail("tests: %d ok" % npass, "\n".join(bad) or r.stdout)
shutil.rmtree(W)
print(ident, "planted;", "tests ok", npass, "; demo:", [l for l in out.strip().split("\n") if l][-3:])
