#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.

Compiles claxon's current sources to MIR, runs the analyser (flacai) over the property's
roots, and reports obligations which fail for some input. Exit 0: nothing fails; 1: a
violation; 2: nothing could be analysed."""
import json, os, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CLAXON_REPO", "/repo")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    conf = json.load(open(os.path.join(HERE, "props.json")))[pid]
    roots = list(conf["roots"]) + (conf.get("thorough_roots", []) if tier == "thorough" else [])
    exe = os.path.join(HERE, "build", "flacai")
    if not os.path.exists(exe):
        r = sh([os.path.join(HERE, "build.sh")])
        if r.returncode:
            print("cannot build the analyser:\n" + r.stderr[-2000:])
            return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="flacai-")
    try:
        return run(pid, tier, seed, t0, conf, roots, exe, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, t0, conf, roots, exe, tmp):
    sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    mir = ["-Zmir-opt-level=0", "-C", "debug-assertions", "-C", "overflow-checks", "-A", "warnings"]
    r = sh(["rustc", "+nightly", "--crate-name", "claxon", "--edition=2015", "-Zalways-encode-mir", "--crate-type", "rlib",
            os.path.join(REPO, "src/lib.rs"), "--out-dir", tmp] + mir, cwd=tmp)
    if r.returncode:
        print("claxon does not compile:\n" + r.stderr[-2000:])
        return 2
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    limit = conf.get("secs", 420) if tier == "quick" else conf.get("thorough_secs", 1600)
    total = 820 if tier == "quick" else 3400
    base = ["--crate-name", "h", "--crate-type", "lib", "--edition", "2015", "--extern", "claxon=" + tmp + "/libclaxon.rlib",
            "--sysroot", sysroot] + mir + [os.path.join(HERE, "harness", "h.rs")]

    own = ["--crate-name", "claxon", "--crate-type", "rlib", "--edition", "2015", "--sysroot", sysroot, "-Zub-checks=no"] + mir + [os.path.join(REPO, "src/lib.rs")]

    known = []
    for l in open(os.path.join(HERE, "known-findings.txt")):
        if l.startswith("finding:"):
            known.append(json.loads(l[len("finding:"):]))

    def is_known(v):
        return any(f["property"] == pid and f["func"] == v["func"] and f["msg"] == v["msg"] for f in known)

    found = []

    def one(i):
        if found:
            return roots[i], None, "stopped after a violation elsewhere"
        root = roots[i]
        e = dict(env)
        # the whole check must answer within its 900 s
        secs = min(limit, int(total - (time.time() - t0)))
        if secs < 5:
            return root, None, "no time left"
        e["FLACAI_SECS"] = str(secs)
        out = os.path.join(tmp, "out%d.json" % i)
        e["FLACAI_OUT"] = out
        e.update(conf.get("env", {}))
        err = os.path.join(tmp, "err%d" % i)
        with open(err, "w") as f:
            p = subprocess.Popen([exe, root] + (own if root == "@effects" else base), env=e, cwd=tmp, stdout=f, stderr=f)
            end = time.time() + secs + 25
            while p.poll() is None:
                time.sleep(0.02)
                now = time.time()
                # once there is a violation to report, the other roots need not finish
                if now > end or found and now > found[0] + 20:
                    p.kill()
                    p.wait()
                    return late(root, out, "timed out" if now > end else "stopped after a violation elsewhere")
        if os.path.exists(out):
            j = json.load(open(out))
            if any(v["confirmed"] and not is_known(v) for v in j["events"]):
                found.append(time.time())
            return root, j, open(err, errors="replace").read()
        return late(root, out, open(err, errors="replace").read()[-1500:])

    def late(root, out, msg):
        # a failure confirmed before the analysis stopped
        if not os.path.exists(out + ".event"):
            return root, None, msg
        j = {k: 0 for k in ["calls", "statements", "obligations", "checks", "splits"]}
        j.update({k: [] for k in ["functions", "loops", "summarised", "roots"]})
        j.update({"checks_by": {}, "inconclusive": [msg], "roots": [{"root": root}]})
        j["events"] = [json.load(open(out + ".event"))]
        return root, j, msg

    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, range(len(roots))))

    events, unconfirmed, notes = {}, {}, []
    tot = {k: 0 for k in ["calls", "statements", "obligations", "checks", "splits"]}
    funcs, loops, summ, by, per = set(), set(), set(), {}, []
    for root, j, err in res:
        if j is None:
            notes.append("%s: not analysed: %s" % (root, err.strip()[-600:]))
            continue
        if not j["roots"]:
            notes.append("%s: no such root" % root)
        for k in tot:
            tot[k] += j[k]
        funcs.update(j["functions"])
        loops.update(j["loops"])
        summ.update(j["summarised"])
        per += j["roots"]
        for k, v in j["checks_by"].items():
            by[k] = by.get(k, 0) + v
        notes += ["%s: %s" % (root, x[:400]) for x in j["inconclusive"]]
        for ev in j["events"]:
            key = (ev["kind"], ev["func"].split("::<")[0] if False else ev["func"], ev["msg"])
            (events if ev["confirmed"] else unconfirmed).setdefault(key, ev)
    # a failure without a concrete input is not evidence
    for k, ev in unconfirmed.items():
        if k not in events:
            notes.append("%s in %s (line %s): %s: the abstract counterexample has no known concrete input" % (ev["kind"], ev["func"], ev["line"], ev["msg"]))
    viol = []
    for (kind, func, msg), ev in sorted(events.items()):
        k = [f for f in known if f["property"] == pid and f["func"] == func and f["msg"] == msg]
        if k:
            print("KNOWN-FINDING: property=%s %s in %s" % (pid, msg, func))
        else:
            viol.append(ev)
    floor = conf.get("floor", {})
    low = ["%s: %d, on the reference tree %d" % (k, tot[k], v) for k, v in floor.items() if tot.get(k, 0) * 3 < v]
    if low:
        notes.append("less was analysed than on the reference tree: " + "; ".join(low))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": conf["explanation"],
            "rule": conf["rule"],
            "roots": per,
            "functions_of_claxon_analysed": sorted(funcs),
            "call_sites_evaluated": tot["calls"],
            "statements_evaluated": tot["statements"],
            "obligations": tot["obligations"],
            "checks_against_specification": tot["checks"],
            "checks_by_rule": by,
            "case_distinctions": tot["splits"],
            "loops_analysed": sorted(loops),
            "loops_summarised": sorted(summ),
            "inconclusive": notes,
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes[:12]:
        print("INCONCLUSIVE: " + n)
    print("%s: %d functions of claxon, %d call sites, %d obligations, %d checks against the specification, %.1f s" % (
        pid, len(funcs), tot["calls"], tot["obligations"], tot["checks"], time.time() - t0))
    if viol:
        for i, v in enumerate(viol):
            rp = os.path.join(HERE, "evidence", "%s.violation%d.json" % (pid, i))
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print("%s in %s, line %s: %s" % (v["kind"], v["func"], v["line"], v["msg"]))
            if v["witness"]:
                print("    for " + ", ".join(v["witness"])[:600])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if tot["checks"] + (tot["obligations"] if conf.get("obligations_only") else 0) == 0:
        print("nothing could be analysed")
        return 2
    return 0


sys.exit(main())
