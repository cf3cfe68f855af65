#!/usr/bin/env python3
"""Developer helper: plant bugs from specs on stdin (python: list S of dicts id, property, needs, breaks, edits=[(file, old, new)], demo) and report
whether each compiles, passes the stable tests, is shown by its demo, and is caught. With ids as arguments: re-test existing seeds."""
import sys, os, json, subprocess
R = "/repo"; SD = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/target/vp/pymod exec /opt/vp/venv/bin/python "$d/demo.py"\n'
def clean(): sh("git -C /repo checkout -- .")
def tests():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: return "BUILD FAILED " + r.stdout[-1500:]
    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; p = set(json.load(open("/tmp/seed_out.json"))["passed"])
    m = [x for x in b if x not in p]; return "TESTS FAIL %d %s" % (len(m), m[:3]) if m else ""
def test(i, check=True):
    d = os.path.join(SD, i); m = json.load(open(d + "/meta.json"))
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(i, "DOES NOT APPLY", r.stdout); return False
    try:
        t = tests()
        if t: print(i, t); return False
        dm = sh("bash %s/demo.sh" % d, cwd=R)
        if dm.returncode == 0: print(i, "demo does not fail"); return False
        print(i, "demo:", dm.stdout.strip().split("\n")[-1][:150])
        if check:
            c = sh("python3 /verif/bin/check.py %s" % m["property"], cwd="/verif"); v = [l for l in c.stdout.split("\n") if "counterexample" in l or "INCONC" in l or "UNCONF" in l]
            print(i, m["property"], "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode, v[:2], c.stdout.strip().split("\n")[-1])
        return True
    finally: clean()
assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "repo dirty"
ids = [a for a in sys.argv[1:] if a[0] != "-"]
if not ids:
    g = {}; exec(sys.stdin.read(), g)
    sh("bash /opt/vp/build.sh")
    for s in g["S"]:
        d = os.path.join(SD, s["id"]); os.makedirs(d, exist_ok=True)
        for f, o, n in s["edits"]:
            p = os.path.join(R, f); t = open(p).read()
            if t.count(o) != 1: print(s["id"], "edit matches", t.count(o)); clean(); break
            open(p, "w").write(t.replace(o, n))
        else:
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout); clean()
            open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755); open(d + "/demo.py", "w").write("import rumpy as np\n" + s["demo"].strip() + "\n")
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            dm = sh("bash %s/demo.sh" % d, cwd=R)
            if dm.returncode: print(s["id"], "DEMO FAILS ON CLEAN TREE", dm.stdout[-400:]); sh("rm -rf /verif/seeded/" + s["id"]); continue
            ids.append(s["id"])
keep = [i for i in ids if test(i, "-n" not in sys.argv)]
bad = [i for i in ids if i not in keep]
for i in bad: print("removing", i); sh("rm -rf /verif/seeded/" + i) if "-k" not in sys.argv else None
