#!/usr/bin/env python3
"""Decide one property: build, run every harness of the property in the symbolic executor, replay, report."""
import sys, os, json, time, subprocess, re, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
ROOT = vx.ROOT

def sh(cmd, timeout=120, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"

def known(prop):
    p = os.path.join(ROOT, "known-findings.jsonl"); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "open": out.append(d)
    return out

def run_harness(b, idx, tlimit, outdir):
    out = os.path.join(outdir, "%d.json" % idx)
    if os.path.exists(out): os.remove(out)
    rc, so, se = sh([b["engine"], b["ir"], "--pick", str(idx), "--time", str(tlimit), "--out", out, "--traces", "24"], timeout=tlimit + 150)
    try: d = json.load(open(out))
    except Exception: d = {"status": "inconclusive", "reason": "engine crashed rc=%d %s" % (rc, se[-300:]), "paths": 0, "queries": 0, "steps": 0, "solver_s": 0, "functions": [], "violations": [], "traces": [], "checks": {}, "covers": {}}
    d["name"] = b["names"][idx]; d["idx"] = idx
    return d

def validate_traces(b, d, outdir):
    tr = d.get("traces") or []
    if not tr: return 0, []
    f = os.path.join(outdir, "%d.in" % d["idx"]); open(f, "w").write("".join(t["input"] + "\n" for t in tr))
    rc, so, se = sh([b["exe"], str(d["idx"]), f], timeout=200)
    runs = so.split("RUN\n")[1:]; bad = []; n = 0
    for t, r in zip(tr, runs):
        obs = [int(x) for x in re.findall(r"^O (\d+)$", r, re.M)]
        m = re.search(r"^END (\d+)$", r, re.M); code = int(m.group(1)) if m else -1
        ok = obs == t["obs"] and (code == 0 or (code == 1006 and "ALLOW 1" in r))
        if ok: n += 1
        else: bad.append({"input": t["input"], "expected": t["obs"][:40], "got": obs[:40], "exit": code, "tail": r[-200:]})
    if len(runs) != len(tr): bad.append({"note": "native run incomplete", "rc": rc})
    return n, bad

def confirm(b, d, v):
    """Replay a counterexample against the natively compiled real code."""
    cmd = [b["exe"], str(d["idx"]), "-", v["input"]]
    if v["kind"] == "memory":
        rc, so, se = sh(["valgrind", "-q", "--error-exitcode=99", "--read-var-info=no"] + cmd, timeout=120)
        return (rc == 99 or rc < 0 or "Invalid" in se), "valgrind rc=%d %s" % (rc, se[:400])
    rc, so, se = sh(cmd, timeout=90)
    if v["kind"] == "check": return ("CHECK-FAILED" in so or rc < 0), "rc=%d %s" % (rc, so[-200:])
    if v["kind"] == "panic": return rc == -6 or rc == 134, "rc=%d %s" % (rc, se[-400:])
    return rc < 0, "rc=%d %s %s" % (rc, so[-200:], se[-200:])

def demangle(names):
    rc, so, se = sh(["c++filt"], input="\n".join(names))
    return so.split("\n") if rc == 0 else names

def main():
    prop = sys.argv[1]; tier = "thorough" if "--thorough" in sys.argv else "quick"
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]; verbose = "-v" in sys.argv
    t0 = time.time()
    group = "t_" + prop.lower()
    b = vx.build([group], tag=prop)
    tl = 1500 if tier == "thorough" else 240
    for a in sys.argv:
        if a.startswith("--time="): tl = float(a[7:])
    idxs = [i for i, n in enumerate(b["names"]) if (tier == "thorough" or not n.endswith("@t")) and (not only or any(o in n for o in only))]
    outdir = os.path.join(vx.BUILD, "run-" + prop); os.makedirs(outdir, exist_ok=True)
    found = []  # once a counterexample has been replayed, harnesses not yet started are skipped after 120 s
    def job(i):
        if found and time.time() - t0 > 120: return None
        d = run_harness(b, i, tl, outdir); d["validated"], d["mismatch"] = validate_traces(b, d, outdir)
        for v in d["violations"]:
            v["native"] = confirm(b, d, v)
            if v["native"][0] and not any(k["harness"] == d["name"] for k in kf): found.append(i); break
        return d
    kf = known(prop)
    with cf.ThreadPoolExecutor(8) as ex: res = [d for d in ex.map(job, idxs) if d]
    viol = []; kfound = {}; unconf = []; inconc = []
    rdir = os.path.join(vx.BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
    for d in res:
        if d["status"] == "inconclusive": inconc.append((d["name"], d["reason"]))
        if d["mismatch"]: inconc.append((d["name"], "trace mismatch: " + json.dumps(d["mismatch"][:2])))
        if d["status"] == "ok" and not d["checks"] and not d["paths"]: inconc.append((d["name"], "vacuous: nothing checked"))
        for v in d["violations"]:
            if len(viol) >= 40: break
            ok, how = v.get("native") or confirm(b, d, v)
            ent = dict(property=prop, harness=d["name"], index=d["idx"], kind=v["kind"], check=v["id"], msg=v["msg"], where=demangle([v["where"].replace(" < ", "\n")])[:6], input=v["input"], native=how, replay_cmd="%s %d - %s" % (b["exe"], d["idx"], v["input"]), rebuild="python3 /verif/bin/check.py %s --only=%s" % (prop, d["name"]))
            if not ok: unconf.append(ent); continue
            k = next((k for k in kf if k["harness"] == d["name"] and k["kind"] == v["kind"] and int(k.get("check", 0)) == v["id"] and (not k.get("msg") or k["msg"] in v["msg"])), None)
            if k: kfound[json.dumps(k, sort_keys=True)] = k; continue
            p = os.path.join(rdir, "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", d["name"]), len(viol))); json.dump(ent, open(p, "w"), indent=1); viol.append((p, ent))
    fns = set(); [fns.update(d.get("functions", [])) for d in res]
    dem = sorted(set(re.sub(r"^<?rumpy_sx(\[[0-9a-f]+\])?::", "", x) for x in demangle(sorted(fns)) if "rumpy_sx" in x and "::t_" not in x and "::sx::" not in x and "::util::" not in x))
    tot = lambda k: sum(d.get(k, 0) or 0 for d in res)
    samples = []
    for d in res:
        for t in (d.get("traces") or [])[:2]:
            samples.append({"harness": d["name"], "input": t["input"][:200], "observed": t["obs"][:12]})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(states=tot("forks") + len(res), transitions=tot("steps"), traces_validated_against_impl=tot("validated"), samples=samples[:24],
            technique="symbolic execution of rustc LLVM IR of /repo sources, Z3 verdicts",
            functions_encoded=dem, functions_encoded_count=len(dem), paths=tot("paths"), queries=tot("queries"), queries_unsat=tot("solver_unsat"), queries_sat=tot("solver_sat"),
            solver_s=round(tot("solver_s"), 3), assertions_decided_by_solver=tot("checks_solved"), assertions_decided_by_simplifier=tot("checks_trivial"),
            harnesses=[dict(name=d["name"], status=d["status"], reason=d.get("reason", ""), paths=d["paths"], steps=d["steps"], queries=d["queries"], solver_s=d["solver_s"], checks=d["checks"], covers=d["covers"], wall_s=d.get("wall_s"), allowed_panics=d.get("allowed_panics", {})) for d in res],
            exhaustive_within_bounds=not inconc, inconclusive=[list(x) for x in inconc], unconfirmed=unconf[:5], build_s=b["build_s"], violation_list=[dict(replay=p, **{k: e[k] for k in ("harness", "kind", "check", "msg")}) for p, e in viol]),
        wall_s=round(time.time() - t0, 2), assumptions=[
            "IR is produced from /repo's sources by rustc at opt-level 1 with overflow checks and debug assertions on; the semantics of that IR is what is decided",
            "bounds (shapes, lengths, value ranges) are those of the harnesses in /verif/harness/src/%s.rs and DESIGN.md" % group,
            "libm transcendental functions are uninterpreted when their argument is symbolic", "single-threaded execution; allocation never fails"],
        violations=len(viol))
    if only == []:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if verbose:
        for d in sorted(res, key=lambda d: -(d.get("wall_s") or 0)): print("  %-40s %-12s paths=%-6d steps=%-9d q=%-6d solver=%.1fs wall=%.1fs val=%d %s" % (d["name"], d["status"], d["paths"], d["steps"], d["queries"], d["solver_s"], d.get("wall_s") or 0, d["validated"], d.get("reason", "")))
    for k in kfound.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, r in inconc: print("INCONCLUSIVE harness=%s %s" % (n, r[:600]))
    for u in unconf: print("UNCONFIRMED harness=%s kind=%s check=%s %s native: %s\n   at %s" % (u["harness"], u["kind"], u["check"], u["msg"], u["native"][:300], u["where"]))
    for p, e in viol:
        print("counterexample harness=%s kind=%s check=%s %s\n   input=%s\n   at %s\n   native: %s" % (e["harness"], e["kind"], e["check"], e["msg"], e["input"][:160], e["where"], e["native"][:300].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    print("%s tier=%s harnesses=%d paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs violations=%d known=%d inconclusive=%d" % (prop, tier, len(res), ev["coverage"]["paths"], ev["coverage"]["queries"], ev["coverage"]["solver_s"], ev["coverage"]["traces_validated_against_impl"], time.time() - t0, len(viol), len(kfound), len(inconc)))
    if viol: sys.exit(1)
    bad = {n for n, _ in inconc} | {u["harness"] for u in unconf}
    if len(bad) >= len(res) or not res: sys.exit(2)
    sys.exit(0)
main()
