#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from meta/props.py (developer helper)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "meta")); sys.dont_write_bytecode = True
import props
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3 bin/check.py " + p["id"], thorough_cmd="python3 bin/check.py %s --thorough" % p["id"],
    technique="symbolic execution of the LLVM IR rustc emits for /repo's sources (Python entry points included), assertions decided by Z3 (bit-vector/floating-point SMT); counterexamples and sampled paths replayed on the native build",
    level="model_checking", level_note=p["bounds"]) for p in props.P if not p.get("na")]
m = dict(version=1, setup_cmd="python3 bin/vx.py t_smoke", hooks=dict(guard="none", enable="no hooks: the checks compile /repo's unmodified sources against a model of the pyo3 crate", source_commits=[]), checks=checks,
    not_applicable=[dict(property=p["id"], reason=p["na"]) for p in props.P if p.get("na")])
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
for p in props.P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], "sentences")
print(len(props.P), "properties,", len(checks), "claimed")
