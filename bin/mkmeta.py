#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from meta/props.py and the harness headers."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import vlib
V = vlib.V; sys.path.insert(0, os.path.join(V, "meta")); import props
na = dict(props.NA); checks = []; out = []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["title"]
    n = p["statement"].count(". ") + 1; assert n <= 3, (p["id"], n)
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qt"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    for f in p["files"]: assert os.path.exists(os.path.join(vlib.REPO, f)), f
    if p["id"] in na: continue
    sp = vlib.spec(os.path.join(V, "harness", p["id"] + ".cpp"))
    note = "Every assertion is decided by z3 on every feasible path of the executed LLVM IR. Bounds: " + "; ".join(sp["bounds"]) + ". Assumes: " + "; ".join(sp.get("assumptions", []) or ["nothing further"]) + "." + (" Outside: " + "; ".join(sp["outside"]) + "." if sp.get("outside") else "") + " Trusts: clang -O1, the executor ipsym and z3; counterexamples are replayed natively."
    checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": sp.get("technique", "symbolic execution of the LLVM IR of /repo's code (ipsym), assertions decided by z3"), "level": sp.get("level", "model_checking"), "level_note": note})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": r} for k, r in props.NA], "notes": "Solver-based checking: see DESIGN.md. No hooks in /repo; the harnesses use public and protected-free interfaces of the compiled sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(out), "properties", len(checks), "checks", len(na), "n/a")
