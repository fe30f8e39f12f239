#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--case LIST] [-v]
Decides one property: encodes /repo's current code (LLVM IR), explores it symbolically with ipsym + z3,
replays counterexamples natively, rewrites evidence/<id>.json.  exit 0 holds, 1 violation, 2 no answer."""
import os, sys, json, time, subprocess, shutil, tempfile, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import V, B
from concurrent.futures import ThreadPoolExecutor
def parse_cases(lst, dflt):
    out = []
    for s in lst:
        mode, mt, rng = dflt["mode"], dflt["max_time"], s
        for tok in str(s).split(":")[:-1]:
            if tok in ("real", "fp"): mode = tok
            elif tok.startswith("t"): mt = float(tok[1:])
        rng = str(s).split(":")[-1]
        if "-" in rng: a, b = rng.split("-"); r = range(int(a), int(b) + 1)
        else: r = [int(rng)]
        out += [(c, mode, mt) for c in r]
    return out
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--case"); ap.add_argument("-v", action="store_true"); ap.add_argument("--trace", action="store_true"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args(); t0 = time.time(); pid = a.prop
    h = os.path.join(V, "harness", pid + ".cpp"); sp = vlib.spec(h)
    groups = tuple(["core"] + sp.get("groups", []))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    dflt = {"mode": sp.get("mode", "real"), "max_time": sp.get("max_time", 100 if tier == "quick" else 1500)}
    cs = parse_cases([a.case] if a.case else sp.get(tier, sp["quick"]), dflt)
    bc, errs = vlib.link_harness(h, groups)
    if errs:
        for s, e in errs: print("BUILD ERROR", s, "\n", e)
        sys.exit(2)
    tb = time.time() - t0
    W = tempfile.mkdtemp(prefix="ipsym."); res = {}
    def run(c):
        n, mode, mt = c; out = os.path.join(W, "%d.%s.json" % (n, mode))
        cmd = [vlib.IPSYM, "--case=%d" % n, "--mode=" + mode, "--out=" + out, "--ce=" + W, "--tag=%s.%s" % (pid, mode), "--max-time=%g" % mt] + sp.get("flags", []) + (["-v"] if a.v else []) + (["--trace"] if a.trace else []) + [bc]
        try:
            p = subprocess.run(["bash", "-c", "ulimit -v 8000000; exec \"$@\"", "_"] + cmd, stdout=subprocess.PIPE, stderr=None if a.v else subprocess.STDOUT, text=True, timeout=mt + 120)
            rc, log = p.returncode, p.stdout or ""
        except subprocess.TimeoutExpired: rc, log = 2, "hard timeout"
        try: j = json.load(open(out))
        except Exception: j = None
        return c, rc, log, j
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for c, rc, log, j in ex.map(run, cs):
            res[c] = (rc, log, j)
            if a.v or rc not in (0,): print("case %s: rc %d\n%s" % (c, rc, log[-3000:]))
    kf = []
    kfp = os.path.join(V, "known_findings.txt")
    if os.path.exists(kfp):
        for l in open(kfp):
            l = l.strip()
            if l.startswith("{"):
                e = json.loads(l)
                if e.get("property") == pid and e.get("status") == "known": kf.append(e)
    tot = dict(paths=0, instructions=0, forks=0, queries=0, q_sat=0, q_unsat=0, q_unknown=0, checks_symbolic=0, checks_concrete=0, solver_s=0.0, assumed_away=0)
    labels, reach, stubs, funcs, notes, samples = {}, {}, {}, set(), [], []
    viol = []
    for c, (rc, log, j) in res.items():
        if j is None: notes.append("case %s: no output (rc %d) %s" % (c, rc, log[-300:])); continue
        for k in tot: tot[k] += j.get(k, 0)
        for l, s in j["labels"].items():
            d = labels.setdefault(l, dict(symbolic=0, concrete=0, fail=0, unknown=0))
            for k in d: d[k] += s[k]
        for l, n in j["reach"].items(): reach[l] = reach.get(l, 0) + n
        for l, n in j["stubs"].items(): stubs[l] = stubs.get(l, 0) + n
        funcs.update(j["functions"]); notes += ["case %d %s: %s" % (c[0], c[1], n) for n in j["notes"]]
        if not j.get("complete", True) or j.get("stop"):
            if not j["violations"]: notes.append("case %d %s: exploration stopped: %s" % (c[0], c[1], j.get("stop")))
        if len(samples) < 4 and j["samples"]: samples.append("case %d: %s" % (c[0], j["samples"][0]))
        for v in j["violations"]: viol.append((c, v))
    status = 0; reported = 0; known = set(); lines = []; unrepro = []
    if viol:
        exe, errs = vlib.native(h, groups)
        if errs:
            for s, e in errs: print("NATIVE BUILD ERROR", s, e)
            status = 2
        else:
            rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
            for i, (c, v) in enumerate(viol):
                m = [e for e in kf if e["label"] == v["label"] and ("case" not in e or c[0] in e["case"])]
                ce = os.path.join(rdir, "%s.%d.%s.%d.ce" % (pid, c[0], c[1], i)); shutil.copy(v["file"], ce)
                try:
                    p = subprocess.run([exe], env=dict(os.environ, SYM_CE=ce, ASAN_OPTIONS="exitcode=77:detect_leaks=0:detect_odr_violation=0:alloc_dealloc_mismatch=1:allocator_may_return_null=1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=90, cwd=W)
                    rc, log = p.returncode, p.stdout
                except subprocess.TimeoutExpired: rc, log = 99, "replay timed out (does not terminate)"
                repro = rc in (1, 77, 99) or rc < 0
                if repro and m: known.add((m[0]["id"], m[0]["what"])); continue
                if repro:
                    reported += 1
                    if reported <= 5:
                        lines.append("violated: %s [%s] %s (case %d)" % (v["label"], v["kind"], v["msg"], c[0]))
                        lines.append("  replay: SYM_CE=%s %s -> rc %d: %s" % (ce, exe, rc, " | ".join(l for l in log.splitlines() if "FAILED" in l or "ERROR" in l or "terminate" in l)[:300]))
                        lines.append("VIOLATION property=%s replay=%s" % (pid, ce))
                else: unrepro.append("%s case %d (%s) replay rc %d at %s; %s" % (v["label"], c[0], v["msg"], rc, v["where"][:300], log[-300:]))
    if not a.case:
        if reported == 0:
            for l in sp.get("reach", []):
                if l not in reach: notes.append("vacuity: never reached '%s'" % l)
            for l in sp.get("require", []):
                if l not in labels: notes.append("vacuity: label '%s' never checked" % l)
    if not a.keep: shutil.rmtree(W, ignore_errors=True)
    if unrepro: notes += ["counterexample did not reproduce natively: " + u for u in unrepro]
    unknown = [l for l, d in labels.items() if d["unknown"]]
    if reported: status = 1
    elif notes or unknown: status = 2
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": sp.get("level", "model_checking"), "wall_s": round(wall, 2), "violations": reported,
          "assumptions": sp.get("assumptions", []) + ["outside the claim: " + x for x in sp.get("outside", [])],
          "coverage": {
              "explanation": "symbolic execution of the LLVM IR compiled from /repo's current sources; every assertion decided by z3 over all values of the symbolic inputs on each path, within the bounds",
              "technique": "KLEE-style symbolic execution (ipsym) + z3 5.3.2", "numeric_modes": sorted(set(c[1] for c in res)),
              "bounds": sp.get("bounds", []), "cases": len(res),
              "states": tot["paths"] + tot["forks"], "transitions": tot["instructions"], "traces_validated_against_impl": len(viol), "paths": tot["paths"], "paths_cut_by_assumption": tot["assumed_away"],
              "obligations": tot["checks_symbolic"] + tot["checks_concrete"], "discharged": tot["checks_symbolic"] + tot["checks_concrete"] - sum(d["fail"] + d["unknown"] for d in labels.values()),
              "decided_by_solver": tot["checks_symbolic"], "constant_on_path": tot["checks_concrete"],
              "queries": tot["queries"], "queries_sat": tot["q_sat"], "queries_unsat": tot["q_unsat"], "queries_unknown": tot["q_unknown"], "solver_s": round(tot["solver_s"], 2), "build_s": round(tb, 2),
              "exhaustive": status == 0, "assertions": {l: d["symbolic"] + d["concrete"] for l, d in sorted(labels.items())}, "reach_witnesses": reach, "environment_stubs": stubs,
              "samples": samples or ["(all inputs of this harness are concrete)"], "functions_encoded_count": len(funcs), "functions_encoded": sorted(funcs)[:250], "inconclusive": notes[:20]}}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and ev["coverage"]["functions_encoded"]:
        ev["coverage"]["functions_encoded"] = ev["coverage"]["functions_encoded"][:len(ev["coverage"]["functions_encoded"]) * 2 // 3]; txt = json.dumps(ev, indent=1)
    if not a.case: open(os.path.join(V, "evidence", pid + ".json"), "w").write(txt + "\n")
    for n in notes[:20]: print("NOTE", n[:1500])
    for l in lines: print(l)
    for k, w in sorted(known): print("KNOWN-FINDING: property=%s %s" % (pid, w))
    print("%s %s: cases %d paths %d checks %d (solver %d) queries %d solver %.1fs wall %.1fs -> %s" % (pid, tier, len(res), tot["paths"], tot["checks_symbolic"] + tot["checks_concrete"], tot["checks_symbolic"], tot["queries"], tot["solver_s"], wall, {0: "HOLDS within bounds", 1: "VIOLATED", 2: "NO ANSWER"}[status]))
    if a.v: print(json.dumps(labels, indent=0)); print(reach)
    sys.exit(status)
main()
