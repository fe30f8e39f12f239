#!/usr/bin/env python3
"""Generates DESIGN.md."""
import os, sys, json, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import vlib
V = vlib.V; sys.path.insert(0, os.path.join(V, "meta")); import props
na = dict(props.NA); rd = lambda f: open(os.path.join(V, "meta", f)).read(); o = [rd("design_head.md"), "## 4. Properties and how each is decided\n"]
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    if p["id"] in na: continue
    s = vlib.spec(os.path.join(V, "harness", p["id"] + ".cpp"))
    o.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    o.append("* *Code executed*: %s (and everything they call)." % "; ".join("%s: %s" % (a, b) for a, b in p["mech"]))
    o.append("* *Symbolic*: %s. *Oracle*: the harness' own computation from the documentation; `harness/%s.cpp`." % (p["qt"], p["id"]))
    o.append("* *Bounds*: %s." % "; ".join(s["bounds"]))
    if s.get("assumptions"): o.append("* *Assumes*: %s." % "; ".join(s["assumptions"]))
    if s.get("outside"): o.append("* *Outside*: %s." % "; ".join(s["outside"]))
    try: e = json.load(open(os.path.join(V, "evidence", p["id"] + ".json"))); 
    except Exception: e = {}
    o.append("* *Why tests cannot*: %s.\n" % p["why"])
o.append("## 5. Not applicable\n")
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    if p["id"] in na: o.append("* **%s %s.** %s" % (p["id"], p["title"], na[p["id"]]))
o.append("\n## 6. Defects found in the code, and planted bugs\n\nGenuine defects (repaired in /repo by the commits named, or listed as known findings):\n")
for l in open(os.path.join(V, "known_findings.txt")):
    l = l.strip()
    if l and not l.startswith("#"): o.append("* " + l)
o.append("\nPlanted bugs (`seeded/`), each with a demonstration. \"Missed at first\" means the check was strengthened because of it.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for k in sorted(seeds):
    for i, m in seeds[k]: o.append("| %s | %s | %s | %s | %s |" % (i, k, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught", "check of " + k)))
o.append(rd("design_tail.md")); open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
