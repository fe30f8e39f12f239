#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines SEEDS = [(id, property, needs, breaks, [(file, old, new)], demo_cpp)]; writes /verif/seeded/<id>/"""
import sys, os, json, subprocess, shutil, runpy, tempfile
V = "/verif"; T = V + "/bin/seedtpl"; only = sys.argv[2:]
for id, prop, needs, breaks, edits, demo in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and id not in only: continue
    D = "%s/seeded/%s" % (V, id); os.makedirs(D, exist_ok=True)
    W = tempfile.mkdtemp(prefix="mkseed."); ok = True
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", W + "/r"], check=True)
    for f, old, new in edits:
        p = W + "/r/" + f; s = open(p).read()
        if s.count(old) != 1: print(id, "EDIT", f, "matches", s.count(old), "times:", old[:60]); ok = False; continue
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", W + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(W)
    if not ok: continue
    open(D + "/patch.diff", "w").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
    for f in ("demo.sh", "sym.h", "hs.h", "solve.h", "fix.h", "resto.h"):
        if f == "demo.sh" or f == "sym.h" or '"%s"' % f in demo or f == "hs.h" or (f == "fix.h" and '"resto.h"' in demo) or (f == "solve.h" and "solve.h" in demo): shutil.copy(T + "/" + f, D + "/" + f)
    body = demo if "int main" in demo else demo + ""
    open(D + "/demo.cpp", "w").write(body)
    print(id, "written")
