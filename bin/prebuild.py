#!/usr/bin/env python3
"""Fills the build cache: bitcode and native objects of /repo's current sources and of every harness."""
import os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from concurrent.futures import ThreadPoolExecutor
hs = sorted(glob.glob(os.path.join(vlib.V, "harness", "C*.cpp")))
groups = sorted({g for h in hs for g in vlib.spec(h).get("groups", [])} | {"core"})
bad = 0
for g in groups:
    for kind in ("bc", "nat"):
        _, e = vlib.compile_all(vlib.sources(g), kind)
        for s, m in e: print("ERROR", s, m); bad = 1
def one(h):
    gr = ("core",) + tuple(vlib.spec(h).get("groups", []))
    r, e = vlib.link_harness(h, gr)
    if e: return h, e
    r, e = vlib.compile_one(h, "nat")
    return h, [(h, e)] if e else None
for f in ("native.cpp", "mumps.cpp"): vlib.compile_one(os.path.join(vlib.V, "rt", f), "nat")
one(hs[0])
with ThreadPoolExecutor(8) as ex:
    for h, e in ex.map(one, hs):
        if e: print("ERROR", h, e); bad = 1
print("prebuilt", len(hs), "harnesses"); sys.exit(bad)
