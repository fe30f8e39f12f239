#!/usr/bin/env python3
# dev helper: run1.py file.cpp [ipsym flags]   (NAT=1: native run)
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
h = sys.argv[1]; g = ("core",) + tuple(os.environ.get("GROUPS_", "").split())
if os.environ.get("NAT"):
    exe, e = vlib.native(h, g)
    if e: print(e); sys.exit(2)
    sys.exit(subprocess.call([exe]))
bc, e = vlib.link_harness(h, g)
if e:
    for x in e: print(x[0], x[1])
    sys.exit(2)
sys.exit(subprocess.call([vlib.IPSYM, "--ce=/tmp/w", "--out=/tmp/w/o.json"] + sys.argv[2:] + [bc]))
