#!/usr/bin/env python3
"""Replays a counterexample file written by check.py on the natively compiled library (AddressSanitizer build)."""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rpbuild, check
from config import CHECKS
d = json.load(open(sys.argv[1]))
work = tempfile.mkdtemp(prefix="replay-")
try:
    nat = check.Native(work, CHECKS[d["property"]], ["-DRP_TIER=0"] + CHECKS[d["property"]].get("defs", []) + rpbuild.generated(CHECKS[d["property"]], work))
    for asan in (False, True):
        o = nat.run(d["entry"], [[x for _, x in d["inputs"]]], asan=asan)[0]
        print("asan" if asan else "plain", "->", o["end"], "\n", o["err"][-3000:])
finally:
    shutil.rmtree(work, ignore_errors=True)
