#!/usr/bin/env python3
# Builds one planted bug from a spec in a scratch copy (/tmp/sd, see DESIGN.md), confirms it and stores it in seeded/<id>/.
import sys, os, subprocess, json, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run("git -C /repo log --format=%h 6c20b90~1 -1", shell=True, capture_output=True, text=True).stdout.strip()
PRE = '''#include <reactphysics3d/reactphysics3d.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
using namespace reactphysics3d;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; cwd is the repository after its build
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -I"$PWD/include" "$D/demo.cpp" "$PWD/_build/single/libreactphysics3d.a" -o "$T/demo"
timeout 120 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(spec, nocheck):
    ns = {}; exec(open(spec).read(), ns); S = ns["S"]; sd = "/tmp/sd"
    sh(f"git -C {sd} checkout -q -- . ; git -C {sd} fetch -q /repo HEAD && git -C {sd} reset -q --hard FETCH_HEAD")
    for f, old, new in S["edits"]:
        p = f"{sd}/{f}"; b = open(p, newline="").read(); crlf = "\r\n" in b
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if b.count(old) != 1: print("EDIT FAILED", f, b.count(old), old[:80]); return 1
        ln = b[:b.index(old)].count("\n") + 1; k = old.count("\n") + 1
        bl = sh(f"git -C {sd} blame -s -L {ln},{ln+k-1} -- {f}").stdout.splitlines()
        mine = [l for l in bl if not l.startswith("^")]
        if mine: print("note: lines of my own commits in the edited span:", mine[:3])
        open(p, "w", newline="").write(b.replace(old, new))
    d = f"{root}/seeded/{S['id']}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w", newline="").write(subprocess.run(f"git -C {sd} diff --binary", shell=True, capture_output=True).stdout.decode("utf-8", "surrogateescape"))
    open(f"{d}/demo.cpp", "w").write(PRE + S["demo"]); open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": S["property"], "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    r = sh("bash /tmp/sdvp/test.sh /tmp/sdo.json")
    try: o = json.load(open("/tmp/sdo.json")); n = len(o["passed"])
    except Exception: n = -1
    c = sh(f"bash {d}/demo.sh", cwd="/repo"); m = sh(f"bash {d}/demo.sh", cwd=sd)
    ok = n == 238 and c.returncode == 0 and m.returncode != 0
    print(f"{S['id']}: tests {n}, demo clean {c.returncode} patched {m.returncode} {'OK' if ok else 'BAD'}")
    if not ok: print((r.stdout + r.stderr)[-600:] if n != 238 else "", c.stdout[-300:], c.stderr[-600:], "|", m.stdout[-300:], m.stderr[-300:]); shutil.rmtree(d); return 1
    if nocheck: return 0
    k = sh(f"RP_REPO={sd} timeout 800 python3 {root}/tools/check.py {S['property']} --no-evidence", cwd=root)
    print("   CAUGHT" if k.returncode == 1 and "VIOLATION" in k.stdout else f"   MISSED rc={k.returncode}", [l for l in k.stdout.splitlines() if "counterexample" in l][:1] or k.stdout[-300:])
    return 0
for s in sys.argv[1:]:
    if s != "--nocheck": main(s, "--nocheck" in sys.argv)
