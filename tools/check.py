#!/usr/bin/env python3
"""Runs the check of one property: builds bitcode of the current tree, executes the harness symbolically,
replays solver counterexamples on the natively compiled library, writes evidence."""
import sys, os, json, time, argparse, subprocess, tempfile, shutil, glob, threading, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rpbuild
from config import CHECKS
VERIF = rpbuild.VERIF

def log(*a):
    print(*a, flush=True)

class Native:
    """lazily built native replayers"""
    def __init__(self, work, cfg, extra):
        self.work, self.cfg, self.extra = work, cfg, extra
        self.bins = {}
        self.lock = threading.Lock()
    def get(self, asan):
        with self.lock:
            if asan not in self.bins:
                self.bins[asan] = rpbuild.build(os.path.join(self.work, "nat"), self.cfg["harness"], "native", stub=self.cfg.get("stub", True), asan=asan, extra=self.extra)[0]
            return self.bins[asan]
    def run(self, entry, vectors, asan=False):
        """vectors: list of lists of ints. Returns list of dicts(end, obs)"""
        b = self.get(asan)
        f = tempfile.NamedTemporaryFile("w", dir=self.work, suffix=".vec", delete=False)
        for v in vectors:
            f.write(" ".join(str(x) for x in v) + "\n")
        f.close()
        env = dict(os.environ)
        env["MALLOC_PERTURB_"] = "50"
        env["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=205:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=78"
        try:
            r = subprocess.run([b, entry, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=32 * max(1, len(vectors)))
        except subprocess.TimeoutExpired:
            return [{"end": "timeout", "obs": [], "err": ""} for _ in vectors]
        out = r.stdout.decode("utf-8", "replace")
        res = []
        cur = None
        for line in out.splitlines():
            if line.startswith("VEC "):
                cur = {"end": "?", "obs": [], "err": r.stderr.decode("utf-8", "replace")[-2500:]}
                res.append(cur)
            elif cur is not None and line.startswith("OBS "):
                p = line.split(" ")
                cur["obs"].append([" ".join(p[1:-2]), int(p[-2]), int(p[-1])])
            elif cur is not None and line.startswith("END "):
                cur["end"] = line[4:]
        while len(res) < len(vectors):
            res.append({"end": "?", "obs": [], "err": ""})
        return res

def is_nan32(b):
    return (b & 0x7f800000) == 0x7f800000 and (b & 0x7fffff)

def same_obs(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[1] == y[1]:
            continue
        if x[2] == 32:
            if is_nan32(x[1]) and is_nan32(y[1]):
                continue
            if (x[1] | y[1]) == 0x80000000:      # +0 / -0
                continue
        return False
    return True

def reproduced(kind, end):
    if end.startswith("check"):
        return True
    if kind == "check":
        return end.startswith("signal") or end.startswith("exit")
    if kind == "steplimit":
        return end.startswith("signal 14") or end == "timeout"
    return end.startswith("signal") or end.startswith("exit")

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry", action="append")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--slow", type=float, default=0)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop, tier = a.prop, a.tier
    cfg = CHECKS[prop]
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=os.path.join(VERIF, ".build"))
    rc = 2
    try:
        parts = cfg.get("parts") or [{}]
        rcs, evs = [], []
        for i, part in enumerate(parts):
            c = dict(cfg, **part)
            w = os.path.join(work, "p%d" % i)
            os.makedirs(w)
            r, ev = run(a, prop, tier, c, c.get(tier, {}), w, seed, time.time(), i)
            rcs.append(r)
            evs.append(ev)
        rc = 1 if 1 in rcs else max(rcs)
        if not a.no_evidence:
            ev = evs[0]
            for e in evs[1:]:
                merge(ev["coverage"], e["coverage"])
                ev["violations"] += e["violations"]
                ev["assumptions"] += [x for x in e["assumptions"] if x not in ev["assumptions"]]
            ev["wall_s"] = round(time.time() - t0, 1)
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
    except rpbuild.BuildError as e:
        log("ERROR: build failed\n" + str(e))
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            log("kept", work)
    return rc

def merge(a, b):
    """adds up the coverage of two parts of a check"""
    for k, v in b.items():
        if k not in a:
            a[k] = v
        elif isinstance(v, bool):
            a[k] = a[k] and v
        elif isinstance(v, (int, float)):
            a[k] = max(a[k], v) if k == "slowest_s" else a[k] + v
        elif isinstance(v, list):
            a[k] = (a[k] + [x for x in v if x not in a[k]])[:300 if k == "functions_encoded" else 1000]
        elif isinstance(v, dict):
            merge(a[k], v)

def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                res.append(json.loads(l))
    return res

def matches(k, prop, v):
    if k.get("status") != "known" or k.get("property") != prop or k.get("entry") != v["entry"]:
        return False
    if k.get("kind") and k["kind"] != v["kind"]:
        return False
    if k.get("msg") and k["msg"] not in v["msg"]:
        return False
    if k.get("loc") and k["loc"] not in v["loc"]:
        return False
    inp = {}
    for n, x in v["inputs"]:
        inp.setdefault(n, []).append(x)
    for n, allowed in k.get("inputs", {}).items():
        if inp.get(n) is None or any(x not in allowed for x in inp[n]):
            return False
    return True

def run(a, prop, tier, cfg, tc, work, seed, t0, part=0):
    extra = ["-DRP_TIER=%d" % (1 if tier == "thorough" else 0)] + cfg.get("defs", [])
    extra += rpbuild.generated(cfg, work)
    budget = a.budget or tc.get("budget", 30 if tier == "quick" else 420)
    res = {}
    err = []
    def guard(name, fn):
        def g():
            try:
                res[name] = fn()
            except Exception as e:      # noqa
                err.append(e)
        t = threading.Thread(target=g)
        t.start()
        return t
    th = [guard("engine", rpbuild.engine), guard("bc", lambda: rpbuild.build(os.path.join(work, "bc"), cfg["harness"], "bc", stub=cfg.get("stub", True), extra=extra))]
    nat = Native(work, cfg, extra)
    for t in th:
        t.join()
    if err:
        raise err[0]
    tn = guard("nat", lambda: nat.get(False))
    t_build = time.time() - t0
    bc, stub = res["bc"]
    entries = a.entry or entries_of(cfg, tier)
    outd = os.path.join(work, "out")
    os.makedirs(outd)
    cmd = [res["engine"], "--bc", bc, "--out", outd, "--workers", str(a.workers), "--budget", str(budget), "--seed", str(seed)]
    for k, fl in (("steps", "--steps"), ("rlimit", "--rlimit"), ("tablebits", "--tablebits"), ("maxite", "--maxite")):
        v = tc.get(k, cfg.get(k))
        if v is not None:
            cmd += [fl, str(v)]
    if a.v:
        cmd.append("-v")
    if a.slow:
        cmd += ["--slow", str(a.slow)]
    for e in entries:
        cmd += ["--entry", e]
    t1 = time.time()
    r = subprocess.run(cmd, stderr=None if a.v or a.slow else subprocess.PIPE, text=True, timeout=budget + 400)
    t_explore = time.time() - t1
    crashed = r.returncode != 0
    if crashed:
        log("ENGINE: exit status %d %s" % (r.returncode, (r.stderr or "")[-1500:]))
    tot = {}
    per = {}
    viol, samples, reach, funcs, errs, steplimits, labels = [], [], set(), set(), {}, [], {}
    for fn in sorted(glob.glob(os.path.join(outd, "*.jsonl"))):
        for line in open(fn):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "violation":
                viol.append(d)
            elif d["t"] == "sample":
                samples.append(d)
            elif d["t"] == "steplimit":
                steplimits.append(d)
            elif d["t"] == "summary":
                pe = per.setdefault(d["entry"], {})
                for k, v in d.items():
                    if isinstance(v, (int, float)):
                        if k == "solver_max":
                            tot[k] = max(tot.get(k, 0), v)
                        else:
                            tot[k] = tot.get(k, 0) + v
                            pe[k] = pe.get(k, 0) + v
                reach |= set(d["entry"] + ":" + x for x in d["reach"])
                funcs |= set(d["funcs"])
                for m, c in d["errs"]:
                    errs[m] = errs.get(m, 0) + c
                for m, c in d["checklabels"]:
                    labels[m] = labels.get(m, 0) + c
    tn.join()
    if err:
        raise err[0]
    # ---- replay of the counterexamples
    classes = {}
    for v in viol:
        key = (v["entry"], v["kind"], v["msg"], "" if v["kind"] == "check" else v["loc"].split(" < ")[0])
        classes.setdefault(key, []).append(v)
    for s in steplimits:
        s = dict(s, kind="steplimit", msg="execution does not finish within the step limit")
        classes.setdefault((s["entry"], "steplimit", s["msg"], ""), []).append(s)
    confirmed, unconfirmed, known = [], [], []
    kf = known_findings()
    replay_t = time.time()
    for key, vs in sorted(classes.items()):
        listed = [v for v in vs if any(matches(k, prop, v) for k in kf)]
        rest = [v for v in vs if v not in listed]
        for v in listed[:1]:
            out = nat.run(v["entry"], [[x for _, x in v["inputs"]]])[0]
            if reproduced(v["kind"], out["end"]):
                known.append(v)
        if time.time() - replay_t > (60 if confirmed else 240):
            continue
        hit = None
        for v in rest[:4]:
            vec = [x for _, x in v["inputs"]]
            out = nat.run(v["entry"], [vec])[0]
            how = "native"
            if not reproduced(v["kind"], out["end"]) and v["kind"] not in ("steplimit",):
                out = nat.run(v["entry"], [vec], asan=True)[0]
                how = "native+asan"
            if reproduced(v["kind"], out["end"]):
                hit = (v, out, how)
                break
        if hit:
            confirmed.append(hit)
        elif rest:
            unconfirmed.append(rest[0])
    # ---- trace validation
    validated, mismatch = 0, []
    bye = {}
    for s in samples:
        bye.setdefault(s["entry"], []).append(s)
    for e, ss in bye.items():
        outs = nat.run(e, [[x for _, x in s["inputs"]] for s in ss[:40]])
        for s, o in zip(ss, outs):
            if o["end"] == "ok" and same_obs(s["obs"], o["obs"]):
                validated += 1
            else:
                mismatch.append((s, o))
    missing = [e + ":" + l for e, l in cfg.get("reach", []) if e in entries and (e + ":" + l) not in reach]
    # ---- report
    rdir = os.path.join(VERIF, ".build", "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, (v, out, how) in enumerate(confirmed):
        p = os.path.join(rdir, "%s-%d.json" % (prop, i + 100 * part))
        with open(p, "w") as f:
            json.dump({"property": prop, "entry": v["entry"], "kind": v["kind"], "msg": v["msg"], "loc": v["loc"], "inputs": v["inputs"], "native": how, "outcome": out["end"], "stderr": out["err"][-1500:],
                       "rerun": "python3 tools/replay.py " + p}, f, indent=1)
        log("  counterexample (%s): %s | %s | inputs %s | %s" % (v["entry"], v["kind"], v["msg"], json.dumps(v["inputs"])[:600], v["loc"][:400]))
        log("VIOLATION property=%s replay=%s" % (prop, p))
    for v in known:
        log("KNOWN-FINDING: property=%s %s: %s" % (prop, v["entry"], v["msg"]))
    for v in unconfirmed:
        log("NOTE: solver counterexample not reproduced natively (not reported): %s %s %s inputs %s at %s" % (v["entry"], v["kind"], v["msg"], json.dumps(v["inputs"])[:600], v["loc"][:500]))
    for s, o in mismatch[:5]:
        log("NOTE: trace differs from native run: %s inputs %s engine %s native %s %s" % (s["entry"], json.dumps(s["inputs"])[:400], json.dumps(s["obs"])[:600], o["end"], json.dumps(o["obs"])[:600]))
    for m, c in sorted(errs.items(), key=lambda x: -x[1])[:8]:
        log("NOTE: %s (x%d)" % (m[:300], c))
    for m in missing:
        log("NOTE: vacuous: label %s never reached" % m)
    for e in entries:
        p = per.get(e, {})
        log("  %-28s paths %-6d killed %-6d unexplored %-5d undecided %-4d checks %-7d queries %-6d steps %.1fM solver %.1fs" % (e, p.get("paths", 0), p.get("killed", 0), p.get("unexplored", 0), p.get("undecided", 0), p.get("checks", 0), p.get("queries", 0), p.get("steps", 0) / 1e6, p.get("solver_s", 0)))
    lib = sorted(f for f in funcs if "reactphysics3d" in f)
    names = subprocess.run(["/usr/bin/llvm-cxxfilt-18"], input="\n".join(lib), stdout=subprocess.PIPE, text=True).stdout.split("\n") if lib else []
    complete = tot.get("unexplored", 0) == 0 and tot.get("undecided", 0) == 0 and tot.get("errors", 0) == 0 and tot.get("steplimit", 0) == 0 and not crashed
    cov = {
        "states": int(tot.get("paths", 0)), "transitions": int(tot.get("decided", 0)), "traces_validated_against_impl": validated,
        "samples": [{"entry": s["entry"], "inputs": s["inputs"][:60], "observed": [[o[0], o[1]] for o in s["obs"][:12]]} for s in samples[:6]] or [{"entry": e} for e in entries[:1]],
        "explanation": "states = feasible execution paths completed symbolically (each stands for all inputs satisfying its path condition); transitions = symbolic branch decisions put to the solver; traces = paths whose solver model was replayed on the g++-compiled library with identical observations",
        "entries": {e: {k: per.get(e, {}).get(k, 0) for k in ("paths", "killed", "unexplored", "undecided", "checks", "proved", "queries", "steps")} for e in entries},
        "bounds": cfg.get("bounds", "") if not isinstance(cfg.get("bounds"), dict) else cfg["bounds"].get(tier, ""),
        "complete_within_bounds": complete,
        "assertions_discharged": int(tot.get("proved", 0)), "assertions_evaluated": int(tot.get("checks", 0)),
        "solver": {"queries": int(tot.get("queries", 0)), "sat": int(tot.get("sat", 0)), "unsat": int(tot.get("unsat", 0)), "unknown": int(tot.get("unknown", 0)), "cache_hits": int(tot.get("cache", 0)), "reused_models": int(tot.get("modelhits", 0)), "fp_theory_queries": int(tot.get("fpqueries", 0)), "seconds": round(tot.get("solver_s", 0), 2), "slowest_s": round(tot.get("solver_max", 0), 2), "name": "z3 5.3.2"},
        "instructions_executed": int(tot.get("steps", 0)), "unexplored_states": int(tot.get("unexplored", 0)), "undecided_queries": int(tot.get("undecided", 0)), "engine_errors": int(tot.get("errors", 0)),
        "functions_encoded_count": len(lib), "functions_encoded": [n[:110] for n in names if n][:150],
        "check_labels": labels, "reached": sorted(reach), "vacuous_labels": missing,
        "trace_mismatches": len(mismatch), "unreproduced_counterexamples": len(unconfirmed), "allocator_stub": stub,
        "build_s": round(t_build, 1), "explore_s": round(t_explore, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ["LLVM 18 -O1 bitcode of the current tree is executed; floating-point contraction off; sign of zero is not tracked through dyadic arithmetic", "memory contents of fresh allocations are modelled as the byte pattern 0xCD"],
          "wall_s": round(time.time() - t0, 1), "violations": len(confirmed)}
    log("%s %s: paths=%d checks=%d queries=%d unexplored=%d undecided=%d validated=%d/%d build=%.1fs explore=%.1fs total=%.1fs %s" % (prop, tier, cov["states"], cov["assertions_evaluated"], cov["solver"]["queries"], cov["unexplored_states"], cov["undecided_queries"], validated, validated + len(mismatch), t_build, t_explore, time.time() - t0, "COMPLETE" if complete else "INCOMPLETE"))
    if confirmed:
        return 1, ev
    if cov["states"] == 0:
        log("ERROR: nothing was explored")
        return 2, ev
    return 0, ev

def entries_of(cfg, tier):
    res = []
    for h in cfg["harness"]:
        for m in re.finditer(r"^SYM_ENTRY(_T)?\((\w+)\)", open(os.path.join(VERIF, "harness", h)).read(), re.M):
            if m.group(1) and tier != "thorough":
                continue
            res.append(m.group(2))
    only = cfg.get("entries")
    if only:
        res = [e for e in res if e in only]
    return res

if __name__ == "__main__":
    sys.exit(main())
