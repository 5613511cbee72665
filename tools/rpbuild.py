"""Builds engine, library bitcode and native replayer from the current source tree."""
import os, subprocess, sys, concurrent.futures as cf, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RP_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"
BCFLAGS = ["-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-gline-tables-only",
           "-DSYM_ENGINE", "-fno-access-control", "-w", "-emit-llvm"]
NATFLAGS = ["-std=c++17", "-O1", "-g1", "-ffp-contract=off", "-fno-access-control", "-w"]
MEMFILES = {"HeapAllocator.cpp", "PoolAllocator.cpp", "SingleFrameAllocator.cpp"}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def engine(log=lambda *_: None):
    out = os.path.join(VERIF, ".build", "engine")
    binp = os.path.join(out, "rpsym")
    srcs = [os.path.join(VERIF, "engine", f) for f in ("expr.h", "expr.cpp", "solver.h", "solver.cpp", "exec.cpp", "build.sh")]
    if os.path.exists(binp) and all(os.path.getmtime(binp) >= os.path.getmtime(s) for s in srcs):
        return binp
    r = sh(["bash", os.path.join(VERIF, "engine", "build.sh"), out])
    if r.returncode:
        raise BuildError("engine build failed:\n" + r.stdout[-3000:])
    return binp

def generated(cfg, work):
    """Runs the check's generator, if any; returns the extra compiler flags."""
    if not cfg.get("gen"):
        return []
    g = sh(["python3", os.path.join(VERIF, "harness", cfg["gen"]), REPO, os.path.join(work, "gen")])
    if g.returncode:
        raise BuildError("generator failed: " + g.stdout[-2000:])
    return ["-I" + os.path.join(work, "gen")]

def sources():
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            if n.endswith(".cpp"):
                fs.append(os.path.join(d, n))
    return sorted(fs)

def chunks(fs, n):
    ch = [[] for _ in range(n)]
    sz = [0] * n
    for f in sorted(fs, key=lambda f: (-os.path.getsize(f), f)):
        i = min(range(n), key=lambda i: sz[i])
        ch[i].append(f)
        sz[i] += os.path.getsize(f) + 4000
    return [c for c in ch if c]

def compile_unit(cc, flags, files, out, tag):
    """Compile several sources as one unit; separately when that fails. Returns list of outputs."""
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
    uni = os.path.join(out, "u_%s.cpp" % tag)
    with open(uni, "w") as f:
        for s in files:
            f.write('#include "%s"\n' % s)
    ext = ".bc" if "-emit-llvm" in flags else ".o"
    o = os.path.join(out, "u_%s%s" % (tag, ext))
    r = sh([cc] + flags + inc + ["-c", uni, "-o", o])
    if r.returncode == 0:
        return [o], ""
    if len(files) == 1:
        raise BuildError("cannot compile %s:\n%s" % (files[0], r.stdout[-4000:]))
    outs = []
    for k, s in enumerate(files):
        ok = os.path.join(out, "u_%s_%d%s" % (tag, k, ext))
        r = sh([cc] + flags + inc + ["-c", s, "-o", ok])
        if r.returncode:
            raise BuildError("cannot compile %s:\n%s" % (s, r.stdout[-4000:]))
        outs.append(ok)
    return outs, ""

def build(out, harness, kind, stub=True, asan=False, extra=()):
    """kind: 'bc' or 'native'. Returns path of linked module / binary and whether the allocator stub is used."""
    os.makedirs(out, exist_ok=True)
    cc, flags = (CLANG, BCFLAGS) if kind == "bc" else ("/usr/bin/g++", NATFLAGS)
    flags = list(flags) + list(extra)
    if asan:
        flags += ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,float-divide-by-zero,float-cast-overflow", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    tagp = kind + ("A" if asan else "")
    fs = sources()
    lib = [f for f in fs if os.path.basename(f) not in MEMFILES]
    mem = [f for f in fs if os.path.basename(f) in MEMFILES]
    jobs = []
    with cf.ThreadPoolExecutor(12) as ex:
        hs = [os.path.join(VERIF, "harness", h) for h in harness]
        for i, h in enumerate(hs):
            jobs.append(ex.submit(compile_unit, cc, flags, [h], out, "%s_h%d" % (tagp, i)))
        if kind == "bc":
            jobs.append(ex.submit(compile_unit, cc, flags, [os.path.join(VERIF, "harness", "bc_support.cpp")], out, tagp + "_sup"))
        if kind == "native":
            jobs.append(ex.submit(compile_unit, cc, flags, [os.path.join(VERIF, "harness", "sym_native.cpp")], out, tagp + "_rt"))
        for i, c in enumerate(chunks(lib, 8)):
            jobs.append(ex.submit(compile_unit, cc, flags, c, out, "%s_l%d" % (tagp, i)))
        memjob = None
        used_stub = False
        if stub:
            try:
                sj = ex.submit(compile_unit, cc, flags, [os.path.join(VERIF, "harness", "alloc_stub.cpp")], out, tagp + "_stub")
                memobjs = sj.result()[0]
                used_stub = True
            except BuildError:
                memobjs = None
        if not used_stub:
            memobjs = ex.submit(compile_unit, cc, flags, mem, out, tagp + "_mem").result()[0]
        objs = list(memobjs)
        for j in jobs:
            objs += j.result()[0]
    if kind == "bc":
        res = os.path.join(out, "all.bc")
        r = sh(["/usr/bin/llvm-link-18"] + objs + ["-o", res])
        if r.returncode and used_stub:   # stub misses something the tree needs: use the real allocators
            return build(out, harness, kind, stub=False, asan=asan, extra=extra)
    else:
        res = os.path.join(out, "replay_asan" if asan else "replay")
        lk = ["-fsanitize=address,undefined"] if asan else []
        r = sh(["/usr/bin/g++"] + lk + objs + ["-o", res, "-lpthread"])
        if r.returncode and used_stub:
            return build(out, harness, kind, stub=False, asan=asan, extra=extra)
    if r.returncode:
        raise BuildError("link failed:\n" + r.stdout[-3000:])
    return res, used_stub

if __name__ == "__main__":
    out = sys.argv[1]
    t = time.time()
    print(build(out, sys.argv[3:], sys.argv[2]), time.time() - t)
