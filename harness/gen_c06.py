#!/usr/bin/env python3
# Generates, from the component headers of the tree under test, code that sets and compares every field with a public setter/getter pair.
import re, sys, os
repo, out = sys.argv[1:3]
TABLES = ["TransformComponents", "BodyComponents", "RigidBodyComponents", "ColliderComponents", "JointComponents", "BallAndSocketJointComponents", "FixedJointComponents", "HingeJointComponents", "SliderJointComponents"]
OKT = {"Vector3", "Vector2", "Quaternion", "Matrix3x3", "Matrix2x2", "decimal", "bool", "int32", "unsigned short", "Transform", "BodyType", "JointsPositionCorrectionTechnique"}
def base(t):
    t = re.sub(r"\bconst\b", "", t).replace("&", " ").strip()
    return re.sub(r"\s+", " ", t)
o = ["// generated from " + repo, "template <class T, typename T::type M> struct Rob { friend typename T::type robbed(T) { return M; } };"]
nf = 0
for t in TABLES:
    src = open(os.path.join(repo, "include/reactphysics3d/components", t + ".h")).read()
    src = re.sub(r"//[^\n]*", "", src)
    setters = re.findall(r"^\s+void set(\w+)\(\s*Entity \w+\s*,\s*([^,()]+?[\s&\*])\s*\w+\s*\)\s*(?:const)?\s*;", src, re.M)
    getters = dict((n, r) for r, n in re.findall(r"^\s+([\w&\* ]+?[\s&\*])\s*get(\w+)\(\s*Entity \w+\s*\)\s*(?:const)?\s*;", src, re.M))
    fields = []
    for n, ty in setters:
        if n in getters and n != "IsEntityDisabled":
            b = base(ty)
            g = base(getters[n])
            if (t + "::set" + n) in src and (t + "::get" + n) in src and b == g and (b in OKT or b.endswith("*")):
                fields.append((n, b))
    # columns without accessors (the solvers reach them as friends): read and written through a pointer to the member
    try: cpp = open(os.path.join(repo, "src/components", t + ".cpp")).read()
    except OSError: cpp = ""
    raw = []
    for ty, m in re.findall(r"^\s+([\w:]+(?: \w+)?)\s*\*\s*(m\w+)\s*(?:=\s*nullptr)?\s*;", src, re.M):
        if ty in OKT and len(re.findall(r"\b%s\b" % m, src)) == 1 and not re.search(r"\b%s\s*\[\s*mMapEntity" % m, cpp): raw.append((ty, m))
    for ty, m in raw:
        o.append("struct T_%s_%s { typedef %s* %s::*type; friend type robbed(T_%s_%s); }; template struct Rob<T_%s_%s, &%s::%s>;" % (t, m, ty, t, t, m, t, m, t, m))
    o.append("template <> struct Acc<%s> {" % t)
    o.append("  static void set(%s& c, Entity e, uint32_t s) { (void)c; (void)e; (void)s;" % t)
    for i, (n, b) in enumerate(fields):
        o.append("    c.set%s(e, mk<%s>(s, %d));" % (n, b, i))
    for i, (ty, m) in enumerate(raw):
        o.append("    (c.*robbed(T_%s_%s()))[c.getEntityIndex(e)] = mk<%s>(s, %d);" % (t, m, ty, len(fields) + i))
    o.append("  }\n  static bool same(%s& c, Entity e, uint32_t s) { bool ok = true;" % t)
    for i, (n, b) in enumerate(fields):
        o.append("    ok &= eqv<%s>(c.get%s(e), mk<%s>(s, %d));" % (b, n, b, i))
    for i, (ty, m) in enumerate(raw):
        o.append("    ok &= eqv<%s>((c.*robbed(T_%s_%s()))[c.getEntityIndex(e)], mk<%s>(s, %d));" % (ty, t, m, ty, len(fields) + i))
    o.append("    return ok; }\n  static const int N = %d;\n};" % len(fields))
    nf += len(fields) + len(raw)
os.makedirs(out, exist_ok=True)
open(os.path.join(out, "c06_gen.h"), "w").write("\n".join(o) + "\n")
print(nf, "fields")
