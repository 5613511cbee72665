// C28: point-inside tests of colliders and bodies against exact signed distances.
#include "shapes.h"
static void decide(const Solid& S, Collider* c, const Transform& bt, const Transform& lt, const Vector3& p, double tol) {
    D3 q = invtrd(lt, invtrd(bt, D3(p))); (void)q; D3 u = invtrd(bt, D3(p)); D3 l = invtrd(lt, u);
    double d = S.sdf(l); bool in = c->testPointInside(p);
    sym_check(in || d > -tol, "point strictly inside the shape is reported outside"); sym_check(!in || d < tol, "point strictly outside the shape is reported inside");
    sym_check(c->getBody()->testPointInside(p) == in, "body and its only collider disagree"); sym_observe("in", in); if (in) sym_reach("in"); else sym_reach("out");
}
#define G(n, lo, hi, sh) sym_grid(n, (RP_TIER ? 2 : 1) * (lo), (RP_TIER ? 2 : 1) * ((hi) + 1) - 1, (sh) + RP_TIER)
SYM_ENTRY(shapes) {
    World W; int k = sym_pick("shape", 0, 6); int var = sym_pick("variant", 0, 2); static const float SZ[3] = { 1, 1.0f / 64, 16 }; int z = sym_pick("size", 0, RP_TIER ? 2 : 1); float s = SZ[z];
    Solid S = solid(W, k, s, var); static const int R[3] = { 4, 1, 16 }; int r = R[sym_pick("rot", 0, 2)]; int lr = sym_pick("lrot", 0, 1) ? 5 : 0;
    Transform bt(Vector3(1, -2, 0.5f) * s, rotq(r)), lt(lr ? Vector3(0.5f, 0.25f, -1) * s : Vector3(0, 0, 0), rotq(lr));
    RigidBody* b = W.w->createRigidBody(bt); Collider* c = b->addCollider(S.s, lt);
    int sh = z == 1 ? 7 : z == 2 ? -3 : 1; float x, y, zz; if (sh > 0) { x = G("x", -8, 7, sh); y = G("y", -8, 7, sh); zz = G("z", -4, 3, sh); } else { x = 8 * G("x", -8, 7, 0); y = 8 * G("y", -8, 7, 0); zz = 8 * G("z", -4, 3, 0); }
    Vector3 off = trd(bt, trd(lt, D3(0, 0, 0))).x > -1e9 ? Vector3(bt * (lt * Vector3(0, 0, 0))) : Vector3(0, 0, 0); float step = s / 4; off = Vector3(std::floor(off.x / step) * step, std::floor(off.y / step) * step, std::floor(off.z / step) * step);
    decide(S, c, bt, lt, off + Vector3(x, y, zz), 2e-5 * (S.size() + 4 * s));
}
// several colliders, bodies moved afterwards, local placement changed, active or not
SYM_ENTRY(compound) {
    World W; Solid A = solid(W, sym_pick("a", 0, 3), 1, 0), B = solid(W, sym_pick("b", 1, 6), 0.5f, 1); int type = sym_pick("type", 0, 2); int mod = sym_pick("mod", 0, 3);
    RigidBody* b = W.body(nullptr, Vector3(0, 0, 0), 0, type == 0 ? BodyType::DYNAMIC : type == 1 ? BodyType::STATIC : BodyType::KINEMATIC);
    Transform la(Vector3(1, 0, 0), rotq(0)), lb(Vector3(-1, 0.5f, 0), rotq(4)); Collider* ca = b->addCollider(A.s, la); Collider* cb = b->addCollider(B.s, lb);
    Transform t(Vector3(0, 0, 0), rotq(0)); bool hasA = true;
    if (mod == 1) { t = Transform(Vector3(0.25f, 0.5f, -0.5f), rotq(5)); b->setTransform(t); } else if (mod == 2) { la = Transform(Vector3(0, 1, 0), rotq(6)); ca->setLocalToBodyTransform(la); } else if (mod == 3) { b->removeCollider(ca); hasA = false; }
    Vector3 p; p.x = sym_grid("x", -4, 3, 1); p.y = sym_grid("y", -4, 3, 1); p.z = sym_grid("z", -2, 1, 1);
    double da = hasA ? A.sdf(invtrd(la, invtrd(t, D3(p)))) : 1e9, db = B.sdf(invtrd(lb, invtrd(t, D3(p)))); bool in = b->testPointInside(p); double d = mind(da, db);
    sym_check(in || d > -1e-4, "point strictly inside a collider is not inside the body"); sym_check(!in || d < 1e-4, "point strictly outside all colliders is inside the body");
    sym_check(in == ((hasA && ca->testPointInside(p)) | cb->testPointInside(p)), "body contains a point although none of its colliders does (or the opposite)"); sym_observe("in", in);
}
