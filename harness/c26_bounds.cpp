// C26: bounds of shapes, colliders and bodies, and the boxes stored in the broad phase, against exact bounds of the placed shapes.
#include "surfaces.h"
struct Box { D3 lo, hi; };
static void grow(Box& b, const D3& p) { b.lo = D3(mind(b.lo.x, p.x), mind(b.lo.y, p.y), mind(b.lo.z, p.z)); b.hi = D3(maxd(b.hi.x, p.x), maxd(b.hi.y, p.y), maxd(b.hi.z, p.z)); }
static Box exact(const Solid& S, const Tris& T, const Transform& bt, const Transform& lt) {
    Box b; b.lo = D3(1e30, 1e30, 1e30); b.hi = b.lo * -1.0; auto at = [&](const D3& p) { return trd(bt, trd(lt, p)); };
    if (T.n) { for (int i = 0; i < T.n; i++) for (int k = 0; k < 3; k++) grow(b, at(T.t[i][k])); }
    else if (S.kind == 2) { for (int i = 0; i < S.nv; i++) grow(b, at(S.v[i])); }
    else { double h = S.kind == 1 ? S.h / 2 : 0; D3 r(S.r, S.r, S.r); for (int s = -1; s <= 1; s += 2) { D3 c = at(D3(0, s * h, 0)); grow(b, c + r); grow(b, c - r); } }
    return b;
}
static bool contains(const AABB& a, const Box& b, double e) { return (a.getMin().x <= b.lo.x + e) & (a.getMin().y <= b.lo.y + e) & (a.getMin().z <= b.lo.z + e) & (a.getMax().x >= b.hi.x - e) & (a.getMax().y >= b.hi.y - e) & (a.getMax().z >= b.hi.z - e); }
static double tolOf(const Box& b) { return 3e-6 * (1 + maxd(maxd(maxd(absd(b.lo.x), absd(b.lo.y)), absd(b.lo.z)), maxd(maxd(absd(b.hi.x), absd(b.hi.y)), absd(b.hi.z)))); }
// the box of the collider in the broad phase, read through the debug renderer (lines of the box)
static int stored(World& W, Body* b, int which, AABB& out) {
    for (uint32 i = 0; i < W.w->getNbRigidBodies(); i++) W.w->getRigidBody(i)->setIsDebugEnabled(W.w->getRigidBody(i) == b);
    DebugRenderer& d = W.w->getDebugRenderer(); d.reset(); d.setIsDebugItemDisplayed(DebugRenderer::DebugItem::COLLIDER_BROADPHASE_AABB, true); d.computeDebugRenderingPrimitives(*W.w);
    int n = (int)d.getNbLines() / 12; if (which < n) { const DebugRenderer::DebugLine* l = d.getLinesArray() + 12 * which; Vector3 lo = l[0].point1, hi = lo; for (int i = 0; i < 12; i++) { lo = Vector3::min(lo, Vector3::min(l[i].point1, l[i].point2)); hi = Vector3::max(hi, Vector3::max(l[i].point1, l[i].point2)); } out = AABB(lo, hi); } return n;
}
struct Obj { Solid s; Tris t; CollisionShape* shape = nullptr; int kind = 0, var = 0; };
static void build(World& W, Obj& o, int k, int var) {
    static const float SZ[3][3] = { {1,1,1}, {0.5f,2,1.5f}, {3,0.25f,0.5f} }; o.kind = k; o.var = var; const float* z = SZ[var];
    if (k == 7) o.shape = concaveOf(W, Vector3(z[0], z[1], z[2]), o.t); else if (k == 8) o.shape = fieldOf(W, 0, 0, Vector3(z[0], z[1], z[2]), o.t); else { o.s = k == 0 ? sphereOf(W, z[1]) : k == 1 ? capsuleOf(W, z[0], z[1]) : k == 2 ? boxOf(W, Vector3(z[0], z[1], z[2])) : convexOf(W, k - 3, Vector3(z[0], z[1], z[2])); o.shape = o.s.s; }
}
static void resize(World& W, Obj& o, int var) {
    static const float SZ[3][3] = { {1,1,1}, {0.5f,2,1.5f}, {3,0.25f,0.5f} }; const float* z = SZ[var]; Vector3 S(z[0], z[1], z[2]); o.var = var;
    if (o.kind == 0) { static_cast<SphereShape*>(o.shape)->setRadius(z[1]); o.s.r = z[1]; } else if (o.kind == 1) { static_cast<CapsuleShape*>(o.shape)->setRadius(z[0]); static_cast<CapsuleShape*>(o.shape)->setHeight(z[1]); o.s.r = z[0]; o.s.h = z[1]; }
    else if (o.kind == 2) { static_cast<BoxShape*>(o.shape)->setHalfExtents(S); for (int i = 0; i < 8; i++) o.s.v[i] = D3(i & 1 ? S.x : -S.x, i & 2 ? S.y : -S.y, i & 4 ? S.z : -S.z); }
    else if (o.kind == 7) { static_cast<ConcaveMeshShape*>(o.shape)->setScale(S); concaveTris(o.t, S); } else if (o.kind == 8) { static_cast<HeightFieldShape*>(o.shape)->setScale(S); fieldTris(o.t, 0, S); }
    else { static_cast<ConvexMeshShape*>(o.shape)->setScale(S); const MeshSrc& m = MESHES[o.kind - 3]; for (int i = 0; i < m.nv; i++) o.s.v[i] = D3((double)m.v[i][0] * S.x, (double)m.v[i][1] * S.y, (double)m.v[i][2] * S.z); }
}
static bool sameTr(const Transform& a, const Transform& b, const Transform& l) {          // a = b * l, decided by where it puts the unit points
    D3 P[4] = { D3(0,0,0), D3(1,0,0), D3(0,1,0), D3(0,0,1) }; bool r = true; for (int i = 0; i < 4; i++) r &= neard(trd(a, P[i]), trd(b, trd(l, P[i])), 1e-5 * (1 + len(D3(b.getPosition())) + len(D3(l.getPosition())))); return r;
}
// bounds of single shapes in any placement
SYM_ENTRY(shape_bounds) {
    World W; int k = sym_pick("shape", 0, 8), v = sym_pick("var", 0, 2), r = sym_pick("rot", 0, RP_TIER ? 19 : 5), re = sym_pick("resized", 0, 1); static const int R[6] = { 0, 4, 12, 16, 17, 19 }; Obj o; build(W, o, k, re ? (v + 1) % 3 : v); if (re) resize(W, o, v);
    Vector3 p; p.x = sym_grid("x", -8, 7, 1); p.y = sym_grid("y", -8, 7, 1); p.z = sym_grid("z", -8, 7, 1); Transform t(p, rotq(RP_TIER ? r : R[r])); Box e = exact(o.s, o.t, Transform::identity(), Transform::identity()), w = exact(o.s, o.t, t, Transform::identity());
    sym_check(contains(o.shape->getLocalBounds(), e, tolOf(e)), "local bounds do not contain the shape"); AABB a = o.shape->computeTransformedAABB(t); sym_check(contains(a, w, tolOf(w)), "bounds of the placed shape do not contain the shape"); observe3("min", a.getMin());
    // no wild over-estimate: the bounds of the placed shape stay inside the bounds of the placed local box
    double d = len(e.hi - e.lo) + len(e.hi) + 1e-3; sym_check((absd(a.getMin().x - p.x) <= d) & (absd(a.getMax().x - p.x) <= d) & (absd(a.getMin().y - p.y) <= d) & (absd(a.getMax().y - p.y) <= d) & (absd(a.getMin().z - p.z) <= d) & (absd(a.getMax().z - p.z) <= d), "bounds of the placed shape are far away from the shape");
}
// two bodies (three colliders, two of them sharing one shape) and a history of operations
static void history(int steps, int k, int type) {
    World W; W.w->enableSleeping(true); Obj A, B; build(W, A, k, 0); build(W, B, 2, 1); RigidBody* b[2]; Collider* c[2][2]; Transform l[2][2]; Obj* ob[2][2]; int nc[2];
    BodyType T = type == 0 ? BodyType::DYNAMIC : type == 1 ? BodyType::STATIC : BodyType::KINEMATIC;
    for (int i = 0; i < 2; i++) { b[i] = W.w->createRigidBody(Transform(Vector3(i * 20.0f, 0, 0), rotq(i ? 16 : 4))); nc[i] = 0; }
    if (k < 7 || T != BodyType::DYNAMIC) b[0]->setType(T); else b[0]->setType(BodyType::KINEMATIC);
    auto add = [&](int i, Obj& o, const Transform& t) { c[i][nc[i]] = b[i]->addCollider(o.shape, t); l[i][nc[i]] = t; ob[i][nc[i]] = &o; nc[i]++; };
    add(0, A, Transform(Vector3(0.5f, 0, 0), rotq(5))); if (k < 7) add(1, A, Transform::identity()); add(1, B, Transform(Vector3(0, 1, 0), rotq(12)));
    Vector3 p; p.x = sym_grid("x", -8, 7, 3); p.y = sym_grid("y", -8, 7, 3); p.z = 0.5f; bool active[2] = { true, true };
    for (int s = 0; s < steps; s++) {
        int op = sym_pick("op", 0, 10), i = (op >= 2 && op <= 5) ? 0 : sym_pick("body", 0, 1); Transform was[2] = { b[0]->getTransform(), b[1]->getTransform() };
        switch (op) {
            case 0: { Transform t(Vector3(i * 20.0f, 0, 0) + p * (float)(s + 1), b[i]->getTransform().getOrientation()); b[i]->setTransform(t); was[i] = t; break; }
            case 1: { Transform t(b[i]->getTransform().getPosition(), rotq(17)); b[i]->setTransform(t); was[i] = t; break; }
            case 2: resize(W, A, 1); break; case 3: resize(W, A, 2); break; case 4: resize(W, B, 2); break; case 5: W.step(1, 1.0f / 8); was[0] = b[0]->getTransform(); was[1] = b[1]->getTransform(); break;
            case 6: active[i] = !active[i]; b[i]->setIsActive(active[i]); break;
            case 7: b[i]->setIsSleeping(true); break;
            case 8: { l[i][0] = Transform(Vector3(-0.5f, p.x, 0.25f), rotq(6)); c[i][0]->setLocalToBodyTransform(l[i][0]); break; }
            case 9: b[i]->setLinearVelocity(Vector3(16, -8, 0)); b[i]->setAngularVelocity(Vector3(0, 2, 1)); break;
            case 10: if (i == 0 && k >= 7) break; b[i]->setType(b[i]->getType() == BodyType::STATIC ? BodyType::DYNAMIC : BodyType::STATIC); break;
        }
        for (int j = 0; j < 2; j++) {
            sym_check(eq3(was[j].getPosition(), b[j]->getTransform().getPosition()), "an operation moves a body it should not move"); Box all; all.lo = D3(1e30, 1e30, 1e30); all.hi = all.lo * -1.0;
            for (int q = 0; q < nc[j]; q++) {
                Transform bt = b[j]->getTransform(); sym_check(sameTr(c[j][q]->getLocalToWorldTransform(), bt, l[j][q]), "world placement of a collider is not body placement times local placement"); Box e = exact(ob[j][q]->s, ob[j][q]->t, bt, l[j][q]); grow(all, e.lo); grow(all, e.hi);
                sym_check(contains(c[j][q]->getWorldAABB(), e, tolOf(e)), "bounds of a collider do not contain its shape"); AABB st; int n = stored(W, b[j], q, st); sym_check(n == (active[j] ? nc[j] : 0), "colliders in the broad phase are not those of active bodies"); sym_check((c[j][q]->getBroadPhaseId() != -1) == active[j], "collider is in the broad phase although its body is inactive, or the opposite");
                if (active[j]) sym_check(contains(st, e, tolOf(e)), "the box stored in the broad phase does not contain the shape");
                if (active[j] && q == 0) observe3("box", st.getMin());
            }
            sym_check(contains(b[j]->getAABB(), all, tolOf(all)), "bounds of a body do not contain its shapes");
            // a probe at the corner of the first shape touches the collider and the body, one beyond the last corner does not
            Box e = exact(ob[j][0]->s, ob[j][0]->t, was[j], l[j][0]); D3 m = (e.lo + e.hi) * 0.5, h = (e.hi - e.lo) * 0.5; auto probe = [&](const D3& at) { return AABB(Vector3((float)at.x - 0.125f, (float)at.y - 0.125f, (float)at.z - 0.125f), Vector3((float)at.x + 0.125f, (float)at.y + 0.125f, (float)at.z + 0.125f)); };
            AABB in = probe(m + D3(h.x, -h.y, h.z)), out = probe(m + D3(0, len(h) * 4 + 60, 0)); sym_check(c[j][0]->testAABBOverlap(in) & b[j]->testAABBOverlap(in), "a box that touches a shape does not overlap with its bounds"); sym_check(!c[j][0]->testAABBOverlap(out) & !b[j]->testAABBOverlap(out), "a box far away overlaps with the bounds");
        }
    }
    sym_reach("end");
}
SYM_ENTRY(history2) { int k = sym_pick("shape", 0, 8); history(RP_TIER ? 3 : 2, k, k % 3 == 0 ? 1 : k % 3 == 1 ? 0 : 2); }
SYM_ENTRY(history3) { history(3, 2, 0); }
// points and vectors between the space of a body and the world's
SYM_ENTRY(spaces) {
    World W; int r = sym_pick("rot", 0, 19), ty = sym_pick("type", 0, 2); Vector3 p; p.x = sym_grid("x", -8, 7, 1); p.y = sym_grid("y", -4, 3, 1); p.z = 0.75f; Vector3 q(1, -2, 0.5f); int k = sym_pick("point", 0, 2); if (k == 1) q = Vector3(0, 0.25f, 3); if (k == 2) q = Vector3(-0.5f, 0, 0); RigidBody* other = W.body(nullptr, Vector3(5, 5, 5), 3); RigidBody* b = W.body(nullptr, p, r, ty == 0 ? BodyType::DYNAMIC : ty == 1 ? BodyType::STATIC : BodyType::KINEMATIC); (void)other; b->setLocalCenterOfMass(Vector3(0.5f, 1, -2)); Transform t(p, rotq(r)); Quaternion o = rotq(r), c(-o.x, -o.y, -o.z, o.w);
    D3 w = trd(t, D3(q)), v = rotd(o, D3(q)), lp = rotd(c, D3(q) - D3(p)), lv = rotd(c, D3(q)); sym_check(neard(D3(b->getWorldPoint(q)), w, 1e-5), "world point of a local point"); sym_check(neard(D3(b->getWorldVector(q)), v, 1e-5), "world vector of a local vector"); sym_check(neard(D3(b->getLocalPoint(q)), lp, 2e-5), "local point of a world point"); sym_check(neard(D3(b->getLocalVector(q)), lv, 1e-5), "local vector of a world vector"); sym_reach("end");
}
