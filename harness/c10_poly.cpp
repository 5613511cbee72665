// C10: boxes and convex polyhedra against spheres, capsules and each other, decided by separating axes / exact distances in double precision.
#include "sat.h"
#ifdef DBG
#include <cstdio>
#endif
// cached: the pair was colliding or separated in the previous frame and the axis of that frame may be reused (it need not be the best one any more)
static void judge(const Contacts& cs, const Oracle& O, RigidBody* ba, RigidBody* bb, const D3& p, double sc, bool cached) {
    const double tol = 1.2e-3 * sc; double s = O(p); bool hit = cs.pairs > 0;
#ifdef DBG
    printf("hit %d s=%g n=%d\n", hit, s, cs.n);
#endif
    sym_observe("n", cs.n); if (cs.n) { sym_observe_f("depth", cs.c[0].depth); observe3("n", cs.c[0].n); }
    if (!hit) { sym_check(s >= -tol, "penetrating shapes are not reported"); sym_reach("miss"); return; }
    sym_check(s <= tol, "shapes separated by a gap are reported"); sym_check(cs.pairs == 1 && cs.n >= 1, "number of pairs / contact points"); sym_reach("hit");
    double best = 0; D3 bn(0, 0, 0); bool dup = false;
#ifdef DBG
    for (int i = 0; i < cs.n; i++) printf("  n %g %g %g depth %g l1 %g %g %g l2 %g %g %g\n", cs.c[i].n.x, cs.c[i].n.y, cs.c[i].n.z, cs.c[i].depth, cs.c[i].l1.x, cs.c[i].l1.y, cs.c[i].l1.z, cs.c[i].l2.x, cs.c[i].l2.y, cs.c[i].l2.z);
#endif
    for (int i = 0; i < cs.n; i++) {
        const Contact& c = cs.c[i]; D3 n(c.n); sym_check(absd(dot(n, n) - 1) <= 1e-4, "contact normal is not a unit vector"); sym_check(c.depth >= 0, "negative penetration depth"); if (c.b1 != ba) n = n * -1;
        bn = c.depth >= best ? n : bn; best = maxd(best, c.depth);
        const Transform &t1 = c.b1->getTransform(), &t2 = c.b2->getTransform(); D3 d = trd(t1, D3(c.l1)) - trd(t2, D3(c.l2)); (void)dup;
        if (cached) continue;
        // (a capsule with its inner segment in the polyhedron gets the closest points of its segment and of an edge)
        sym_check((O.capsule & (s < -(O.A.r + O.B.r) + tol)) | neard(d, D3(c.n) * (double)c.depth, 4 * tol), "contact points are not separated by the penetration depth along the normal"); }
    if (cached) return;
    if (O.roundA | O.roundB) { D3 q = p + bn * best; sym_check((s >= -tol) | (O(q) >= -(O.capsule ? 4 : 2) * tol), "moving along the normal by the deepest penetration does not separate the shapes"); }
    else { double o = O.overlap(bn, p);
#ifdef DBG
        printf("overlap %g\n", o);
#endif
        sym_check(o <= -s * 1.002 + 0.0005 + 6 * tol, "the overlap along the contact normal is not the smallest one"); sym_check(best <= o + 2 * tol, "penetration depth larger than the overlap along the normal"); }
}
static void decide(World& W, const Oracle& O, RigidBody* ba, RigidBody* bb, const D3& p, double sc) {
    Contacts cs; W.w->testCollision(ba, bb, cs); judge(cs, O, ba, bb, p, sc, false); bool ov = W.w->testOverlap(ba, bb);
    sym_check((ov == (cs.pairs > 0)) | (absd(O(p)) <= 1.2e-3 * sc), "overlap and collision queries disagree");
}
static const int RA[3] = { 0, 17, 15 }, RB[8] = { 0, 4, 16, 15, 13, 17, 7, 19 };
static void place(int ka, int kb, int va, int vb, float s, int ra, int rb, int order, Vector3 p, Vector3 base) {
    if (kb > 2 && vb == 3) p = p - rotq(rb) * (OFFSET3 * s);
    World W; Solid A = solid(W, ka, s, va), B = solid(W, kb, s, vb); Oracle O(core(A, ka, rotq(ra)), core(B, kb, rotq(rb)));
    RigidBody *ba, *bb; if (order) { bb = W.body(B.s, base + p, rb); ba = W.body(A.s, base, ra); } else { ba = W.body(A.s, base, ra); bb = W.body(B.s, base + p, rb); }
    decide(W, O, ba, bb, D3(p), s);
}
// ---- consecutive frames: the second one may reuse what was computed in the first one
struct Ear : public EventListener { Oracle* O = nullptr; RigidBody *a, *b; D3 p; double s; bool called = false;
    void onContact(const CollisionCallback::CallbackData& d) override {
        if (!O) return; Contacts cs; called = true;
        for (uint32 i = 0; i < d.getNbContactPairs(); i++) { CollisionCallback::ContactPair q = d.getContactPair(i); if (q.getEventType() == CollisionCallback::ContactPair::EventType::ContactExit) continue; cs.pairs++;
            for (uint32 k = 0; k < q.getNbContactPoints(); k++) { CollisionCallback::ContactPoint t = q.getContactPoint(k); Contact& o = cs.c[cs.n++]; o.b1 = q.getBody1(); o.b2 = q.getBody2(); o.n = t.getWorldNormal(); o.l1 = t.getLocalPointOnCollider1(); o.l2 = t.getLocalPointOnCollider2(); o.depth = t.getPenetrationDepth(); } }
        judge(cs, *O, a, b, p, s, true); sym_assume(false); } };            // (what the solver does with the contacts is not looked at here)
static void frames(int ka, int kb, int va, int vb, float s, int ra, int rb, int rb2, int order, const Vector3& p0, const Vector3& p) {
    World W; Ear ear; W.w->setEventListener(&ear); Solid A = solid(W, ka, s, va), B = solid(W, kb, s, vb); Oracle O(core(A, ka, rotq(ra)), core(B, kb, rotq(rb2)));
    RigidBody *ba, *bb; if (order) { bb = W.body(B.s, p0, rb); ba = W.body(A.s, Vector3(0, 0, 0), ra, BodyType::KINEMATIC); } else { ba = W.body(A.s, Vector3(0, 0, 0), ra, BodyType::KINEMATIC); bb = W.body(B.s, p0, rb); }
    W.step(); ba->setTransform(Transform(Vector3(0, 0, 0), rotq(ra))); bb->setTransform(Transform(p, rotq(rb2)));
    ear.O = &O; ear.a = ba; ear.b = bb; ear.p = D3(p); ear.s = s; W.step();
    if (!ear.called) { Contacts none; judge(none, O, ba, bb, D3(p), s, true); }
}
static Vector3 gridp(int n, int sh, const Vector3& o) { Vector3 p; p.x = sym_grid("x", -n, n - 1, sh); p.y = sym_grid("y", -n, n - 1, sh); p.z = sym_grid("z", -n / 2, n / 2 - 1, sh); return p + o; }
static const Vector3 SHIFT[4] = { Vector3(0, 0, 0), Vector3(0.37f, -0.21f, 0.13f), Vector3(0.11f, 0.25f, -0.4f), Vector3(-0.26f, 0.06f, 0.19f) };
static const float SIZE[4] = { 1, 0.0625f, 16, 100 };
#define T(q, t) (RP_TIER ? (t) : (q))
// spheres and capsules against boxes and convex meshes (variant 3: a mesh away from its origin)
static void round_case(int ka, int kb, int m, int big) {
    int v = (ka + kb + m) % 3, r = (m * 2 + kb + ka) % 8; float s = big ? SIZE[1 + (m + kb) % 3] : 1; int vb = (m + kb) % 4; if (kb == 2 && vb == 3) vb = 1;
    int n = T(4, 8); Vector3 g = gridp(n, n == 4 ? 0 : 1, SHIFT[m & 3]); place(ka, kb, v, vb, s, RA[(v + m) % 3], RB[r], (kb + m) & 1, g * (s * 0.5f * (n == 4 ? 1.0f : 1.0f)), Vector3(0, 0, 0)); }
SYM_ENTRY(round_poly) { int ka = sym_pick("round", 0, 1), kb = sym_pick("poly", 2, 6), m = sym_pick("mix", 0, T(2, 23)); round_case(ka, kb, m, 0); }
SYM_ENTRY(round_poly_sizes) { int ka = sym_pick("round", 0, 1), kb = sym_pick("poly", 2, 6), m = T((ka * 2 + kb) % 3, sym_pick("mix", 0, 11)); round_case(ka, kb, m, 1); }
// two polyhedra
static void poly_case(int ka, int kb, int m, int big) {
    int va = (ka + kb + m) % 3, vb = (kb + m) % 4, r = (m * 3 + ka * 2 + kb) % 8; if (kb == 2 && vb == 3) vb = 1; float s = big ? SIZE[1 + (m + kb) % 3] : 1;
    int n = T(4, 8); Vector3 g = gridp(n, n == 4 ? 0 : 1, SHIFT[(m + ka) & 3]); place(ka, kb, va, vb, s, RA[(ka + m) % 3], RB[r], (ka + kb + m) & 1, g * (s * 0.625f), Vector3(0, 0, 0)); }
SYM_ENTRY(poly_poly) { int ka = sym_pick("a", 2, 6), kb = sym_pick("b", 2, 6), m = T((ka + 2 * kb) & 3, sym_pick("mix", 0, 7)); poly_case(ka, kb, m, 0); }
SYM_ENTRY(poly_poly_sizes) { int ka = sym_pick("a", 2, 6), kb = T(2 + (ka * 2) % 5, sym_pick("b", 2, 6)), m = sym_pick("mix", 0, T(1, 3)); poly_case(ka, kb, ka + 2 * m, 1); }
// a second frame after a first one in which the shapes were colliding or separated
SYM_ENTRY(second_frame) {
    int ka = sym_pick("a", T(1, 0), 6), kb = sym_pick("b", 2, 6), m = T((ka + kb) & 1, sym_pick("mix", 0, 7)), r = (m * 3 + ka * 2 + kb) % 8; Vector3 p0 = SHIFT[(m + kb) & 3] * 2; if (m & 1) p0 = Vector3(-1.5f, -0.4f, -0.1f);
    Vector3 g = gridp(T(4, 8), T(0, 1), SHIFT[(m + ka) & 3]); frames(ka, kb, (ka + m) % 3, (kb + ka) % 3, 1, RA[(ka + m) % 3], RB[r], RB[(r + (m & 1) * 3) % 8], m & 1, p0, g * 0.625f); }
