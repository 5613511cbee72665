// C09: sphere / capsule collision tests against closed-form distances.
#include "kit.h"
static const float TOL = 2e-4f;
struct Round { CollisionShape* s; float r, h; };        // capsule of height h along local y, sphere when h = 0
struct Scene { World W; Round a, b; RigidBody *ba, *bb; };
static Round make(World& W, float r, float h) { Round o; o.r = r; o.h = h; o.s = h > 0 ? (CollisionShape*)W.pc.createCapsuleShape(r, h) : (CollisionShape*)W.pc.createSphereShape(r); return o; }
static double dist2(const Round& a, const Transform& ta, const Round& b, const Transform& tb) {
    D3 a0 = trd(ta, D3(0, -a.h / 2, 0)), a1 = trd(ta, D3(0, a.h / 2, 0)), b0 = trd(tb, D3(0, -b.h / 2, 0)), b1 = trd(tb, D3(0, b.h / 2, 0));
    return distSS2(a0, a1, b0, b1);
}
static double surf(const Round& a, const Transform& ta, const D3& worldPt) { D3 p = invtrd(ta, worldPt); double y = clampd(p.y, -a.h / 2, a.h / 2); D3 d(p.x, p.y - y, p.z); return len(d) - a.r; }
static void decide(World& W, const Round& A, RigidBody* ba, const Round& B, RigidBody* bb, const char* obs, double scale = 1) {
    Contacts cs; W.w->testCollision(ba, bb, cs); Contacts cr; W.w->testCollision(bb, ba, cr);
    const Transform ta = ba->getTransform(), tb = bb->getTransform(); const double tol = TOL * scale;
    const double d = std::sqrt(dist2(A, ta, B, tb)), sum = (double)A.r + B.r;
    bool hit = cs.pairs > 0; sym_check(cs.pairs == cr.pairs && cs.n == cr.n, "the result depends on the order of the bodies in the query");
    sym_check(W.w->testOverlap(ba, bb) == hit, "overlap and collision query disagree");
    if (!hit) { sym_check(d >= sum - tol, "shapes closer than the sum of their radii are not reported"); sym_reach("miss"); }
    else {
        sym_check(d <= sum + tol, "shapes farther apart than the sum of their radii are reported"); sym_check(cs.pairs == 1 && cs.n >= 1 && cs.n <= 2, "number of pairs / contact points");
        sym_reach("hit");
        double best = 0;
        for (int i = 0; i < cs.n; i++) {
            Contact& c = cs.c[i]; D3 n(c.n); sym_check(absd(dot(n, n) - 1) <= 1e-4, "contact normal is not a unit vector");
            const bool same = c.b1 == ba; const Round &R1 = same ? A : B, &R2 = same ? B : A; const Transform &t1 = same ? ta : tb, &t2 = same ? tb : ta;
            D3 p1 = trd(t1, D3(c.l1)), p2 = trd(t2, D3(c.l2));
            sym_check(absd(surf(R1, t1, p1)) <= tol, "contact point is not on the surface of the first shape"); sym_check(absd(surf(R2, t2, p2)) <= tol, "contact point is not on the surface of the second shape");
            sym_check(c.depth > 0, "penetration depth is not positive"); best = maxd(best, c.depth);
            // the two surface points are one penetration depth apart along the normal (normal goes from the first to the second shape)
            sym_check(neard(p1 - p2, n * (double)c.depth, 2 * tol), "contact points are not separated by the penetration depth along the normal");
        }
        if (d > 16 * tol) sym_check(absd(best - (sum - d)) <= 2 * tol, "penetration depth differs from the sum of the radii minus the distance");
        else sym_check(absd(best - sum) <= 20 * tol, "penetration depth of shapes with a common centre line");
    }
    sym_observe(obs, cs.n); if (cs.n) { sym_observe_f("depth", cs.c[0].depth); observe3("n", cs.c[0].n); }
}
static const float RA[3] = { 1.0f, 0.25f, 1.5f };
// two spheres, every position on a grid, both creation orders, any rotation
SYM_ENTRY(sphere_sphere) {
    World W; int k = sym_pick("radii", 0, 2); Round A = make(W, RA[k], 0), B = make(W, RA[(k + 1) % 3], 0); int o = sym_pick("order", 0, 1); int r = sym_pick("rot", 0, RP_TIER ? 17 : 4); r = r == 3 ? 16 : r == 4 ? 17 : r;
    Vector3 p = grid3("p", RP_TIER ? -16 : -8, RP_TIER ? 15 : 7, 2); Vector3 base = sym_pick("base", 0, 1) ? Vector3(10, -20, 30) : Vector3(0, 0, 0);
    RigidBody *ba, *bb; if (o) { bb = W.body(B.s, base + p, r); ba = W.body(A.s, base, 4); } else { ba = W.body(A.s, base, 4); bb = W.body(B.s, base + p, r); }
    decide(W, A, ba, B, bb, "n");
}
// the tables of candidate placements of the capsule harnesses
SYM_ENTRY(sphere_capsule) {
    World W; int k = sym_pick("dims", 0, 2); static const float H[3] = { 2, 0.5f, 4 }; Round A = make(W, RA[k] * 0.5f, 0), B = make(W, RA[(k + 1) % 3] * 0.5f, H[k]); int o = sym_pick("order", 0, 1);
    static const int rots[6] = { 0, 4, 5, 15, 16, 17 }; int r = rots[sym_pick("rot", 0, RP_TIER ? 5 : 4)];
    Vector3 p; p.x = sym_grid("x", RP_TIER ? -8 : -4, RP_TIER ? 7 : 3, RP_TIER ? 2 : 1); p.y = sym_grid("y", RP_TIER ? -16 : -8, RP_TIER ? 15 : 7, RP_TIER ? 2 : 1); p.z = sym_grid("z", -4, 3, 1);
    RigidBody *ba, *bb; if (o) { bb = W.body(B.s, Vector3(1, 2, 3), r); ba = W.body(A.s, Vector3(1, 2, 3) + p, 4); } else { ba = W.body(A.s, Vector3(1, 2, 3) + p, 4); bb = W.body(B.s, Vector3(1, 2, 3), r); }
    decide(W, A, ba, B, bb, "n");
}
SYM_ENTRY(capsule_capsule_exact) {
    World W; int k = sym_pick("dims", 0, 2); static const float H[3] = { 2, 1, 4 }; Round A = make(W, RA[k] * 0.5f, H[(k + 1) % 3]), B = make(W, RA[(k + 1) % 3] * 0.5f, H[k]);
    static const int rots[4] = { 0, 1, 4, 5 }; int r = rots[sym_pick("rot", 0, 3)]; int ra = rots[sym_pick("rota", 0, 1) * 3];
    Vector3 p; p.x = sym_grid("x", RP_TIER ? -8 : -4, RP_TIER ? 7 : 3, 1); p.y = sym_grid("y", RP_TIER ? -16 : -8, RP_TIER ? 15 : 7, RP_TIER ? 2 : 1); p.z = sym_grid("z", RP_TIER ? -4 : -2, RP_TIER ? 3 : 1, 1);
    RigidBody* ba = W.body(A.s, Vector3(0, 0, 0), ra); RigidBody* bb = W.body(B.s, p, r); decide(W, A, ba, B, bb, "n");
}
SYM_ENTRY(capsule_capsule_tilted) {
    World W; int k = sym_pick("dims", 0, 1); Round A = make(W, 0.5f, 2), B = k ? make(W, 0.25f, 3) : make(W, 1, 1);
    static const int rots[6] = { 15, 16, 17, 14, 12, 13 }; int r = rots[sym_pick("rot", 0, RP_TIER ? 5 : 2)];
    Vector3 p; p.x = sym_grid("x", -4, 3, 1); p.y = sym_grid("y", RP_TIER ? -8 : -4, RP_TIER ? 7 : 3, 1); p.z = sym_grid("z", RP_TIER ? -4 : -2, RP_TIER ? 3 : 1, 1);
    RigidBody* ba = W.body(A.s, Vector3(0, 0, 0), 0); RigidBody* bb = W.body(B.s, p, r); decide(W, A, ba, B, bb, "n");
}
// the same placements scaled down to centimetres
SYM_ENTRY(capsules_small) {
    World W; const float s = 1.0f / 32; Round A = make(W, 0.25f * s, 2 * s), B = make(W, 0.5f * s, 1.5f * s);
    static const int rots[3] = { 4, 5, 16 }; int r = rots[sym_pick("rot", 0, 2)];
    Vector3 p; p.x = sym_grid("x", -4, 3, 1 + 5); p.y = sym_grid("y", -4, 3, 1 + 5); p.z = sym_grid("z", -1, 0, 1 + 5);
    RigidBody* ba = W.body(A.s, Vector3(0, 0, 0), 0); RigidBody* bb = W.body(B.s, p, r); decide(W, A, ba, B, bb, "n", 0.25);
}
