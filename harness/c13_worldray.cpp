// C13: ray casts of the world: which hits the callback receives under every policy, mask, flag and activity, against one cast per collider.
#include "surfaces.h"
static const int NB = 5, NC = 6;
struct Scene {
    World W; RigidBody* b[NB]; Collider* c[NC]; bool active[NB], query[NC]; unsigned short cat[NC]; Tris T;
    void build(int order, int variant) {
        CollisionShape *s = sphereOf(W, 1).s, *x = boxOf(W, Vector3(1, 0.5f, 0.75f)).s, *k = capsuleOf(W, 0.5f, 1).s, *m = concaveOf(W, Vector3(1, 1, 1), T);
        for (int i = 0; i < NB; i++) active[i] = true; for (int i = 0; i < NC; i++) { query[i] = true; cat[i] = 1; }
        for (int q = 0; q < NB; q++) { int i = order == 0 ? q : order == 1 ? NB - 1 - q : (q * 2 + 1) % NB;
            Vector3 p = i == 0 ? Vector3(0, 0, 0) : i == 1 ? Vector3(0.75f, 1.25f, 0) : i == 2 ? Vector3(-0.5f, -1.5f, 0.5f) : i == 3 ? Vector3(-1, 0.75f, 0.25f) : Vector3(0.5f, 0.5f, 0.5f); b[i] = W.w->createRigidBody(Transform(p, rotq(i == 1 ? 5 : i == 3 && variant ? 12 : 0)));
            if (i == 1 || i == 2) b[i]->setType(BodyType::STATIC); if (i == 3) b[i]->setType(BodyType::KINEMATIC);
            if (i == 0) c[0] = b[0]->addCollider(s, Transform::identity()); if (i == 1) c[1] = b[1]->addCollider(x, Transform::identity()); if (i == 2) c[2] = b[2]->addCollider(m, Transform::identity()); if (i == 4) c[5] = b[4]->addCollider(s, Transform::identity());
            if (i == 3) { c[3] = b[3]->addCollider(k, Transform(Vector3(0, 0.5f, 0), rotq(3))); c[4] = b[3]->addCollider(s, Transform(Vector3(-0.25f, -0.75f, 0), Quaternion::identity())); }
        }
    }
    int bodyOf(int i) const { return i < 3 ? i : i == 5 ? 4 : 3; }
};
// policies: 0 closest (return the hit fraction), 1 all (return one), 2 stop, 3 ignore all, 4 half of the fraction (clips further), 5 stop at the second hit
struct Cast : public RaycastCallback {
    Scene* S; int policy; int ignore = 0; float limit = 1; int n = 0; int count[NC]; float last = -1; int lastC = -1; bool stopped = false;
    Cast(Scene* s, int p) : S(s), policy(p) { for (int i = 0; i < NC; i++) count[i] = 0; }
    decimal notifyRaycastHit(const RaycastInfo& r) override {
        int k = -1; for (int i = 0; i < NC; i++) if (r.collider == S->c[i]) k = i; sym_check(k >= 0, "hit on an unknown collider"); if (k < 0) return 0;
        sym_check(r.body == S->b[S->bodyOf(k)], "hit names the wrong body"); sym_check(!stopped, "the cast goes on after the callback asked to stop"); sym_check((r.hitFraction >= 0) & (r.hitFraction <= limit), "hit beyond the current limit"); n++; count[k]++;
        if ((ignore >> k) & 1) return -1; last = r.hitFraction; lastC = k;
        if (policy == 0) { limit = r.hitFraction; if (limit == 0) stopped = true; return r.hitFraction; }
        if (policy == 1) return 1; if (policy == 2) { stopped = true; return 0; } if (policy == 3) return -1; if (policy == 4) { limit = r.hitFraction * 0.5f; if (limit == 0) stopped = true; return limit; }
        if (n >= 2) { stopped = true; return 0; } return 1;
    }
};
static void decide(Scene& S, const Vector3& o, const Vector3& t, float maxf, unsigned short mask, int policy, int ignore) {
    bool x[NC]; float f[NC]; int total = 0; float best = 2, bestAll = 2; for (int i = 0; i < NC; i++) { RaycastInfo r; bool h = S.c[i]->raycast(Ray(o, t, maxf), r); f[i] = r.hitFraction; x[i] = h && S.query[i] && S.active[S.bodyOf(i)] && (S.cat[i] & mask) != 0; if (!S.active[S.bodyOf(i)]) sym_check(!h, "a collider of an inactive body is hit"); if (x[i]) { total++; if (f[i] < bestAll) bestAll = f[i]; if (!((ignore >> i) & 1) && f[i] < best) best = f[i]; } }
    Cast c(&S, policy); c.ignore = ignore; c.limit = maxf; S.W.w->raycast(Ray(o, t, maxf), &c, mask);
    for (int i = 0; i < NC; i++) { if (!x[i]) sym_check(c.count[i] == 0, "a hit on a collider that is filtered out, inactive, not enabled for queries or not hit"); sym_check(c.count[i] <= 1, "a collider is reported twice"); }
    if (policy == 1 || policy == 3) for (int i = 0; i < NC; i++) if (x[i]) sym_check(c.count[i] == 1, "a hit is not reported");
    if (policy == 0) { sym_check((best < 2) == (c.last >= 0), "closest hit is missing"); if (best < 2 && c.last >= 0) sym_check(near1(c.last, best, 2e-5f), "the last hit is not the closest"); for (int i = 0; i < NC; i++) if (x[i] && (f[i] < best)) sym_check(c.count[i] == 1, "a hit before the closest one that is not ignored is not reported"); }
    if (policy == 2 && ignore == 0) sym_check(c.n == (total ? 1 : 0), "number of hits when the callback stops the cast"); if (policy == 5 && ignore == 0) sym_check(c.n == (total >= 2 ? 2 : total), "number of hits when the callback stops at the second");
    if (policy == 4 && ignore == 0) sym_check((c.n > 0) == (total > 0), "first hit is missing");
    sym_observe("hits", c.n); sym_observe_f("last", c.last);
    if (total > 1) sym_reach("several");
}
static const float DIRS[6][3] = { { 0, 0, -8 }, { 0.5f, 0.25f, -8 }, { -1, 0.5f, -6 }, { 0.25f, -8, -7 }, { 2, 1, -4.5f }, { 0, 0.125f, -4 } };
static Vector3 origin() { float x = sym_grid("x", -4, 3, 1); float y = sym_grid("y", RP_TIER ? -8 : -4, RP_TIER ? 7 : 3, RP_TIER ? 1 : 0); return Vector3(x + 0.0625f, y + 0.15625f, 4); }
SYM_ENTRY(policies) {
    int order = sym_pick("order", 0, 2), dir = sym_pick("dir", 0, RP_TIER ? 5 : 2), policy = sym_pick("policy", 0, 5), ig = sym_pick("ignored", 0, 3); Scene S; S.build(order, dir % 2); Vector3 o = origin(), d(DIRS[dir][0], DIRS[dir][1], DIRS[dir][2]); if (dir == 3) o.y = o.y + 4;
    decide(S, o, o + d, dir == 2 ? 0.6875f : 1, 0xffff, policy, ig == 0 ? 0 : ig == 1 ? 1 : ig == 2 ? 0x1a : 0x24); sym_reach("end");
}
// every category of two colliders and every mask of the ray; query flags of all
SYM_ENTRY(filters) {
    int order = sym_pick("order", 0, 2), policy = sym_pick("policy", 0, 3), who = sym_pick("who", 0, 2); Scene S; S.build(order, 0); S.cat[who] = (unsigned short)sym_bits("categoryA", 16); S.cat[5] = (unsigned short)sym_bits("categoryB", 16); unsigned short mask = (unsigned short)sym_bits("mask", 16); S.c[who]->setCollisionCategoryBits(S.cat[who]); S.c[5]->setCollisionCategoryBits(S.cat[5]);
    Vector3 o(who == 0 ? 0.3f : who == 1 ? 0.8f : 0.1f, who == 0 ? 0.25f : who == 1 ? 1.2f : -0.4f, 4); decide(S, o, o + Vector3(0, 0, -9), 1, mask, policy, 0); sym_reach("end");
}
SYM_ENTRY(flags) {
    int policy = sym_pick("policy", 0, 1), dir = sym_pick("dir", 0, 1); Scene S; S.build(0, 1); int m = sym_bits("flags", 6); for (int i = 0; i < NC; i++) { S.query[i] = (m >> i) & 1; S.c[i]->setIsWorldQueryCollider(S.query[i]); }
    Vector3 o(dir ? -0.4f : 0.3f, dir ? 0.7f : 0.3f, 4); decide(S, o, o + Vector3(DIRS[dir][0], DIRS[dir][1], DIRS[dir][2]), 1, 0xffff, policy, 0); sym_reach("end");
}
// states and histories of the bodies
static void op(Scene& S, int o) {
    switch (o) {
        case 0: S.b[0]->setIsActive(false); S.active[0] = false; break; case 1: S.b[3]->setIsActive(false); S.active[3] = false; break; case 2: S.b[1]->setIsActive(false); S.active[1] = false; break; case 3: for (int i = 0; i < NB; i++) { S.b[i]->setIsActive(true); S.active[i] = true; } break;
        case 4: for (int i = 0; i < NB; i++) S.b[i]->setIsSleeping(true); break; case 5: S.b[0]->setTransform(Transform(Vector3(0.25f, 0.75f, 1), Quaternion::identity())); break; case 6: S.b[2]->setTransform(Transform(Vector3(-1, 0, 0), rotq(12))); break; case 7: S.W.step(); break;
        case 8: S.c[0]->setIsTrigger(true); break; case 9: S.c[3]->setLocalToBodyTransform(Transform(Vector3(1.5f, -0.5f, 0.25f), rotq(0))); break; case 10: static_cast<SphereShape*>(S.c[0]->getCollisionShape())->setRadius(1.5f); break; case 11: { S.b[4]->removeCollider(S.c[5]); S.c[5] = S.b[4]->addCollider(S.c[1]->getCollisionShape(), Transform(Vector3(0.5f, 0, 0), rotq(0))); break; }
        case 12: { S.W.w->destroyRigidBody(S.b[1]); S.b[1] = S.W.w->createRigidBody(Transform(Vector3(-0.5f, 0.25f, 1), rotq(0))); S.c[1] = S.b[1]->addCollider(S.c[0]->getCollisionShape(), Transform::identity()); S.active[1] = true; break; } case 13: S.b[4]->setType(BodyType::STATIC); break;
    }
}
SYM_ENTRY(states) { int o1 = sym_pick("op", 0, 13), o2 = sym_pick("op", 0, 13), policy = RP_TIER ? sym_pick("policy", 0, 1) : (o1 + o2) % 2; Scene S; S.build(0, 0); op(S, o1); op(S, o2); float x = sym_grid("x", -4, 3, 1); Vector3 o(x + 0.0625f, 0.4f, 4); decide(S, o, o + Vector3(0.25f, 0.125f, -9), 1, 0xffff, policy, 0); sym_reach("end"); }
// the world cast agrees with the casts of the bodies
SYM_ENTRY(body_casts) {
    int order = sym_pick("order", 0, 1), dir = sym_pick("dir", 0, 2); Scene S; S.build(order, 1); Vector3 o = origin(), d(DIRS[dir][0], DIRS[dir][1], DIRS[dir][2]); for (int i = 0; i < NB; i++) { RaycastInfo r; bool h = S.b[i]->raycast(Ray(o, o + d, 0.75f), r); float best = 2; for (int k = 0; k < NC; k++) if (S.bodyOf(k) == i) { RaycastInfo q; if (S.c[k]->raycast(Ray(o, o + d, 0.75f), q) && q.hitFraction < best) best = q.hitFraction; } sym_check(h == (best < 2), "ray cast against a body"); if (h) sym_check(near1(r.hitFraction, best, 2e-5f), "ray cast against a body does not return its closest hit"); } sym_reach("end");
}
