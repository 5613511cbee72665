// C15: every order of changes of type, activity and sleep leaves the body in the state that its type and activity ask for.
#include "surfaces.h"
static const float G = -8.0f, DT = 1.0f / 256;
struct Scene {
    World W; Events ev; RigidBody *a, *st, *dy; Collider *ca, *cs, *cd; CollisionShape *s, *big; BodyType type; bool active = true, asleep = false, here; bool dyAsleep = false; int where;
    Scene() : W(Vector3(0, G, 0)) {}
    // place 0: overlaps the static and the heavy dynamic body; 1: alone
    Vector3 at(int p) const { return p == 0 ? Vector3(0, 0, 0) : Vector3(100, 50, 0); }
    void build(BodyType t, int p, int order) {
        W.w->setEventListener(&ev); s = sphereOf(W, 2).s; big = sphereOf(W, 8).s; type = t; where = p;
        for (int k = 0; k < 3; k++) { int i = order ? 2 - k : k;
            if (i == 0) { a = W.w->createRigidBody(Transform(at(p), Quaternion::identity())); a->setType(t); ca = a->addCollider(s, Transform::identity()); a->setMass(1); a->setLocalInertiaTensor(Vector3(1, 1, 1)); }
            if (i == 1) { st = W.w->createRigidBody(Transform(Vector3(-6, 0, 0), Quaternion::identity())); st->setType(BodyType::STATIC); cs = st->addCollider(big, Transform::identity()); }
            if (i == 2) { dy = W.w->createRigidBody(Transform(Vector3(6, 0, 0), Quaternion::identity())); cd = dy->addCollider(big, Transform::identity()); cd->setCollideWithMaskBits(1); cs->setCollisionCategoryBits(2); ca->setCollideWithMaskBits(3); dy->setMass(1e9f); dy->setLocalInertiaTensor(Vector3(1e9f, 1e9f, 1e9f)); dy->enableGravity(false); }
        }
    }
    bool frozen() const { return type == BodyType::STATIC || asleep; }
    void state() { sym_check(a->isActive() == active, "activity flag"); sym_check(a->getType() == type, "type"); if (active) sym_check(a->isSleeping() == asleep, asleep ? "a sleeping body woke up by itself" : "a body that should be awake sleeps"); }
    void ray() {
        struct Cb : RaycastCallback { Collider* c; int n = 0; decimal notifyRaycastHit(const RaycastInfo& i) override { n += i.collider == c; return 1; } } cb; cb.c = ca; Vector3 p = a->getTransform().getPosition(); W.w->raycast(Ray(p + Vector3(0, 0.25f, 20), p + Vector3(0, 0.25f, -20)), &cb);
        sym_check(cb.n == (active ? 1 : 0), active ? "an active body is not hit by a ray" : "an inactive body is hit by a ray"); RaycastInfo i; bool h = a->raycast(Ray(p + Vector3(0, 0.25f, 20), p + Vector3(0, 0.25f, -20)), i); sym_check(h == active, "ray cast against the body");
    }
    void query() { bool o1 = W.w->testOverlap(a, st), o2 = W.w->testOverlap(dy, a); bool x = active && where == 0; sym_check(o1 == x && o2 == x, "overlap query of the body"); }
    // one step; the body must collide with the others exactly when it is active and there
    void step() {
        int from = ev.n; Vector3 p0 = a->getTransform().getPosition(), v0 = a->getLinearVelocity(); Quaternion q0 = a->getTransform().getOrientation(); bool fr = frozen(), act = active, da = dyAsleep;
        W.step(1, DT); int t1 = -1, t2 = -1; ev.count(ca, cs, 0, &t1, from); ev.count(ca, cd, 0, &t2, from); bool touch = act && where == 0;
        bool e1 = t1 == 0 || t1 == 1, e2 = t2 == 0 || t2 == 1; sym_check(e1 == (touch && !fr), e1 ? "contact of a body that does not take part" : "no contact although the body takes part");
        sym_check(e2 == (touch && !(fr && da)), e2 ? "contact of a body that does not take part" : "no contact although the body takes part");
        if (touch && e2) { /* an island with an awake body wakes its sleeping neighbours */ if (type != BodyType::STATIC && fr) asleep = a->isSleeping(); if (da) dyAsleep = dy->isSleeping(); }
        Vector3 p1 = a->getTransform().getPosition(), v1 = a->getLinearVelocity();
        if (!act || type == BodyType::STATIC || (fr && !touch)) { Quaternion q1 = a->getTransform().getOrientation(); sym_check(eq3(p0, p1) & (q0.x == q1.x) & (q0.y == q1.y) & (q0.z == q1.z) & (q0.w == q1.w), !act ? "an inactive body moves" : type == BodyType::STATIC ? "a static body moves" : "a sleeping body moves"); }
        else if (!touch && !fr) {
            Vector3 x = type == BodyType::DYNAMIC ? v0 + Vector3(0, G * DT, 0) : v0; if (type == BodyType::DYNAMIC) x = x + Vector3(0, 0, 2 * pending * DT); sym_check(near3(v1, x, 1e-4f), "an active body does not move like a new one"); Vector3 e = p0 + x * DT; sym_check(near3(p1, e, 1e-4f), "an active body does not move with its velocity");
        }
        pending = 0;
    }
    int pending = 0;
    void wake() { if (active) asleep = false; }
    void go(int p) { a->setTransform(Transform(at(p), Quaternion::identity())); where = p; if (type != BodyType::STATIC) wake(); }
};
static void op(Scene& S, int o) {
    switch (o) {
        case 0: case 1: case 2: { BodyType t = o == 0 ? BodyType::STATIC : o == 1 ? BodyType::KINEMATIC : BodyType::DYNAMIC; if (S.type != t) { S.pending = 0; S.asleep = false; } S.type = t; S.a->setType(t); break; }
        case 3: if (S.active) S.pending = 0; S.a->setIsActive(false); S.active = false; S.asleep = false; break;
        case 4: if (!S.active) S.asleep = false; S.active = true; S.a->setIsActive(true); break;
        case 5: S.a->setIsSleeping(true); if (S.active && S.type != BodyType::STATIC) { if (!S.asleep) S.pending = 0; S.asleep = true; } break;
        case 6: S.a->setIsSleeping(false); S.asleep = false; break;
        case 7: if (S.active) { S.a->applyWorldForceAtCenterOfMass(Vector3(0, 0, 2)); if (S.type == BodyType::DYNAMIC) { S.asleep = false; S.pending++; } } break;
        case 8: if (S.active) { S.a->setLinearVelocity(Vector3(0, 0, 0.5f)); if (S.type != BodyType::STATIC) S.asleep = false; } break;
        case 9: S.go(1); break;
        case 10: S.go(0); break;
        case 11: S.step(); break;
        case 12: S.dy->setIsSleeping(true); S.dyAsleep = true; break;
        case 13: S.a->removeCollider(S.ca); S.ca = S.a->addCollider(S.s, Transform::identity()); S.ca->setCollideWithMaskBits(3); if (S.active && S.a->isActive()) S.asleep = S.a->isSleeping(); S.dyAsleep = S.dy->isSleeping(); break;
        case 14: if (S.active && S.type == BodyType::DYNAMIC) { S.a->setAngularVelocity(Vector3(0, 0, 0.5f)); S.asleep = false; S.a->setAngularVelocity(Vector3(0, 0, 0)); } break;
    }
    S.state();
}
static void finish(Scene& S) {
    S.ray(); S.query(); S.step(); S.state(); S.query(); S.ray();
    // alone, with a symbolic velocity: moves as a new body would
    float vx = sym_grid("vx", -8, 7, 1); float vy = sym_grid("vy", -8, 7, 1); S.go(1); S.state(); S.a->setAngularVelocity(Vector3(0, 0, 0)); S.a->setLinearVelocity(Vector3(vx, vy, 0)); if (S.active && S.type != BodyType::STATIC) { Vector3 v = S.a->getLinearVelocity(); sym_check((v.x == vx) & (v.y == vy), "velocity is not taken over"); } S.step(); S.state(); S.ray();
    // and collides as a new one would
    S.go(0); S.query(); S.step(); S.query(); S.ray(); S.state(); sym_observe_f("x", S.a->getTransform().getPosition().x); sym_observe("events", S.ev.n); sym_reach("end"); if (S.active) sym_reach("active"); else sym_reach("inactive");
}
static void history(int n, const int* ops, int nops) {
    int t = sym_pick("type", 0, 2), p = sym_pick("place", 0, 1), early = sym_pick("early", 0, 1); Scene S; S.build(t == 0 ? BodyType::DYNAMIC : t == 1 ? BodyType::KINEMATIC : BodyType::STATIC, p, t == 0 && p == 0 && early ? 0 : 0); if (early) S.step();
    for (int i = 0; i < n; i++) { int k = sym_pick("op", 0, nops - 1); op(S, ops[k]); } finish(S);
}
static const int ALL[15] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14 };
SYM_ENTRY(any2) { history(2, ALL, 15); }
static const int CORE[8] = { 0, 2, 3, 4, 5, 6, 11, 1 };
SYM_ENTRY(core) { history(RP_TIER ? 4 : 3, CORE, RP_TIER ? 8 : 7); }
