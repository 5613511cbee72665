// C08: start / stay / exit protocol of contact and trigger events, against the geometry known by construction.
#include "surfaces.h"
// Distances of the two colliders: 0 deep overlap, 1 close without touching (boxes of the broad phase overlap), 2 far
struct Scene {
    World W; Events ev; RigidBody* b[2]; Collider* c[2]; CollisionShape* s[2]; int kind = 0; int place = 0; float radius = 1; bool trig[2] = { false, false }, sim[2] = { true, true }, stat1 = false, active[2] = { true, true }, alive[2] = { true, true }, recent = false; bool was = false; bool fuzzy = false; Joint* joint = nullptr;
    Vector3 at(int p) const { return p == 0 ? Vector3(0.25f, 1.2f, 0.125f) : p == 1 ? (kind == 1 ? Vector3(0, 2.0625f, 0) : kind == 3 ? Vector3(1.875f, 2.5f, 0.5f) : Vector3(1.5f, 2.0f, 0.5f)) : Vector3(20, 20, 0); }
    bool asleep(int i) const { return b[i]->isSleeping() || b[i]->getType() == BodyType::STATIC; }
    bool touch() const {        // do the shapes touch and does the pair take part in the simulation?
        if (!alive[0] || !alive[1] || !active[0] || !active[1]) return false; bool part = (sim[0] || trig[0]) && (sim[1] || trig[1]); return part && place == 0 && radius == 1 && !joint;
    }
    void step() {
        bool frozen = !(alive[0] && alive[1]) || (asleep(0) && asleep(1)); int from = ev.n; W.step(1, 1.0f / 256); bool now = touch(); int k = (trig[0] || trig[1]) ? 1 : 0, t = -1;
        for (int i = from; i < ev.n; i++) sym_check((ev.e[i].c1 == c[0] && ev.e[i].c2 == c[1]) || (ev.e[i].c1 == c[1] && ev.e[i].c2 == c[0]), "event of colliders that do not exist");
        int n = ev.n - from; if (n) { t = ev.e[ev.n - 1].type; sym_check(ev.e[ev.n - 1].kind == k, "trigger reported as contact or contact reported as trigger"); } sym_check(n <= 1, "several events of one pair in one step");
        if (n) { Event& e = ev.e[ev.n - 1]; sym_check((e.c1 == c[0] && e.b1 == b[0] && e.b2 == b[1]) || (e.c1 == c[1] && e.b1 == b[1] && e.b2 == b[0]), "event names the wrong bodies"); if (k == 0 && t != 2) sym_check(e.npts > 0, "contact event without contact points"); if (t == 2) sym_check(e.npts == 0, "exit event with contact points"); }
        if (frozen) { sym_check(t != 0 && t != 1, "contact reported although both bodies are asleep or static"); if (t == 2) { sym_check(was && !now, "exit although the shapes still touch"); was = false; } return; }     // both bodies at rest: reporting is suspended
        if (fuzzy && now && was) { sym_check(t == 0 || t == 1, "touching pair is not reported after it became a trigger or stopped being one"); } else if (fuzzy && was) { sym_check(t == 2 || t == -1, "pair that does not touch is reported"); }
        else { int x = now ? (was ? 1 : 0) : (was ? 2 : -1); sym_check(t == x, x == 0 ? "start is missing or wrong" : x == 1 ? "stay is missing or wrong" : x == 2 ? "exit is missing or wrong" : "event although the shapes do not touch"); }
        was = now; fuzzy = false;
    }
    void moveA(int p) { place = p; Vector3 q = at(p); b[0]->setTransform(Transform(q, Quaternion::identity())); }
};
// types of the second body: 0 static 1 kinematic 2 dynamic heavy
static void make(Scene& S, int kind, int type, int order) {
    World& W = S.W; S.kind = kind; W.w->setEventListener(&S.ev); Tris T; S.s[0] = kind == 2 ? boxOf(W, Vector3(1, 1, 1)).s : sphereOf(W, 1).s; S.s[1] = kind == 0 ? sphereOf(W, 1).s : kind == 1 ? boxOf(W, Vector3(1, 1, 1)).s : kind == 2 ? solid(W, 4, 0.75f).s : (CollisionShape*)concaveOf(W, Vector3(1, 1, 1), T);
    for (int k = 0; k < 2; k++) { int i = order ? 1 - k : k; S.b[i] = W.w->createRigidBody(Transform(i ? Vector3(0, 0, 0) : S.at(S.place), Quaternion::identity())); S.b[i]->setType(i == 0 || type == 1 ? BodyType::KINEMATIC : type == 0 ? BodyType::STATIC : BodyType::DYNAMIC); S.c[i] = S.b[i]->addCollider(S.s[i], Transform::identity()); if (i && type == 2) { S.b[i]->setMass(1e9f); S.b[i]->setLocalInertiaTensor(Vector3(1e9f, 1e9f, 1e9f)); } }
}
static void queryAll(Scene& S) { Overlaps o; Contacts k; S.W.w->testOverlap(o); S.W.w->testCollision(k); if (S.alive[0] && S.alive[1]) S.W.w->testOverlap(S.b[0], S.b[1]); }
static void op(Scene& S, int o) {
    switch (o) {
        case 0: case 1: case 2: if (S.alive[0]) S.moveA(o); break;
        case 3: break;
        case 4: queryAll(S); break;
        case 5: for (int i = 0; i < 2; i++) if (S.alive[i]) S.b[i]->setIsSleeping(true); break;
        case 6: for (int i = 0; i < 2; i++) if (S.alive[i]) S.b[i]->setIsSleeping(false); break;
        case 7: { int i = 0; if (!S.alive[i]) break; S.trig[i] = !S.trig[i]; S.c[i]->setIsTrigger(S.trig[i]); S.sim[i] = false; if (!S.trig[i]) { S.c[i]->setIsSimulationCollider(true); S.sim[i] = true; } S.fuzzy = true; break; }
        case 8: { int i = 1; if (!S.alive[i]) break; S.sim[i] = !S.sim[i]; S.c[i]->setIsSimulationCollider(S.sim[i]); break; }
        case 9: if (!S.alive[0] || S.kind == 2) break; S.radius = S.radius == 1 ? 0.0625f : 1; static_cast<SphereShape*>(S.s[0])->setRadius(S.radius); if (S.kind == 0) break; break;
        case 10: if (S.alive[0]) { S.moveA(2); queryAll(S); S.moveA(0); } break;                 // away, looked at, and back within one step
        case 11: if (S.alive[0]) { S.moveA(0); queryAll(S); S.moveA(2); } break;
        case 16: if (S.joint) { S.W.w->destroyJoint(S.joint); S.joint = nullptr; } else { BallAndSocketJointInfo j(S.b[0], S.b[1], Vector3(0, 0, 0)); j.isCollisionEnabled = false; S.joint = S.W.w->createJoint(j); } break;
        case 12: { S.joint = nullptr; S.W.w->destroyRigidBody(S.b[1]); S.b[1] = S.W.w->createRigidBody(Transform::identity()); S.b[1]->setType(BodyType::KINEMATIC); S.c[1] = S.b[1]->addCollider(S.s[1], Transform::identity()); S.sim[1] = true; S.was = false; break; }      // destroyed and a new one in its place (identifiers are reused)
        case 13: { S.b[0]->removeCollider(S.c[0]); S.c[0] = S.b[0]->addCollider(S.s[0], Transform::identity()); S.trig[0] = false; S.sim[0] = true; S.was = false; break; }
        case 14: S.c[0]->setLocalToBodyTransform(Transform(Vector3(0, 0, 0), Quaternion::identity())); break;
        case 15: if (S.place == 0) { S.c[0]->setLocalToBodyTransform(Transform(Vector3(0, 30, 0), Quaternion::identity())); S.place = 3; } else if (S.place == 3) { S.c[0]->setLocalToBodyTransform(Transform::identity()); S.place = 0; } break;
    }
}
static bool skip(Scene& S, int o) { return S.place == 3 && (o <= 2 || o == 10 || o == 11 || o == 13 || o == 14); }
static void history(int n, int kind, int type, int order, const int* ops, int nops) {
    Scene S; S.place = sym_pick("start", 0, 2); make(S, kind, type, order); S.step();
    for (int i = 0; i < n; i++) { int o = ops[sym_pick("op", 0, nops - 1)]; if (!skip(S, o)) op(S, o); S.step(); }
    S.step(); sym_reach("end"); if (S.was) sym_reach("touching");
}
static const int ALL[17] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16 };
SYM_ENTRY(history2) { int kind = sym_pick("kind", 0, 3), type = sym_pick("type", 0, 2), order = sym_pick("order", 0, 1); history(2, kind, type, order, ALL, 17); }
SYM_ENTRY(history3) { int kind = sym_pick("kind", 0, 1), type = sym_pick("type", 0, RP_TIER ? 2 : 0); static const int O[9] = { 0, 1, 2, 4, 5, 6, 7, 8, 15 }; history(RP_TIER ? 4 : 3, kind, type, kind, O, 9); }
// two operations between two steps
SYM_ENTRY(pairs_of_ops) { int kind = sym_pick("kind", 0, RP_TIER ? 3 : 1), type = sym_pick("type", 0, 2); Scene S; make(S, kind, type, 0); S.step(); S.step(); for (int i = 0; i < 2; i++) { int o = sym_pick("op", 0, 16); if (!skip(S, o)) op(S, o); } S.step(); S.step(); sym_reach("end"); }
