// C19: life time of joints: cascade on destruction of bodies, collision between jointed bodies, effect of joints that exist and of no other.
#include "surfaces.h"
static const int NB = 3, MAXJ = 6;
static Vector3 place(int i) { return Vector3(i == 1 ? 1.0f : i == 2 ? 0.5f : 0.0f, i == 2 ? 0.75f : 0.0f, 0.125f * i); }
struct Scene {
    World W; Events ev; RigidBody* b[NB]; Collider* c[NB]; CollisionShape* s; bool trig; BodyType ty[NB]; int nj = 0; Joint* j[MAXJ]; int ja[MAXJ], jb[MAXJ], jk[MAXJ]; bool jc[MAXJ]; bool was[3]; int made = 0;
    void body(int i) { b[i] = W.w->createRigidBody(Transform(place(i), Quaternion::identity())); b[i]->setType(ty[i]); c[i] = b[i]->addCollider(s, Transform::identity()); if (trig) c[i]->setIsTrigger(true); for (int p = 0; p < 3; p++) if (pa(p) == i || pb(p) == i) was[p] = false; }
    static int pa(int p) { return p == 2 ? 1 : 0; } static int pb(int p) { return p == 0 ? 1 : 2; }
    void create(int a, int d, int kind, bool coll) {
        if (nj == MAXJ) return; Vector3 anchor = (place(a) + place(d)) * 0.5f; Joint* x;
        if (kind == 0) { BallAndSocketJointInfo q(b[a], b[d], anchor); q.isCollisionEnabled = coll; x = W.w->createJoint(q); }
        else if (kind == 1) { FixedJointInfo q(b[a], b[d], anchor); q.isCollisionEnabled = coll; x = W.w->createJoint(q); }
        else if (kind == 2) { HingeJointInfo q(b[a], b[d], anchor, Vector3(0, 0, 1)); q.isCollisionEnabled = coll; x = W.w->createJoint(q); }
        else { SliderJointInfo q(b[a], b[d], anchor, Vector3(0, 1, 0)); q.isCollisionEnabled = coll; x = W.w->createJoint(q); }
        sym_check((x->getBody1() == b[a]) & (x->getBody2() == b[d]), "joint names the wrong bodies"); sym_check(x->isCollisionEnabled() == coll, "collision flag of the joint");
        for (int k = 0; k < nj; k++) sym_check(j[k] != x, "two live joints share storage"); j[nj] = x; ja[nj] = a; jb[nj] = d; jk[nj] = kind; jc[nj] = coll; nj++;
    }
    void drop(int k) { nj--; for (int i = k; i < nj; i++) { j[i] = j[i + 1]; ja[i] = ja[i + 1]; jb[i] = jb[i + 1]; jk[i] = jk[i + 1]; jc[i] = jc[i + 1]; } }
    void destroy(int k) { int a = ja[k], d = jb[k]; W.w->destroyJoint(j[k]); drop(k); sym_check(!b[a]->isSleeping() && !b[d]->isSleeping(), "destroying a joint does not wake its bodies"); }
    void kill(int i) {
        bool near[NB] = { false, false, false }; for (int k = nj - 1; k >= 0; k--) if (ja[k] == i || jb[k] == i) { near[ja[k] == i ? jb[k] : ja[k]] = true; drop(k); }
        W.w->destroyRigidBody(b[i]); for (int q = 0; q < NB; q++) if (near[q]) sym_check(!b[q]->isSleeping(), "destroying a body does not wake the bodies jointed to it"); body(i);
    }
    bool forbidden(int p) const { for (int k = 0; k < nj; k++) if (((ja[k] == pa(p) && jb[k] == pb(p)) || (ja[k] == pb(p) && jb[k] == pa(p))) && !jc[k]) return true; return false; }
    void step() {
        bool frozen[3]; for (int p = 0; p < 3; p++) frozen[p] = (b[pa(p)]->isSleeping() || ty[pa(p)] == BodyType::STATIC) && (b[pb(p)]->isSleeping() || ty[pb(p)] == BodyType::STATIC);
        int from = ev.n; W.step(1, 1.0f / 256); int tot = 0;
        for (int p = 0; p < 3; p++) {
            int t = -1, n = ev.count(c[pa(p)], c[pb(p)], trig ? 1 : 0, &t, from); tot += n; sym_check(n <= 1, "several events of one pair in one step"); if (!n) t = -1; bool now = !forbidden(p);
            if (frozen[p]) { sym_check(t != 0 && t != 1, "event between bodies at rest"); if (t == 2) { sym_check(!now && was[p], "exit although the bodies may collide"); was[p] = false; } continue; }
            int x = now ? (was[p] ? 1 : 0) : (was[p] ? 2 : -1); sym_check(t == x, now ? "bodies that may collide do not" : "bodies collide although a joint forbids it"); was[p] = now;
        }
        sym_check(ev.n - from == tot, "event of unknown colliders");
        for (int k = 0; k < nj; k++) sym_check((j[k]->getBody1() == b[ja[k]]) & (j[k]->getBody2() == b[jb[k]]), "joint lost its bodies");
    }
    // moving body 0 drags exactly the bodies that a joint connects to it
    void drag(float v) {
        for (int i = 0; i < NB; i++) if (ty[i] != BodyType::STATIC) { b[i]->setTransform(Transform(place(i), Quaternion::identity())); b[i]->setAngularVelocity(Vector3(0, 0, 0)); b[i]->setLinearVelocity(Vector3(i == 0 ? v : 0, 0, i == 0 ? 3 : 0)); }
        int g[NB]; for (int i = 0; i < NB; i++) g[i] = i; for (int r = 0; r < NB; r++) for (int k = 0; k < nj; k++) { if (ty[ja[k]] == BodyType::STATIC || ty[jb[k]] == BodyType::STATIC) continue; int m = g[ja[k]] < g[jb[k]] ? g[ja[k]] : g[jb[k]]; g[ja[k]] = g[jb[k]] = m; }
        W.w->setNbIterationsVelocitySolver(40); step();
        for (int i = 0; i < NB; i++) { Vector3 l = b[i]->getLinearVelocity(); observe3("v", l); bool lone = true; for (int k = 0; k < nj; k++) if (ja[k] == i || jb[k] == i) lone = false; if (lone && ty[i] != BodyType::STATIC) sym_check((l.x == (i == 0 ? v : 0)) & (l.y == 0) & (l.z == (i == 0 ? 3 : 0)), "a body without joints is dragged along"); if (ty[i] == BodyType::STATIC) sym_check((l.x == 0) & (l.y == 0) & (l.z == 0), "a static body moves"); }
        // velocities of both bodies at the anchor agree in the directions the joint holds
        for (int k = 0; k < nj; k++) {
            int a = ja[k], d = jb[k]; Vector3 m = (place(a) + place(d)) * 0.5f; Vector3 va = b[a]->getLinearVelocity() + b[a]->getAngularVelocity().cross(m - place(a)), vd = b[d]->getLinearVelocity() + b[d]->getAngularVelocity().cross(m - place(d)); Vector3 r = va - vd; if (jk[k] == 3) r.y = 0;
            sym_check((absd(r.x) < 0.08) & (absd(r.y) < 0.08) & (absd(r.z) < 0.08), "an existing joint does not hold its bodies together");
        }
    }
};
static void make(Scene& S, bool trig, int types) { S.trig = trig; S.W.w->setEventListener(&S.ev); S.s = sphereOf(S.W, trig ? 1.0f : 8.0f).s; for (int i = 0; i < NB; i++) { S.ty[i] = types == 1 && i == 1 ? BodyType::STATIC : BodyType::DYNAMIC; } for (int i = 0; i < NB; i++) S.body(i); for (int p = 0; p < 3; p++) S.was[p] = false; }
static void op(Scene& S, int o) {
    if (o < 6) { int p = o % 3; S.create(Scene::pa(p), Scene::pb(p), S.made++ % 4, o >= 3); }
    else if (o < 9) S.kill(o - 6);
    else if (o < 11) { if (S.nj) S.destroy(o == 9 ? 0 : S.nj - 1); }
    else if (o == 11) { for (int i = 0; i < NB; i++) if (S.ty[i] != BodyType::STATIC) S.b[i]->setIsSleeping(true); }
    else if (o == 12) { S.b[0]->setIsSleeping(true); }
    else if (o == 13) { if (S.ty[1] != BodyType::STATIC) S.b[1]->setIsSleeping(true); }
    else if (o == 14) { for (int i = 0; i < NB; i++) S.b[i]->setIsSleeping(false); }
    else S.step();
}
static void history(int n, int first, int nops) {
    bool trig = sym_pick("trigger", 0, 1); int types = sym_pick("types", 0, 1), kind = sym_pick("kind", 0, 3); Scene S; make(S, trig, types); S.made = kind;
    op(S, first); if (sym_pick("stepped", 0, 1)) S.step();
    for (int i = 0; i < n; i++) { int o = sym_pick("op", 0, nops); op(S, o); }
    S.step(); if (trig) { float v = 0.25f * sym_range("v", -8, 7); S.drag(v); } sym_reach("end");
}
SYM_ENTRY(first_no_collision) { history(RP_TIER ? 3 : 2, 0, 15); }
SYM_ENTRY(first_collision) { history(RP_TIER ? 3 : 2, 3, 15); }
// several joints between the same bodies
SYM_ENTRY(several_joints) {
    bool trig = sym_pick("trigger", 0, 1); int types = sym_pick("types", 0, 1), n = sym_pick("n", 1, 4); Scene S; make(S, trig, types); bool early = sym_pick("stepped", 0, 1); if (early) S.step();
    for (int i = 0; i < n; i++) { bool coll = sym_pick("coll", 0, 1), flip = i % 2; S.create(flip ? 1 : 0, flip ? 0 : 1, (i + 1) % 4, coll); } S.create(1, 2, 0, false); S.step();
    bool sl = sym_pick("asleep", 0, 1); if (sl) op(S, 11); if (sl) S.step();
    int how = sym_pick("how", 0, 3); if (how == 3) S.kill(sym_pick("who", 0, 2)); else { for (int i = 0; i < n; i++) { if (how == 0) S.destroy(0); else if (how == 1) S.destroy(S.nj - 1); else S.destroy(S.nj / 2); S.step(); } }
    S.step(); S.step(); sym_reach("end");
}
// many joints on one body: the lists of joints grow; then the body in the middle is destroyed, asleep or awake, among bodies in a different order
SYM_ENTRY(hub) {
    World W; Solid s = sphereOf(W, 1); RigidBody* b[8]; Joint* j[8]; int hubAt = sym_pick("hub", 0, 7), sleepers = sym_pick("sleep", 0, 3), kind = sym_pick("kind", 0, 3); for (int i = 0; i < 8; i++) { b[i] = W.w->createRigidBody(Transform(Vector3(3.0f * i, 0, 0), Quaternion::identity())); if (i % 2) b[i]->addCollider(s.s, Transform::identity()); }
    int n = 0; for (int i = 0; i < 8; i++) if (i != hubAt) { Vector3 an = b[hubAt]->getTransform().getPosition(); bool flip = i % 3 == 1; RigidBody *p = flip ? b[i] : b[hubAt], *q = flip ? b[hubAt] : b[i]; int k = (kind + i) % 4;
        if (k == 0) { BallAndSocketJointInfo f(p, q, an); j[n++] = W.w->createJoint(f); } else if (k == 1) { FixedJointInfo f(p, q, an); j[n++] = W.w->createJoint(f); } else if (k == 2) { HingeJointInfo f(p, q, an, Vector3(0, 0, 1)); j[n++] = W.w->createJoint(f); } else { SliderJointInfo f(p, q, an, Vector3(0, 1, 0)); j[n++] = W.w->createJoint(f); } }
    W.step(); for (int i = 0; i < 8; i++) if (sleepers == 1 || (sleepers == 2 && i == hubAt) || (sleepers == 3 && i != hubAt)) b[i]->setIsSleeping(true); if (sym_pick("stepped", 0, 1)) W.step();
    int order = sym_pick("destroy", 0, 2); if (order == 1) W.w->destroyJoint(j[3]); if (order == 2) { int o = hubAt == 4 ? 5 : 4; W.w->destroyRigidBody(b[o]); b[o] = nullptr; }
    W.w->destroyRigidBody(b[hubAt]); b[hubAt] = nullptr; for (int i = 0; i < 8; i++) if (b[i]) sym_check(!b[i]->isSleeping(), "a body jointed to a destroyed body stays asleep");
    sym_check(W.w->getNbRigidBodies() == (order == 2 ? 6u : 7u), "number of bodies"); float v = 0.5f * sym_range("v", -4, 3); for (int i = 0; i < 8; i++) if (b[i]) b[i]->setLinearVelocity(Vector3(0, v, (float)i)); W.step();
    for (int i = 0; i < 8; i++) if (b[i]) { Vector3 l = b[i]->getLinearVelocity(); sym_check((l.x == 0) & (l.y == v) & (l.z == (float)i), "a destroyed joint still acts"); } sym_reach("end");
}
