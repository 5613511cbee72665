// C16: groups connected through contacts and joints fall asleep exactly when all their bodies were slow long enough, all at once; waking spreads to what is connected.
#include "surfaces.h"
static const float DT = 1.0f / 256; static const int MAXB = 5;
struct Scene {
    World W; int n; RigidBody *b[MAXB], *st = nullptr; Collider* c[MAXB]; int edge[MAXB][MAXB]; bool allowed[MAXB], asleep[MAXB]; float time[MAXB]; bool slow[MAXB]; float need; int steps = 0; bool enabled = true;
    Vector3 at(int i) const { static const float p[5][2] = { { 0, 0 }, { 1, 0.25f }, { 0.25f, 1.25f }, { -1, 0.5f }, { 0.5f, -1 } }; return Vector3(p[i][0], p[i][1], 0); }
    // edge: 0 none 1 contact 2 joint (slides along z, so the speeds along z are independent of each other)
    void build(int nb, bool withStatic, int order) {
        n = nb; CollisionShape* s = boxOf(W, Vector3(8, 8, 100)).s; W.w->setTimeBeforeSleep(2.5f * DT); need = 2.5f * DT; W.w->setSleepLinearVelocity(1.0f / 32); W.w->setSleepAngularVelocity(1.0f / 32);
        if (withStatic && order == 0) fixedBody(s);
        for (int k = 0; k < n; k++) { int i = order ? n - 1 - k : k; b[i] = W.w->createRigidBody(Transform(at(i), Quaternion::identity())); b[i]->setLinearLockAxisFactor(Vector3(0, 0, 1)); b[i]->setAngularLockAxisFactor(Vector3(0, 0, 0)); c[i] = b[i]->addCollider(s, Transform::identity()); c[i]->getMaterial().setFrictionCoefficient(0); c[i]->getMaterial().setBounciness(0); c[i]->setCollisionCategoryBits(1 << i); allowed[i] = true; asleep[i] = false; time[i] = 0; slow[i] = true; }
        if (withStatic && order) fixedBody(s);
        for (int i = 0; i < n; i++) { int m = withStatic ? 256 : 0; for (int k = 0; k < n; k++) if (k != i && edge[i][k] == 1) m |= 1 << k; c[i]->setCollideWithMaskBits((unsigned short)m); }
        for (int i = 0; i < n; i++) for (int k = i + 1; k < n; k++) if (edge[i][k] == 2) { bool f = (i + k) % 2; SliderJointInfo j(b[f ? k : i], b[f ? i : k], at(i), Vector3(0, 0, 1)); j.isCollisionEnabled = (i % 2) == 0; W.w->createJoint(j); }
    }
    void fixedBody(CollisionShape* s) { st = W.w->createRigidBody(Transform(Vector3(0.25f, 0.5f, 0), Quaternion::identity())); st->setType(BodyType::STATIC); Collider* k = st->addCollider(s, Transform::identity()); k->getMaterial().setFrictionCoefficient(0); k->setCollisionCategoryBits(256); k->getMaterial().setBounciness(0); }
    void step() {
        // model: groups reached from the awake bodies
        int g[MAXB]; bool in[MAXB]; for (int i = 0; i < n; i++) { g[i] = i; in[i] = !asleep[i]; }
        for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (i != k && (edge[i][k] == 2 || (edge[i][k] == 1 && !(asleep[i] && asleep[k])))) { if (in[i] || in[k]) { in[i] = in[k] = true; int m = g[i] < g[k] ? g[i] : g[k]; g[i] = g[k] = m; } }
        for (int i = 0; i < n; i++) if (asleep[i] && in[i]) { asleep[i] = false; time[i] = 0; }
        bool toSleep[MAXB]; for (int i = 0; i < n; i++) if (in[i]) { if (slow[i] && allowed[i]) time[i] += DT; else time[i] = 0; }
        for (int i = 0; i < n; i++) { toSleep[i] = in[i] && enabled; for (int k = 0; k < n; k++) if (in[i] && in[k] && g[i] == g[k] && !(time[k] >= need)) toSleep[i] = false; }
        W.step(1, DT); steps++;
        for (int i = 0; i < n; i++) {
            bool s = b[i]->isSleeping(); if (toSleep[i]) { asleep[i] = true; time[i] = 0; }
            sym_check(s == asleep[i], asleep[i] ? "a body whose whole group was slow long enough does not sleep" : "a body sleeps although its group is not ready, or was not woken by its group"); if (s) { Vector3 v = b[i]->getLinearVelocity(), w = b[i]->getAngularVelocity(), z(0, 0, 0); sym_check(eq3(v, z) & eq3(w, z), "a sleeping body has a velocity"); slow[i] = true; }
        }
    }
    void speed(int i, float v) { b[i]->setLinearVelocity(Vector3(0, 0, v)); if (asleep[i]) { asleep[i] = false; time[i] = 0; } slow[i] = v * 32 <= 1; }
    void wake(int i, int how) { if (how == 0) b[i]->setIsSleeping(false); else if (how == 1) b[i]->applyWorldForceAtCenterOfMass(Vector3(0, 0, 0.0078125f)); else if (how == 2) { Transform t = b[i]->getTransform(); b[i]->setTransform(t); } else speed(i, 0.0078125f); if (asleep[i]) { asleep[i] = false; time[i] = 0; } }
};
static void edges(Scene& S, int nb, int kinds) { for (int i = 0; i < nb; i++) for (int k = i + 1; k < nb; k++) { int e = sym_pick("edge", 0, kinds); S.edge[i][k] = S.edge[k][i] = e; } }
// every graph over three bodies (and a static one); symbolic speeds of two of them
SYM_ENTRY(graphs) {
    Scene S; edges(S, 3, 2); bool withStatic = sym_pick("static", 0, 1); int order = sym_pick("order", 0, 1); S.build(3, withStatic, order);
    float k0 = sym_grid("speed", 0, 3, 0), k1 = sym_grid("speed", 0, 3, 0); bool al = sym_pick("allowed", 0, 1); S.allowed[2] = al; S.b[2]->setIsAllowedToSleep(al);
    S.speed(0, (k0 + 0.5f) / 64); S.step(); S.step(); S.speed(1, (k1 + 0.5f) / 64); S.step(); S.step(); S.step(); S.speed(0, 0.0078125f); S.step(); S.step(); S.step(); S.step(); sym_observe("sleep", S.asleep[0] + 2 * S.asleep[1] + 4 * S.asleep[2]); sym_observe_f("x", S.b[0]->getTransform().getPosition().x); sym_reach("end"); if (S.asleep[0]) sym_reach("asleep");
}
// everybody asleep, then one body is woken in one of four ways, and again once all sleep
SYM_ENTRY(waking) {
    Scene S; int nb = RP_TIER ? 4 : 3; edges(S, nb, 2); bool withStatic = sym_pick("static", 0, 1); S.build(nb, withStatic, 0); for (int i = 0; i < 4; i++) S.step(); for (int i = 0; i < nb; i++) sym_check(S.asleep[i], "slow bodies do not fall asleep");
    for (int r = 0; r < 2; r++) { int who = sym_pick("who", 0, nb - 1), how = r ? 0 : sym_pick("how", 0, 3); S.wake(who, how); for (int i = 0; i < (r ? 3 : 7); i++) S.step(); } sym_observe("sleep", S.asleep[0] + 2 * S.asleep[1] + 4 * S.asleep[2]); sym_observe_f("x", S.b[0]->getTransform().getPosition().x); sym_reach("end");
}
// bodies are woken in the middle of their way to sleep, permission or world switch changes
SYM_ENTRY(permissions) {
    Scene S; edges(S, 3, 2); S.build(3, sym_pick("static", 0, 1), 0); int when = sym_pick("when", 0, 3), what = sym_pick("what", 0, 3), who = sym_pick("who", 0, 2);
    for (int i = 0; i < 8; i++) { if (i == when) { if (what == 0) { S.b[who]->setIsAllowedToSleep(false); S.allowed[who] = false; } if (what == 0 && S.asleep[who]) { S.asleep[who] = false; S.time[who] = 0; } if (what == 1) { S.W.w->enableSleeping(false); S.enabled = false; for (int k = 0; k < 3; k++) { S.asleep[k] = false; S.time[k] = 0; } } if (what == 2) S.speed(who, 0.25f); if (what == 3) { S.b[who]->setIsSleeping(true); S.asleep[who] = true; S.time[who] = 0; S.slow[who] = true; } } if (i == when + 2 && what == 0) { S.b[who]->setIsAllowedToSleep(true); S.allowed[who] = true; } S.step(); }
    sym_observe("sleep", S.asleep[0] + 2 * S.asleep[1] + 4 * S.asleep[2]); sym_observe_f("x", S.b[0]->getTransform().getPosition().x); sym_reach("end");
}
// a chain of five bodies with one fast end
SYM_ENTRY(chain) {
    Scene S; for (int i = 0; i < 5; i++) for (int k = 0; k < 5; k++) S.edge[i][k] = 0; int kind = sym_pick("kind", 1, 2), cut = sym_pick("cut", 0, 4), order = sym_pick("order", 0, 1); for (int i = 0; i < 4; i++) if (i != cut) S.edge[i][i + 1] = S.edge[i + 1][i] = (i % 2) ? kind : 3 - kind; S.build(5, true, order);
    int who = sym_pick("who", 0, 4); float k0 = sym_grid("speed", 0, 7, 0); S.speed(who, (k0 + 0.5f) / 128); for (int i = 0; i < 4; i++) S.step(); S.speed(who, 0.0078125f); for (int i = 0; i < 4; i++) S.step(); int w = sym_pick("wake", 0, 4); S.wake(w, 0); for (int i = 0; i < 8; i++) S.step(); sym_observe("sleep", S.asleep[0] + 2 * S.asleep[1] + 4 * S.asleep[2]); sym_observe_f("x", S.b[0]->getTransform().getPosition().x); sym_reach("end");
}
