// C32: what a user sets on worlds, bodies, colliders and joints reads back and stays, for that object only, whatever happens around it; settings given at creation take effect.
#include "shapes.h"
// a value: any positive float, or (where the library computes with it in steps) a distinct number
struct Gen { bool conc; int k = 0; float pos() { k++; if (conc) return 1 + (k % 41) * 0.03125f; float v = sym_f32("v"); sym_assume((v >= 0.0009765625f) & (v <= 1048576.0f)); return v; }
    Vector3 vec() { Vector3 r; r.x = pos(); r.y = pos(); r.z = pos(); return r; } float unit() { k++; if (conc) return (k % 17) * 0.0625f; float v = sym_f32("u"); sym_assume((v >= 0) & (v <= 1)); return v; }
    bool flag() { k++; return conc ? ((k * 7) >> 1) & 1 : sym_bool("flag"); } float sq() { k++; float g = conc ? (float)(k % 13) * 0.25f : sym_grid("sqrt", 0, 7, 2); return g * g; } float angle() { k++; if (conc) return 0.0625f + (k % 23) * 0.0625f; float v = sym_f32("a"); sym_assume((v >= 0) & (v <= 3)); return v; } unsigned short bits() { k++; return conc ? (unsigned short)(k * 2654435761u >> 7) : (unsigned short)sym_bits("bits", 16); } };
static void* tag(int i) { static char t[64]; return t + i; }
struct ColliderModel { Collider* c = nullptr; CollisionShape* s; void* user; unsigned short cat, mask; bool trig, sim, query; float fric, bounce, density; Vector3 at; };
struct BodyModel { RigidBody* b = nullptr; BodyType type; bool active, gravity, maySleep, debug; float lin, ang, mass; Vector3 lockL, lockA, inertia, com; void* user; ColliderModel c[3]; int n = 0; };
struct WorldModel { PhysicsWorld* w; Vector3 g; bool gravity, sleeping, debug; float sl, sa, time, fric, bounce; int nv, np; };
static const BodyType TY[3] = { BodyType::DYNAMIC, BodyType::STATIC, BodyType::KINEMATIC };
struct Sim {
    World W; Gen G; WorldModel w[2]; BodyModel b[4]; CollisionShape *s1, *s2; int nb = 0;
    Sim(bool conc) { G.conc = conc; G.k = 0; s1 = sphereOf(W, 1).s; s2 = boxOf(W, Vector3(1, 0.5f, 0.25f)).s; makeWorld(0); makeWorld(1); }
    ~Sim() { W.pc.destroyPhysicsWorld(w[0].w); W.pc.destroyPhysicsWorld(w[1].w); }
    void makeWorld(int i) {
        PhysicsWorld::WorldSettings s; WorldModel& m = w[i]; s.worldName = i ? "second" : "first"; s.gravity = m.g = G.vec(); s.isSleepingEnabled = m.sleeping = G.flag(); s.defaultSleepLinearVelocity = m.sl = G.pos(); s.defaultSleepAngularVelocity = m.sa = G.pos(); s.defaultTimeBeforeSleep = m.time = G.pos(); s.defaultVelocitySolverNbIterations = (uint16)(m.nv = G.bits()); s.defaultPositionSolverNbIterations = (uint16)(m.np = G.bits()); s.defaultFrictionCoefficient = m.fric = G.sq(); s.defaultBounciness = m.bounce = G.unit(); if (G.conc) { s.defaultVelocitySolverNbIterations = (uint16)(m.nv = 2); s.defaultPositionSolverNbIterations = (uint16)(m.np = 1); } m.gravity = true; m.debug = false; m.w = W.pc.createPhysicsWorld(s);
    }
    ColliderModel fresh(Collider* c, CollisionShape* s, const Vector3& at) { ColliderModel m; m.c = c; m.s = s; m.user = nullptr; m.cat = 1; m.mask = 0xFFFF; m.trig = false; m.sim = true; m.query = true; m.fric = w[0].fric; m.bounce = w[0].bounce; m.density = 1; m.at = at; return m; }
    void addCollider(BodyModel& m) { CollisionShape* s = m.n ? s2 : s1; Vector3 at(m.n * 2.0f, 0, 0); m.c[m.n] = fresh(m.b->addCollider(s, Transform(at, Quaternion::identity())), s, at); m.n++; }
    void makeBody(int i) { BodyModel& m = b[i]; m.b = w[0].w->createRigidBody(Transform(Vector3(20.0f * i, 0, 0), Quaternion::identity())); m.type = BodyType::DYNAMIC; m.active = m.gravity = m.maySleep = true; m.debug = false; m.lin = m.ang = 0; m.mass = 1; m.lockL = m.lockA = m.inertia = Vector3(1, 1, 1); m.com = Vector3(0, 0, 0); m.user = nullptr; m.n = 0; addCollider(m); if (i & 1) addCollider(m); }
    void removeCollider(BodyModel& m, int k) { m.b->removeCollider(m.c[k].c); for (int i = k + 1; i < m.n; i++) m.c[i - 1] = m.c[i]; m.n--; }
    // sets one thing; which of NSET
    static const int NBODY = 11, NCOL = 10, NWORLD = 10, NSET = NBODY + NCOL + NWORLD;
    void set(int which, int bi, int ci, int wi) {
        if (which < NBODY) { BodyModel& m = b[bi]; if (!m.b) return; switch (which) {
            case 0: m.b->setLinearDamping(m.lin = G.unit()); break; case 1: m.b->setAngularDamping(m.ang = G.unit()); break; case 2: m.b->enableGravity(m.gravity = G.flag()); break; case 3: m.maySleep = G.flag(); if (!G.conc) m.maySleep = sym_concretize(m.maySleep); if (!m.active && !m.maySleep) m.maySleep = true; m.b->setIsAllowedToSleep(m.maySleep); break;
            case 4: m.b->setLinearLockAxisFactor(m.lockL = G.vec()); break; case 5: m.b->setAngularLockAxisFactor(m.lockA = G.vec()); break; case 6: m.b->setMass(m.mass = G.pos()); break; case 7: m.b->setLocalInertiaTensor(m.inertia = G.vec()); break; case 8: m.b->setLocalCenterOfMass(m.com = G.vec()); break; case 9: m.user = tag(bi); m.b->setUserData(m.user); break; case 10: m.debug = G.flag(); m.b->setIsDebugEnabled(m.debug); break; } return; }
        which -= NBODY; if (which < NCOL) { BodyModel& o = b[bi]; if (!o.b || ci >= o.n) return; ColliderModel& m = o.c[ci]; switch (which) {
            case 0: m.user = tag(8 + 4 * bi + ci); m.c->setUserData(m.user); break; case 1: m.c->setCollisionCategoryBits(m.cat = G.bits()); break; case 2: m.c->setCollideWithMaskBits(m.mask = G.bits()); break;
            case 3: m.trig = !m.trig; m.c->setIsTrigger(m.trig); if (m.trig) m.sim = false; break; case 4: m.sim = !m.sim; m.c->setIsSimulationCollider(m.sim); if (m.sim) m.trig = false; break; case 5: m.query = !m.query; m.c->setIsWorldQueryCollider(m.query); break;
            case 6: m.c->getMaterial().setFrictionCoefficient(m.fric = G.sq()); break; case 7: m.c->getMaterial().setBounciness(m.bounce = G.unit()); break; case 8: m.c->getMaterial().setMassDensity(m.density = G.pos()); break;
            case 9: { BodyModel& q = b[(bi + 1) % 3]; if (!q.b || !q.n) return; m.c->setMaterial(q.c[0].c->getMaterial()); m.fric = q.c[0].fric; m.bounce = q.c[0].bounce; m.density = q.c[0].density; break; } } return; }
        which -= NCOL; WorldModel& m = w[wi]; switch (which) {
            case 0: m.w->setGravity(m.g = G.vec()); break; case 1: m.w->setIsGravityEnabled(m.gravity = G.flag()); break; case 2: m.w->enableSleeping(m.sleeping = G.flag()); break; case 3: m.w->setSleepLinearVelocity(m.sl = G.pos()); break; case 4: m.w->setSleepAngularVelocity(m.sa = G.pos()); break; case 5: m.w->setTimeBeforeSleep(m.time = G.pos()); break;
            case 6: if (G.conc) m.nv++; else m.nv = G.bits(); m.w->setNbIterationsVelocitySolver((uint16)m.nv); break; case 7: if (G.conc) m.np++; else m.np = G.bits(); m.w->setNbIterationsPositionSolver((uint32)m.np); break; case 8: m.debug = G.flag(); if (!G.conc) m.debug = sym_concretize(m.debug); m.w->setIsDebugRenderingEnabled(m.debug); break; case 9: m.w->setContactsPositionCorrectionTechnique(ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS); break; }
    }
    static bool same(const Vector3& a, const Vector3& e) { return eq3(a, e); }
    void check() {
        int nbodies = 0; for (int i = 0; i < nb; i++) nbodies += b[i].b != nullptr;
        for (int i = 0; i < 2; i++) { WorldModel& m = w[i]; sym_check(same(m.w->getGravity(), m.g), "gravity of the world"); sym_check(m.w->isGravityEnabled() == m.gravity, "gravity switch of the world"); sym_check(m.w->isSleepingEnabled() == m.sleeping, "sleeping switch of the world"); sym_check(m.w->getSleepLinearVelocity() == m.sl, "sleep linear velocity"); sym_check(m.w->getSleepAngularVelocity() == m.sa, "sleep angular velocity"); sym_check(m.w->getTimeBeforeSleep() == m.time, "time before sleep"); sym_check(m.w->getNbIterationsVelocitySolver() == m.nv, "iterations of the velocity solver"); sym_check(m.w->getNbIterationsPositionSolver() == m.np, "iterations of the position solver"); sym_check(m.w->getIsDebugRenderingEnabled() == m.debug, "debug rendering switch"); sym_check(m.w->getName() == (i ? "second" : "first"), "name of the world"); sym_check((int)m.w->getNbRigidBodies() == (i ? 0 : nbodies), "number of bodies"); }
        for (int i = 0; i < nb; i++) if (b[i].b) { BodyModel& m = b[i]; RigidBody* x = m.b; int in = 0; for (int k = 0; k < nbodies; k++) in += w[0].w->getRigidBody(k) == x; sym_check(in == 1, "list of bodies");
            sym_check(x->getType() == m.type, "type"); sym_check(x->isActive() == m.active, "activity"); sym_check(x->isGravityEnabled() == m.gravity, "gravity switch of the body"); sym_check(x->isAllowedToSleep() == m.maySleep, "permission to sleep"); sym_check(x->isDebugEnabled() == m.debug, "debug switch"); sym_check(x->getLinearDamping() == m.lin, "linear damping"); sym_check(x->getAngularDamping() == m.ang, "angular damping"); sym_check(x->getMass() == m.mass, "mass"); sym_check(same(x->getLinearLockAxisFactor(), m.lockL), "linear lock factors"); sym_check(same(x->getAngularLockAxisFactor(), m.lockA), "angular lock factors"); sym_check(same(x->getLocalInertiaTensor(), m.inertia), "inertia tensor"); sym_check(same(x->getLocalCenterOfMass(), m.com), "center of mass"); sym_check(x->getUserData() == m.user, "user data of the body"); sym_check((int)x->getNbColliders() == m.n, "number of colliders");
            for (int k = 0; k < m.n; k++) { ColliderModel& q = m.c[k]; Collider* c = q.c; int at = 0; for (int j = 0; j < m.n; j++) at += x->getCollider(j) == c; sym_check(at == 1, "list of colliders"); sym_check(c->getBody() == x, "body of the collider"); sym_check(c->getCollisionShape() == q.s, "shape of the collider"); sym_check(c->getUserData() == q.user, "user data of the collider"); sym_check(c->getCollisionCategoryBits() == q.cat, "category bits"); sym_check(c->getCollideWithMaskBits() == q.mask, "mask bits"); sym_check(c->getIsTrigger() == q.trig, "trigger flag"); sym_check(c->getIsSimulationCollider() == q.sim, "simulation flag"); sym_check(c->getIsWorldQueryCollider() == q.query, "query flag"); Material& t = c->getMaterial(); sym_check(near1(t.getFrictionCoefficient(), q.fric, 1e-5f), "friction coefficient"); sym_check(t.getBounciness() == q.bounce, "bounciness"); sym_check(t.getMassDensity() == q.density, "density"); sym_check(same(c->getLocalToBodyTransform().getPosition(), q.at), "local transform"); } }
    }
    // something else that happens; which of NOPS. true: it was done
    static const int NOPS = 12;
    void op(int o, int bi) {
        BodyModel& m = b[bi]; switch (o) {
            case 0: if (m.b) { w[0].w->destroyRigidBody(m.b); m.b = nullptr; } break; case 1: if (nb < 4) { nb++; makeBody(nb - 1); } break; case 2: if (m.b) { m.active = !m.active; m.b->setIsActive(m.active); } break; case 3: case 4: case 5: if (m.b) m.b->setType(m.type = TY[o - 3]); break;
            case 6: if (m.b && m.n < 3) addCollider(m); break; case 7: if (m.b && m.n) removeCollider(m, 0); break; case 8: if (m.b && m.active) m.b->setIsSleeping(!m.b->isSleeping()); break; case 9: w[0].w->update(1.0f / 64); break; case 10: if (m.b) { Vector3 at(0.5f, -0.25f, 30.0f); m.b->setTransform(Transform(at, rotq(4))); } break;
            case 11: if (m.b && m.n) { ColliderModel& q = m.c[m.n - 1]; q.at = Vector3(0.25f, 1, -0.5f); q.c->setLocalToBodyTransform(Transform(q.at, rotq(5))); } break; }
    }
    void populate(int order) { nb = 3; for (int i = 0; i < 3; i++) makeBody(i); if (order & 1) for (int i = 0; i < 3; i++) b[i].b->setType(b[i].type = TY[(i + order) % 3]); if (order & 2) b[1].b->setIsActive(b[1].active = false); for (int i = 0; i < 3; i++) for (int s = 0; s < NBODY; s++) set(s, i, 0, 0); for (int i = 0; i < 3; i++) for (int c = 0; c < b[i].n; c++) for (int s = 0; s < NCOL - 1; s++) if ((i + s + c) % 2 || s > 5) set(NBODY + s, i, c, 0); }
};
// one thing is set on one object of a world in which everything has some value; nothing else changes
SYM_ENTRY(setters) {
    int s = sym_pick("set", 0, Sim::NSET - 1), t = sym_pick("target", 0, 2), o = RP_TIER ? sym_pick("order", 0, 3) : (s + t) % 4; Sim S(false); S.check(); S.populate(o); S.check(); S.set(s, t, (s + t) % 2 ? S.b[t].n - 1 : 0, t % 2); S.check(); S.set((s + 1 + t) % Sim::NSET, (t + 1) % 3, 0, (t + 1) % 2); S.check(); sym_reach("end");
}
// histories of other operations
SYM_ENTRY(history) {
    int n = RP_TIER ? 3 : 2, o = sym_pick("order", 0, 3), op[3], t[3]; bool conc = false; for (int i = 0; i < n; i++) { op[i] = sym_pick("op", 0, Sim::NOPS - 1); t[i] = i == 2 ? (op[0] + op[1] + t[0]) % 3 : RP_TIER || i == 0 ? sym_pick("target", 0, 2) : (t[0] + op[0] + op[1]) % 3; conc |= op[i] == 9; } Sim S(conc); S.populate(o); S.check(); for (int i = 0; i < n; i++) { S.op(op[i], t[i]); S.check(); } for (int i = 0; i < 3; i++) S.set((op[0] * 7 + op[1] * 3 + i) % Sim::NSET, (t[0] + i) % 3, 0, i % 2); S.check(); S.op(9 * conc, t[1]); S.check(); sym_reach("end");
}
// joints: two of each kind
struct JointModel { Joint* j = nullptr; JointType type; RigidBody *a, *b; bool coll, limit, motor; float lo, hi, speed, max; };
static void checkJoint(JointModel& m) {
    sym_check(m.j->getType() == m.type, "type of the joint"); sym_check(m.j->getBody1() == m.a && m.j->getBody2() == m.b, "bodies of the joint"); sym_check(m.j->isCollisionEnabled() == m.coll, "collision flag of the joint");
    if (m.type == JointType::BALLSOCKETJOINT) { auto j = (BallAndSocketJoint*)m.j; sym_check(j->isConeLimitEnabled() == m.limit, "cone switch"); sym_check(j->getConeLimitHalfAngle() == m.hi, "cone angle"); }
    if (m.type == JointType::HINGEJOINT) { auto j = (HingeJoint*)m.j; sym_check(j->isLimitEnabled() == m.limit, "limit switch of a hinge"); sym_check(j->isMotorEnabled() == m.motor, "motor switch of a hinge"); sym_check(j->getMinAngleLimit() == m.lo, "lower limit of a hinge"); sym_check(j->getMaxAngleLimit() == m.hi, "upper limit of a hinge"); sym_check(j->getMotorSpeed() == m.speed, "motor speed of a hinge"); sym_check(j->getMaxMotorTorque() == m.max, "motor torque of a hinge"); }
    if (m.type == JointType::SLIDERJOINT) { auto j = (SliderJoint*)m.j; sym_check(j->isLimitEnabled() == m.limit, "limit switch of a slider"); sym_check(j->isMotorEnabled() == m.motor, "motor switch of a slider"); sym_check(j->getMinTranslationLimit() == m.lo, "lower limit of a slider"); sym_check(j->getMaxTranslationLimit() == m.hi, "upper limit of a slider"); sym_check(j->getMotorSpeed() == m.speed, "motor speed of a slider"); sym_check(j->getMaxMotorForce() == m.max, "motor force of a slider"); }
}
static JointModel makeJoint(World& W, Gen& G, int kind, RigidBody* a, RigidBody* b, int form) {      // form: 0 plain, 1 limits, 2 limits and motor; +3 with local anchors
    JointModel m; m.a = a; m.b = b; m.limit = m.motor = false; m.lo = -1; m.hi = 1; m.speed = m.max = 0; bool local = form >= 3; form %= 3; m.coll = form != 1; Vector3 p(1, 0, 0.5f), x(0, 1, 0), q(0, 0, 0);
    float lo = kind == 1 ? -G.angle() : -G.pos(), hi = kind == 1 ? G.angle() : G.pos(), sp = G.pos(), mx = G.pos();
    if (kind == 0) { m.type = JointType::BALLSOCKETJOINT; BallAndSocketJointInfo i = local ? BallAndSocketJointInfo(a, b, p, q) : BallAndSocketJointInfo(a, b, p); i.isCollisionEnabled = m.coll; m.j = W.w->createJoint(i); m.hi = ((BallAndSocketJoint*)m.j)->getConeLimitHalfAngle(); }
    if (kind == 1) { m.type = JointType::HINGEJOINT; HingeJointInfo i = local ? (form == 0 ? HingeJointInfo(a, b, p, q, x, x) : form == 1 ? HingeJointInfo(a, b, p, q, x, x, lo, hi) : HingeJointInfo(a, b, p, q, x, x, lo, hi, sp, mx)) : (form == 0 ? HingeJointInfo(a, b, p, x) : form == 1 ? HingeJointInfo(a, b, p, x, lo, hi) : HingeJointInfo(a, b, p, x, lo, hi, sp, mx)); i.isCollisionEnabled = m.coll; m.j = W.w->createJoint(i); }
    if (kind == 2) { m.type = JointType::SLIDERJOINT; SliderJointInfo i = local ? (form == 0 ? SliderJointInfo(a, b, p, q, x) : form == 1 ? SliderJointInfo(a, b, p, q, x, lo, hi) : SliderJointInfo(a, b, p, q, x, lo, hi, sp, mx)) : (form == 0 ? SliderJointInfo(a, b, p, x) : form == 1 ? SliderJointInfo(a, b, p, x, lo, hi) : SliderJointInfo(a, b, p, x, lo, hi, sp, mx)); i.isCollisionEnabled = m.coll; m.j = W.w->createJoint(i); }
    if (kind == 3) { m.type = JointType::FIXEDJOINT; FixedJointInfo i = local ? FixedJointInfo(a, b, p, q) : FixedJointInfo(a, b, p); i.isCollisionEnabled = m.coll; m.j = W.w->createJoint(i); }
    if (kind == 1 || kind == 2) { if (form >= 1) { m.limit = true; m.lo = lo; m.hi = hi; } if (form >= 2) { m.motor = true; m.speed = sp; m.max = mx; } } return m;
}
static void setJoint(JointModel& m, Gen& G, int o) {
    if (m.type == JointType::BALLSOCKETJOINT) { auto j = (BallAndSocketJoint*)m.j; if (o & 1) j->enableConeLimit(m.limit = !m.limit); else j->setConeLimitHalfAngle(m.hi = G.angle()); }
    if (m.type == JointType::HINGEJOINT) { auto j = (HingeJoint*)m.j; switch (o) { case 0: j->enableLimit(m.limit = !m.limit); break; case 1: j->enableMotor(m.motor = !m.motor); break; case 2: j->setMinAngleLimit(m.lo = -G.angle()); break; case 3: j->setMaxAngleLimit(m.hi = G.angle()); break; case 4: j->setMotorSpeed(m.speed = G.pos()); break; case 5: j->setMaxMotorTorque(m.max = G.pos()); break; } }
    if (m.type == JointType::SLIDERJOINT) { auto j = (SliderJoint*)m.j; switch (o) { case 0: j->enableLimit(m.limit = !m.limit); break; case 1: j->enableMotor(m.motor = !m.motor); break; case 2: j->setMinTranslationLimit(m.lo = -G.pos()); break; case 3: j->setMaxTranslationLimit(m.hi = G.pos()); break; case 4: j->setMotorSpeed(m.speed = G.pos()); break; case 5: j->setMaxMotorForce(m.max = G.pos()); break; } }
}
SYM_ENTRY(joints) {
    int kind = sym_pick("kind", 0, 3), form = sym_pick("form", 0, 5), what = kind == 3 ? 0 : sym_pick("set", 0, kind ? 5 : 1), ev = sym_pick("event", 0, 6), which = RP_TIER ? sym_pick("which", 0, 2) : (form + what + ev) % 3, sib = RP_TIER ? sym_pick("sibling", 0, 1) : (what + ev) & 1; Gen G; G.conc = ev == 4; World W; RigidBody* b[3]; CollisionShape* s = sphereOf(W, 0.25f).s; for (int i = 0; i < 3; i++) b[i] = W.body(s, Vector3(2.0f * i, 0, 0)); JointModel m[4]; for (int i = 0; i < 3; i++) m[i] = makeJoint(W, G, i == (which + 1) % 3 && sib ? (kind + 1) % 4 : kind, b[i % 2], b[1 + i / 2 * 0 + (i % 2)], (form + i) % 6);
    auto all = [&]() { for (int i = 0; i < 4; i++) if (m[i].j) checkJoint(m[i]); }; all(); setJoint(m[which], G, what); all(); int other = (which + 1) % 3;
    if (ev == 0) { W.w->destroyJoint(m[other].j); m[other].j = nullptr; } if (ev == 1) m[3] = makeJoint(W, G, kind, b[2], b[0], (form + 1) % 6); if (ev == 2) b[1]->setIsActive(false); if (ev == 3) b[0]->setType(BodyType::STATIC); if (ev == 4) W.step(2); if (ev == 5) { b[0]->setIsSleeping(true); b[1]->setIsSleeping(true); } if (ev == 6) { W.w->destroyRigidBody(b[2]); for (int i = 0; i < 3; i++) if (m[i].a == b[2] || m[i].b == b[2]) m[i].j = nullptr; }
    all(); bool changed = false; if (m[which].j) { JointModel o = m[which]; setJoint(m[which], G, (what + 1) % 6); setJoint(m[which], G, (what + 3) % 6); JointModel& q = m[which]; changed = (o.limit != q.limit) | (o.motor != q.motor) | (o.lo != q.lo) | (o.hi != q.hi) | (o.speed != q.speed) | (o.max != q.max); } all(); if (ev == 5 && changed) sym_check(!m[which].a->isSleeping() && !m[which].b->isSleeping(), "changing a joint does not wake its bodies"); sym_reach("end");
}
// settings of the world take effect: speed at which bodies bounce, materials new colliders get, number of iterations
SYM_ENTRY(bounce) {
    static const float THR[4] = { 0.5f, 0, 2, 1.25f }, BN[4] = { 0.5f, 0, 1, 0.25f }; int t = sym_pick("threshold", 0, 3), k = sym_pick("bounciness", 0, 3), own = sym_pick("own", 0, 2); float v = sym_grid("v", 1, 32, 3); v = v + 0.0078125f; World W; PhysicsWorld::WorldSettings s = settings(); s.restitutionVelocityThreshold = THR[t]; s.defaultBounciness = BN[k]; PhysicsWorld::WorldSettings d = settings(); d.restitutionVelocityThreshold = THR[(t + 1) % 4]; d.defaultBounciness = BN[(k + 1) % 4]; PhysicsWorld *w = W.pc.createPhysicsWorld(s), *w2 = W.pc.createPhysicsWorld(d);
    for (int i = 0; i < 2; i++) {
        PhysicsWorld* x = i ? w2 : w; float thr = THR[(t + i) % 4], bn = BN[(k + i) % 4]; CollisionShape *sp = sphereOf(W, 1).s; RigidBody* f = x->createRigidBody(Transform(Vector3(0, -1.9921875f, 0), Quaternion::identity())); f->setType(BodyType::STATIC); Collider* cf = f->addCollider(sp, Transform::identity()); RigidBody* b = x->createRigidBody(Transform(Vector3(0, 0, 0), Quaternion::identity())); Collider* cb = b->addCollider(sp, Transform::identity()); b->setMass(2); b->setLinearVelocity(Vector3(0, -v, 0));
        if (own) { float o = own == 1 ? 0.75f : 0.125f; if (own == 1) cb->getMaterial().setBounciness(o); else { cb->getMaterial().setBounciness(o); cf->getMaterial().setBounciness(0); } bn = own == 1 ? maxd(o, bn) : o; }
        x->setContactsPositionCorrectionTechnique(i ? ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS : ContactsPositionCorrectionTechnique::SPLIT_IMPULSES); x->update(1.0f / 64); float u = b->getLinearVelocity().y, e = v > thr ? bn * v : 0; sym_observe_f("u", u); sym_check(near1(u, e, 2e-3f + 1e-3f * v), v > thr ? "a body does not bounce as the materials say" : "a body bounces below the threshold of the world"); }
    W.pc.destroyPhysicsWorld(w2); W.pc.destroyPhysicsWorld(w); sym_reach("end");
}
SYM_ENTRY(iterations) {
    int nv = sym_pick("velocity", 0, 2), np = sym_pick("position", 0, 2), kind = sym_pick("joint", 0, 3), later = sym_pick("later", 0, 1); float gy = sym_grid("gy", -16, 15, 0); World W; PhysicsWorld::WorldSettings s = settings(Vector3(0, gy, 0)); if (!later) { s.defaultVelocitySolverNbIterations = (uint16)(nv * 5); s.defaultPositionSolverNbIterations = (uint16)(np * 4); } PhysicsWorld *x = W.pc.createPhysicsWorld(s), *other = W.pc.createPhysicsWorld(settings()); if (later) { x->setNbIterationsVelocitySolver((uint16)(nv * 5)); x->setNbIterationsPositionSolver(np * 4); } other->setNbIterationsVelocitySolver(1); other->setNbIterationsPositionSolver(1);
    CollisionShape* sp = sphereOf(W, 0.5f).s; RigidBody* f = x->createRigidBody(Transform(Vector3(0, 0, 0), Quaternion::identity())); f->addCollider(sp, Transform::identity()); f->setType(BodyType::STATIC); RigidBody* b = x->createRigidBody(Transform(Vector3(0, -2, 0), Quaternion::identity())); b->addCollider(sp, Transform::identity()); Vector3 p(0, -1, 0), ax(1, 0, 0); if (kind == 0) x->createJoint(BallAndSocketJointInfo(f, b, p)); if (kind == 1) x->createJoint(HingeJointInfo(f, b, p, ax)); if (kind == 2) x->createJoint(SliderJointInfo(f, b, p, ax)); if (kind == 3) x->createJoint(FixedJointInfo(f, b, p));
    const float dt = 1.0f / 64; b->setTransform(Transform(Vector3(0, -2.25f, 0), Quaternion::identity())); x->update(dt); float v = b->getLinearVelocity().y, y = b->getTransform().getPosition().y; sym_observe_f("v", v); sym_observe_f("y", y);
    sym_check(near1(v, nv ? 0 : gy * dt, 1e-4f), nv ? "the velocity solver of joints does nothing" : "joints act without iterations of the velocity solver"); if (np == 0) sym_check(near1(y, -2.25f + (nv ? 0 : gy * dt * dt), 1e-4f), "joints are corrected without iterations of the position solver"); else sym_check(absd(y + 2) <= 0.02f, "the position solver of joints does nothing"); W.pc.destroyPhysicsWorld(other); W.pc.destroyPhysicsWorld(x); sym_reach("end");
}
