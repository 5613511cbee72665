// C14: one step of bodies that touch nothing, against symplectic Euler integration in double precision.
#include "kit.h"
static const float MASS[4] = { 1, 0.5f, 3, 40 }, DAMP[3] = { 0, 0.5f, 2 }, DT[3] = { 1.0f / 64, 1.0f / 60, 0.25f };
static const float LOCK[5][3] = { {1,1,1}, {0,1,1}, {1,0,1}, {1,1,0}, {0,0,1} };
static Vector3 vec(const float* v) { return Vector3(v[0], v[1], v[2]); }
static D3 had(const D3& a, const D3& b) { return D3(a.x * b.x, a.y * b.y, a.z * b.z); }
static double scaleOf(const D3& v) { return 1 + maxd(maxd(absd(v.x), absd(v.y)), absd(v.z)); }
static bool nearRel(const D3& a, const D3& b) { return (absd(a.x - b.x) <= 4e-6 * (1 + absd(b.x))) & (absd(a.y - b.y) <= 4e-6 * (1 + absd(b.y))) & (absd(a.z - b.z) <= 4e-6 * (1 + absd(b.z))); }
struct Model {                              // expected state of one free body
    double im, ld, ad; D3 I, lock, alock, com, g; D3 v, w, x; Quaternion q; bool dynamic;
    void read(RigidBody* b, double mass, const D3& inertia, const D3& gravity) {
        dynamic = b->getType() == BodyType::DYNAMIC; im = dynamic && mass > 0 ? 1 / mass : 0; I = inertia; g = gravity;
    }
    D3 invI(const D3& t) const {            // world inverse inertia applied to a vector
        if (!dynamic) return D3(0, 0, 0);
        D3 l = rotd(Quaternion(-q.x, -q.y, -q.z, q.w), t); l = D3(I.x != 0 ? l.x / I.x : 0, I.y != 0 ? l.y / I.y : 0, I.z != 0 ? l.z / I.z : 0); return rotd(q, l);
    }
    void step(double dt, const D3& F, const D3& T, bool grav) {
        D3 a = had(lock, F) * im; if (grav && im > 0) a = a + had(lock, g);
        v = (v + a * dt) * (1 / (1 + ld * dt)); w = (w + had(alock, invI(T)) * dt) * (1 / (1 + ad * dt));
    }
};
static void checkMoved(RigidBody* b, const Model& m, const Vector3& x0, const Quaternion& q0, const D3& com, double dt) {
    sym_check(nearRel(D3(b->getLinearVelocity()), m.v), "linear velocity after the step is not the integrated one"); sym_check(nearRel(D3(b->getAngularVelocity()), m.w), "angular velocity after the step is not the integrated one");
    // orientation: q + dt/2 (0,w) q, normalised
    Quaternion qa = b->getTransform().getOrientation(); D3 u(q0.x, q0.y, q0.z), w = m.w; double s = q0.w; D3 du = (w * s + cross(w, u)) * (0.5 * dt); double ds = -0.5 * dt * dot(w, u);
    D3 nu = u + du; double ns = s + ds, l = std::sqrt(dot(nu, nu) + ns * ns);
    sym_check((absd(qa.x * l - nu.x) < 3e-6 * l) & (absd(qa.y * l - nu.y) < 3e-6 * l) & (absd(qa.z * l - nu.z) < 3e-6 * l) & (absd(qa.w * l - ns) < 3e-6 * l), "orientation after the step is not the integrated one");
    D3 c0 = D3(x0) + rotd(q0, com), c1 = D3(b->getTransform().getPosition()) + rotd(qa, com); sym_check(nearRel(c1, c0 + m.v * dt), "centre of mass did not move by velocity times time step");
    sym_check(eq3(b->getForce(), Vector3(0, 0, 0)) & eq3(b->getTorque(), Vector3(0, 0, 0)), "accumulated force or torque is not cleared after the step"); observe3("x", b->getTransform().getPosition());
}
// linear part: mass, damping, locked axes, gravity switches, time step; velocity and force are symbolic
SYM_ENTRY(linear) {
    int k = sym_pick("cfg", 0, RP_TIER ? 59 : 19); Vector3 g(0.5f, -10, 2); World W(g); W.w->enableSleeping(false); int gm = sym_pick("gravity", 0, 3); double dt = DT[k % 3]; float mass = MASS[(k / 3) % 4]; float d = DAMP[(k / 2) % 3];
    Vector3 x0(1, -2, 3); Quaternion q0 = rotq(k % 12); RigidBody* b = W.w->createRigidBody(Transform(x0, q0)); b->setMass(mass); b->setLinearDamping(d); b->setLinearLockAxisFactor(vec(LOCK[k % 5])); if (k & 1) b->setLocalCenterOfMass(Vector3(0.5f, 0, -1));
    if (gm & 1) b->enableGravity(false); if (gm & 2) W.w->setIsGravityEnabled(false); if (k == 7) { g = Vector3(0, 5, 0); W.w->setGravity(g); }
    Vector3 v, F; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -4, 3, 1); v.z = sym_grid("vz", -4, 3, 1); F.x = sym_grid("fx", -8, 7, 0); F.y = sym_grid("fy", -8, 7, 0); F.z = sym_grid("fz", -8, 7, 0);
    if (k % 4 != 3) b->setLinearVelocity(v); else v = Vector3(0, 0, 0);
    b->applyWorldForceAtCenterOfMass(F); sym_check(eq3(b->getForce(), F), "force is not accumulated as given"); W.w->update(dt);
    Model m; m.read(b, mass, D3(0, 0, 0), D3(g)); m.ld = d; m.ad = 0; m.lock = D3(vec(LOCK[k % 5])); m.alock = D3(1, 1, 1); m.q = q0; m.v = D3(v); m.w = D3(0, 0, 0); m.step(dt, D3(F), D3(0, 0, 0), gm == 0); checkMoved(b, m, x0, q0, k & 1 ? D3(0.5, 0, -1) : D3(0, 0, 0), dt);
    // the next step starts from the cleared accumulators
    Vector3 x1 = b->getTransform().getPosition(); Quaternion q1 = b->getTransform().getOrientation(); m.v = D3(b->getLinearVelocity()); m.w = D3(b->getAngularVelocity()); W.w->update(dt); m.q = q1; m.step(dt, D3(0, 0, 0), D3(0, 0, 0), gm == 0); checkMoved(b, m, x1, q1, k & 1 ? D3(0.5, 0, -1) : D3(0, 0, 0), dt);
}
// angular part: inertia, orientation, locked axes, damping
SYM_ENTRY(angular) {
    int k = sym_pick("cfg", 0, RP_TIER ? 59 : 19), what = sym_pick("what", 0, 1); World W(Vector3(0, -10, 0)); W.w->enableSleeping(false); W.w->setIsGravityEnabled(false); double dt = DT[k % 3]; static const float IN[4][3] = { {1,1,1}, {0.5f,2,4}, {8,0.25f,1}, {1,0,2} };
    Vector3 x0(1, 2, -3); Quaternion q0 = rotq((k * 7) % 20); RigidBody* b = W.w->createRigidBody(Transform(x0, q0)); b->setMass(2); Vector3 I = vec(IN[k % 4]); b->setLocalInertiaTensor(I); float d = DAMP[(k / 2) % 3]; b->setAngularDamping(d); b->setAngularLockAxisFactor(vec(LOCK[(k / 3) % 5]));
    bool com = k & 1; D3 c = com ? D3(-0.5, 1, 0.25) : D3(0, 0, 0); if (com) b->setLocalCenterOfMass(Vector3(-0.5f, 1, 0.25f));
    Vector3 w, T; w.x = what ? 0.5f : sym_grid("wx", -8, 7, 2); w.y = what ? -1.0f : sym_grid("wy", -8, 7, 2); w.z = what ? 0.25f : sym_grid("wz", -4, 3, 1); T.x = what ? sym_grid("tx", -8, 7, 0) : 2.0f; T.y = what ? sym_grid("ty", -8, 7, 0) : 0.0f; T.z = what ? sym_grid("tz", -4, 3, 0) : -3.0f;
    b->setAngularVelocity(w); if (k & 2) { b->applyWorldTorque(T); } else { b->applyWorldTorque(T * 0.5f); b->applyWorldTorque(T * 0.5f); } W.w->update(dt);
    Model m; m.read(b, 2, D3(I), D3(0, 0, 0)); m.ld = 0; m.ad = d; m.lock = D3(1, 1, 1); m.alock = D3(vec(LOCK[(k / 3) % 5])); m.q = q0; m.v = D3(0, 0, 0); m.w = D3(w); m.step(dt, D3(0, 0, 0), D3(T), false); checkMoved(b, m, x0, q0, c, dt);
}
// every way of applying a force or torque
SYM_ENTRY(forces) {
    int how = sym_pick("how", 0, 8), r = sym_pick("rot", 0, 2), com = sym_pick("com", 0, 1), pre = sym_pick("pre", 0, 1); World W; Transform t(Vector3(1, -2, 0.5f), rotq(r == 0 ? 0 : r == 1 ? 5 : 16)); RigidBody* b = W.w->createRigidBody(t); D3 cl(0, 0, 0); if (com) { b->setLocalCenterOfMass(Vector3(1, 0.5f, -2)); cl = D3(1, 0.5, -2); }
    Vector3 F, P; F.x = sym_grid("fx", -2, 1, 0); F.y = sym_grid("fy", -2, 1, 0); F.z = sym_grid("fz", -2, 1, 0); P.x = sym_grid("px", -2, 1, 0); P.y = sym_grid("py", -2, 1, 0); P.z = sym_grid("pz", -2, 1, 0);
    D3 f0(0, 0, 0), t0(0, 0, 0); if (pre) { b->applyWorldForceAtCenterOfMass(Vector3(1, 2, 3)); b->applyWorldTorque(Vector3(-3, 1, 0.5f)); f0 = D3(1, 2, 3); t0 = D3(-3, 1, 0.5); }
    D3 c = trd(t, cl), f, tq(0, 0, 0); Quaternion q = t.getOrientation(); f = D3(F);
    if (how == 0) b->applyWorldForceAtCenterOfMass(F); else if (how == 1) { b->applyLocalForceAtCenterOfMass(F); f = rotd(q, f); } else if (how == 2) { b->applyWorldForceAtWorldPosition(F, P); tq = cross(D3(P) - c, f); } else if (how == 3) { b->applyLocalForceAtWorldPosition(F, P); f = rotd(q, f); tq = cross(D3(P) - c, f); }
    else if (how == 4) { b->applyWorldForceAtLocalPosition(F, P); tq = cross(trd(t, D3(P)) - c, f); } else if (how == 5) { b->applyLocalForceAtLocalPosition(F, P); f = rotd(q, f); tq = cross(trd(t, D3(P)) - c, f); } else if (how == 6) { b->applyWorldTorque(F); tq = f; f = D3(0, 0, 0); } else if (how == 7) { b->applyLocalTorque(F); tq = rotd(q, f); f = D3(0, 0, 0); } else { f = D3(0, 0, 0); b->resetForce(); sym_check(eq3(b->getForce(), Vector3(0, 0, 0)), "force is not reset"); f0 = D3(0, 0, 0); }
    sym_check(neard(D3(b->getForce()), f0 + f, 1e-5), "accumulated force is not the sum of the applied ones"); sym_check(neard(D3(b->getTorque()), t0 + tq, 2e-5), "accumulated torque is not the sum of the applied ones"); observe3("F", b->getForce()); observe3("T", b->getTorque());
    b->resetTorque(); sym_check(eq3(b->getTorque(), Vector3(0, 0, 0)), "torque is not reset"); sym_check(neard(D3(b->getForce()), f0 + f, 1e-5), "resetting the torque changes the force");
}
// static and kinematic bodies: forces, gravity and damping do not matter; kinematic bodies move by their velocity
SYM_ENTRY(not_dynamic) {
    int kin = sym_pick("kinematic", 0, 1), early = sym_pick("early", 0, 1), r = sym_pick("rot", 0, 1), n = sym_pick("steps", 1, 2), col = sym_pick("collider", 0, 1); World W(Vector3(0, -10, 0)); W.w->enableSleeping(false); Vector3 x0(1, -2, 0.5f); Quaternion q0 = rotq(r ? 16 : 4); float dt = DT[r]; RigidBody* b = W.w->createRigidBody(Transform(x0, q0));
    BodyType t = kin ? BodyType::KINEMATIC : BodyType::STATIC; if (early) b->setType(t); b->setMass(2); b->setLocalInertiaTensor(Vector3(1, 2, 3)); if (!early) { b->setLinearVelocity(Vector3(1, 1, 1)); b->applyWorldForceAtCenterOfMass(Vector3(5, 5, 5)); b->applyWorldTorque(Vector3(1, 1, 1)); b->setType(t); } if (col) { b->addCollider(W.pc.createBoxShape(Vector3(1, 2, 3)), Transform::identity()); b->updateMassFromColliders(); b->updateLocalInertiaTensorFromColliders(); }
    Vector3 F, v, w; F.x = sym_grid("fx", -2, 1, 0); F.y = sym_grid("fy", -2, 1, 0); F.z = sym_grid("fz", -2, 1, 0); v.x = sym_grid("vx", -2, 1, 0); v.y = sym_grid("vy", -2, 1, 0); v.z = sym_grid("vz", -2, 1, 0); w = Vector3(v.y, 1, -v.x);
    b->applyWorldForceAtWorldPosition(F, Vector3(1, 1, 1)); b->applyLocalForceAtLocalPosition(F, Vector3(1, 0, 1)); b->applyLocalForceAtCenterOfMass(F); b->applyWorldTorque(F); b->applyLocalTorque(F);
    sym_check(eq3(b->getForce(), Vector3(0, 0, 0)) & eq3(b->getTorque(), Vector3(0, 0, 0)), "a static or kinematic body accumulates force"); b->setLinearVelocity(v); b->setAngularVelocity(w);
    Model m; m.read(b, 2, D3(0, 0, 0), D3(0, 0, 0)); m.ld = m.ad = 0; m.lock = m.alock = D3(1, 1, 1); m.v = D3(v); m.w = D3(w);
    for (int i = 0; i < n; i++) {
        Vector3 x = b->getTransform().getPosition(); Quaternion q = b->getTransform().getOrientation(); W.w->update(dt);
        if (kin) checkMoved(b, m, x, q, D3(0, 0, 0), dt); else { Transform e = b->getTransform(); sym_check(eq3(e.getPosition(), x0) & (e.getOrientation() == q0), "a static body moved"); sym_check(eq3(b->getLinearVelocity(), Vector3(0, 0, 0)) & eq3(b->getAngularVelocity(), Vector3(0, 0, 0)), "a static body has a velocity"); }
    }
}
// moving the centre of mass of a moving body changes the motion of none of its points, and the body goes on about the new centre
SYM_ENTRY(com_change) {
    int how = sym_pick("how", 0, 2), kin = how == 2 ? 0 : sym_pick("kinematic", 0, 1), r = sym_pick("rot", 0, RP_TIER ? 11 : 3), off = sym_pick("offset", 0, 1), late = sym_pick("stepped", 0, 1); World W; W.w->enableSleeping(false); Vector3 x0(1, -2, 0.5f); float dt = DT[r % 3]; RigidBody* b = W.w->createRigidBody(Transform(x0, rotq(r * 5 % 20))); if (kin) b->setType(BodyType::KINEMATIC); b->setMass(2); b->setLocalInertiaTensor(Vector3(1, 1, 1));
    if (off) b->setLocalCenterOfMass(Vector3(-0.5f, 1, 0.25f)); b->addCollider(W.pc.createSphereShape(1), Transform(Vector3(0.5f, -1, 0.25f), Quaternion::identity())); b->addCollider(W.pc.createSphereShape(1), Transform(Vector3(1, 0, -0.75f), Quaternion::identity()));
    Vector3 v, w; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -4, 3, 1); v.z = 0.5f; w.x = sym_grid("wx", -4, 3, 1); w.y = sym_grid("wy", -2, 1, 0); w.z = sym_grid("wz", -2, 1, 0); b->setLinearVelocity(v); b->setAngularVelocity(w); if (late) W.w->update(dt);
    Transform t = b->getTransform(); Quaternion q = t.getOrientation(); D3 o = D3(b->getLinearVelocity()) - cross(D3(w), rotd(q, D3(b->getLocalCenterOfMass()))); if (how == 0) b->setLocalCenterOfMass(Vector3(1, 0.25f, -0.5f)); else if (how == 1) b->updateLocalCenterOfMassFromColliders(); else b->updateMassPropertiesFromColliders();
    D3 com(b->getLocalCenterOfMass()), n = D3(b->getLinearVelocity()) - cross(D3(w), rotd(q, com)); sym_check(neard(com, how == 0 ? D3(1, 0.25, -0.5) : D3(0.75, -0.5, -0.25), 1e-6), "centre of mass"); sym_check(neard(n, o, 2e-6 * (8 + len(o))), "moving the centre of mass changes the motion of the body"); sym_check(eq3(b->getAngularVelocity(), w), "moving the centre of mass changes the angular velocity"); sym_check(eq3(b->getTransform().getPosition(), t.getPosition()), "moving the centre of mass moves the body");
    Model m; m.ld = m.ad = 0; m.lock = m.alock = D3(1, 1, 1); m.v = D3(b->getLinearVelocity()); m.w = D3(w); W.w->update(dt); checkMoved(b, m, t.getPosition(), q, com, dt); sym_reach("end");
}
// a body that was static or kinematic for a while answers to forces and torques with its mass and inertia again, whatever they are and whenever they were set
SYM_ENTRY(retyped) {
    static const float MS[5] = { 1, 0.0078125f, 2000, 131072, 16 }; int km = sym_pick("mass", 0, 4), t = sym_pick("type", 0, 1), when = sym_pick("set", 0, 2), step = sym_pick("stepped", 0, 1), r = sym_pick("rot", 0, 1); float mass = MS[km]; Vector3 I(0.5f * mass, mass, 2 * mass); World W; W.w->enableSleeping(false); const float dt = 1.0f / 64; Vector3 x0(1, 2, -3); RigidBody* b = W.w->createRigidBody(Transform(x0, rotq(r ? 16 : 4)));
    if (when == 0) { b->setMass(mass); b->setLocalInertiaTensor(I); } b->setType(t ? BodyType::STATIC : BodyType::KINEMATIC); if (when == 1) { b->setMass(mass); b->setLocalInertiaTensor(I); } if (step) W.w->update(dt); b->setType(BodyType::DYNAMIC); if (when == 2) { b->setMass(mass); b->setLocalInertiaTensor(I); }
    Vector3 F, T; F.x = mass * sym_grid("fx", -4, 3, 0); F.y = mass * sym_grid("fy", -4, 3, 0); F.z = mass; T.x = mass * sym_grid("tx", -4, 3, 0); T.y = mass * sym_grid("ty", -4, 3, 0); T.z = -mass; b->applyWorldForceAtCenterOfMass(F); b->applyWorldTorque(T); Transform e = b->getTransform();
    Model m; m.read(b, mass, D3(I), D3(0, 0, 0)); m.ld = m.ad = 0; m.lock = m.alock = D3(1, 1, 1); m.q = e.getOrientation(); m.v = m.w = D3(0, 0, 0); m.step(dt, D3(F), D3(T), false); W.w->update(dt); checkMoved(b, m, e.getPosition(), e.getOrientation(), D3(0, 0, 0), dt); sym_reach("end");
}
// several bodies with different properties: each follows its own, whatever the order and the states of the others
SYM_ENTRY(many) {
    int order = sym_pick("order", 0, 3), stat = sym_pick("special", 0, 4), op = sym_pick("op", 0, 3); Vector3 g(1, -10, 0.5f); World W(g); W.w->enableSleeping(false); RigidBody* b[4]; Vector3 v[4]; bool moves[4]; const float dt = 1.0f / 64;
    for (int i = 0; i < 4; i++) {
        int k = (i + order) % 4; b[k] = W.w->createRigidBody(Transform(Vector3(10.0f * k, 0, 0), rotq(k))); b[k]->setMass(MASS[k]); b[k]->setLocalInertiaTensor(Vector3(1 + k, 2, 3)); b[k]->setLinearDamping(0.25f * k); b[k]->setAngularDamping(1.0f - 0.25f * k); b[k]->setLinearLockAxisFactor(vec(LOCK[k])); b[k]->setAngularLockAxisFactor(vec(LOCK[(k + 2) % 5])); if (k == 2) b[k]->enableGravity(false); if (k & 1) b[k]->addCollider(W.pc.createSphereShape(1), Transform::identity());
    }
    if (stat < 4) { if (op == 0) b[stat]->setType(BodyType::STATIC); else if (op == 1) b[stat]->setIsSleeping(true); else if (op == 2) b[stat]->setIsActive(false); else { W.w->destroyRigidBody(b[stat]); b[stat] = nullptr; } }
    float s = sym_grid("s", -8, 7, 1);
    Vector3 T[4], F[4]; for (int k = 0; k < 4; k++) if (b[k]) { moves[k] = k != stat; v[k] = Vector3(s + k, 1, s); if (moves[k]) { b[k]->setLinearVelocity(v[k]); b[k]->setAngularVelocity(Vector3(0, s, 1)); } F[k] = Vector3(s, k, 1); T[k] = Vector3(1, s, k); if (moves[k]) { b[k]->applyWorldForceAtCenterOfMass(F[k]); b[k]->applyWorldTorque(T[k]); } }
    W.w->update(dt);
    for (int k = 0; k < 4; k++) if (b[k]) {
        if (!moves[k]) { sym_check(eq3(b[k]->getTransform().getPosition(), Vector3(10.0f * k, 0, 0)) & (b[k]->getTransform().getOrientation() == rotq(k)), "a static, sleeping or inactive body moved"); continue; }
        Model m; m.read(b[k], MASS[k], D3(1 + k, 2, 3), D3(g)); m.ld = 0.25 * k; m.ad = 1 - 0.25 * k; m.lock = D3(vec(LOCK[k])); m.alock = D3(vec(LOCK[(k + 2) % 5])); m.q = rotq(k); m.v = D3(v[k]); m.w = D3(0, s, 1); m.step(dt, D3(F[k]), D3(T[k]), k != 2); checkMoved(b[k], m, Vector3(10.0f * k, 0, 0), rotq(k), D3(0, 0, 0), dt);
    }
}
