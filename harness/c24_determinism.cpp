// C24: the same operations give bit-identical states and the same events whatever was in memory before and whatever other worlds do.
#include "shapes.h"
#include "surfaces.h"
#include <memory>
static const float DT = 1.0f / 64;
// memory that is handed out full of a given byte
struct Filled : public MemoryAllocator {
    uint8_t byte; Filled(uint8_t b) : byte(b) {}
    void* allocate(size_t size) override { void* p = ::operator new(size); memset(p, byte, size); return p; }
    void release(void* p, size_t) override { ::operator delete(p); }
};
struct Rec {
    static const int MAX = 6000; uint32_t v[MAX]; int n = 0;
    void i(uint32_t x) { sym_check(n < MAX, "record full"); v[n++] = x; }
    void f(float x) { uint32_t b; memcpy(&b, &x, 4); i(b); }
    void vec(const Vector3& a) { f(a.x); f(a.y); f(a.z); }
    void body(const RigidBody* b) { Transform t = b->getTransform(); vec(t.getPosition()); Quaternion q = t.getOrientation(); f(q.x); f(q.y); f(q.z); f(q.w); vec(b->getLinearVelocity()); vec(b->getAngularVelocity()); i(b->isSleeping()); vec(b->getForce()); vec(b->getTorque()); }
};
static void same(const Rec& a, const Rec& b, const char* what) { sym_check(a.n == b.n, what); bool ok = true; if (a.n == b.n) for (int i = 0; i < a.n; i++) ok &= a.v[i] == b.v[i]; sym_check(ok, what); }
static uint32_t tag(const Body* b) { return b ? (uint32_t)(uintptr_t)b->getUserData() : 77; }
struct Listener : public EventListener {
    Rec* r = nullptr;
    void pair(const CollisionCallback::ContactPair& p) {
        r->i(tag(p.getBody1())); r->i(tag(p.getBody2())); r->i((uint32_t)p.getEventType()); r->i(p.getNbContactPoints());
        for (uint32 k = 0; k < p.getNbContactPoints(); k++) { auto q = p.getContactPoint(k); r->vec(q.getWorldNormal()); r->f(q.getPenetrationDepth()); r->vec(q.getLocalPointOnCollider1()); r->vec(q.getLocalPointOnCollider2()); }
    }
    void onContact(const CollisionCallback::CallbackData& d) override { r->i(1000 + d.getNbContactPairs()); for (uint32 i = 0; i < d.getNbContactPairs(); i++) pair(d.getContactPair(i)); }
    void onTrigger(const OverlapCallback::CallbackData& d) override { r->i(2000 + d.getNbOverlappingPairs()); for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto p = d.getOverlappingPair(i); r->i(tag(p.getBody1())); r->i(tag(p.getBody2())); r->i((uint32_t)p.getEventType()); } }
};
struct Rays : public RaycastCallback { Rec* r; decimal notifyRaycastHit(const RaycastInfo& i) override { r->i(tag(i.body)); r->f(i.hitFraction); r->vec(i.worldPoint); r->vec(i.worldNormal); r->i((uint32_t)i.triangleIndex); return 1; } };
struct Queries : public CollisionCallback, public OverlapCallback { Listener l; void onContact(const CollisionCallback::CallbackData& d) override { l.onContact(d); } void onOverlap(OverlapCallback::CallbackData& d) override { l.r->i(3000 + d.getNbOverlappingPairs()); for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto p = d.getOverlappingPair(i); l.r->i(tag(p.getBody1())); l.r->i(tag(p.getBody2())); } } };
// a world with a script of operations
enum { PILE, SURFACE, JOINTS, CHANGES, SENSORS, NSCENES };
struct Sim {
    World W; int scene; float sx; Rec rec; Listener l; RigidBody* b[12]; int n = 0, t = 0; Joint* j[8]; int nj = 0; Tris tris; Collider* extra = nullptr;
    RigidBody* put(CollisionShape* s, float x, float y, float z, int rot = 0, BodyType ty = BodyType::DYNAMIC) { RigidBody* r = W.body(s, Vector3(x, y, z), rot, ty); r->setUserData((void*)(uintptr_t)(n + 1)); if (ty == BodyType::DYNAMIC) r->updateMassPropertiesFromColliders(); b[n++] = r; return r; }
    Sim(PhysicsCommon& pc, int sc, float vx) : W(pc, Vector3(0, -10, 0)), scene(sc), sx(vx) {
        l.r = &rec; W.w->setEventListener(&l); PhysicsCommon& P = W.pc;
        if (scene == PILE) { put(P.createBoxShape(Vector3(4, 0.5f, 4)), 0, -0.5f, 0, 0, BodyType::STATIC); put(P.createBoxShape(Vector3(0.5f, 0.5f, 0.5f)), 0, 0.49f, 0); put(P.createSphereShape(0.5f), 0.25f, 1.48f, 0); put(P.createCapsuleShape(0.25f, 1), 2, 0.24f, 0, 15); put(convexOf(W, 1, Vector3(1, 1, 1), 0.5f).s, -2, 0.9f, 0.5f, 14)->setAngularDamping(0.5f); b[1]->setLinearVelocity(Vector3(sx, 0, 0.25f)); b[3]->setAngularVelocity(Vector3(0, sx, 0)); }
        if (scene == SURFACE) { CollisionShape* s = sx > 0 ? (CollisionShape*)concaveOf(W, Vector3(1, 1, 1), tris) : (CollisionShape*)fieldOf(W, 0, 0, Vector3(1, 0.25f, 1), tris); put(s, 0, 0, 0, 0, BodyType::STATIC); put(P.createSphereShape(0.5f), 0.1f, 1.4f, 0.2f); put(P.createBoxShape(Vector3(0.5f, 0.25f, 0.5f)), -1, 0.6f, -0.7f, 15); b[1]->setLinearVelocity(Vector3(sx, -1, 0)); }
        if (scene == JOINTS) {
            CollisionShape* s = P.createSphereShape(0.25f); put(s, 0, 0, 0, 0, BodyType::STATIC); for (int i = 0; i < 5; i++) { put(s, 1.0f + i, 0, 0.125f * i, i)->setLinearVelocity(Vector3(0, sx, 0.5f)); }
            BallAndSocketJointInfo i1(b[0], b[1], Vector3(0.5f, 0, 0)); j[nj++] = W.w->createJoint(i1); HingeJointInfo i2(b[1], b[2], Vector3(1.5f, 0, 0), Vector3(0, 0, 1), -0.1f, 0.1f, 2, 10); j[nj++] = W.w->createJoint(i2);
            SliderJointInfo i3(b[2], b[3], Vector3(2.5f, 0, 0), Vector3(1, 0, 0), -0.125f, 0.125f, 1, 5); j[nj++] = W.w->createJoint(i3); FixedJointInfo i4(b[3], b[4], Vector3(3.5f, 0, 0)); i4.positionCorrectionTechnique = JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS; j[nj++] = W.w->createJoint(i4); BallAndSocketJointInfo i5(b[4], b[5], Vector3(4.5f, 0, 0)); i5.isCollisionEnabled = false; j[nj++] = W.w->createJoint(i5); ((BallAndSocketJoint*)j[4])->setConeLimitHalfAngle(0.01f); ((BallAndSocketJoint*)j[4])->enableConeLimit(true);
        }
        if (scene == CHANGES || scene == SENSORS) { CollisionShape *s = P.createSphereShape(0.5f), *c = P.createBoxShape(Vector3(0.5f, 0.5f, 0.5f)); put(P.createBoxShape(Vector3(4, 0.5f, 4)), 0, -0.5f, 0, 0, BodyType::STATIC); put(s, 0, 0.49f, 0); put(c, 0.9f, 0.49f, 0); put(s, -2, 0.75f, 0)->setLinearVelocity(Vector3(sx, -1, 0)); put(c, 2.5f, 0.5f, 1, 0, BodyType::KINEMATIC)->setLinearVelocity(Vector3(-1, 0, 0)); }
        if (scene == SENSORS) { b[1]->getCollider(0)->setIsTrigger(true); b[1]->enableGravity(false); extra = b[4]->addCollider(P.createSphereShape(1), Transform(Vector3(0, 0, 1), Quaternion::identity())); extra->setIsTrigger(true); }
    }
    void step() {
        PhysicsCommon& P = W.pc;
        if (scene == CHANGES) {
            if (t == 1) { W.w->destroyRigidBody(b[2]); b[2] = b[--n]; put(P.createCapsuleShape(0.5f, 0.5f), 0.9f, 0.7f, 0); }
            if (t == 2) { b[1]->setType(BodyType::STATIC); b[0]->getCollider(0)->getMaterial().setBounciness(1); extra = b[3]->addCollider(P.createSphereShape(0.25f), Transform(Vector3(0, -0.25f, 0), Quaternion::identity())); b[3]->updateMassPropertiesFromColliders(); b[1]->setIsActive(false); }
            if (t == 3) { b[3]->removeCollider(extra); b[1]->setIsActive(true); b[1]->setType(BodyType::DYNAMIC); b[1]->applyWorldForceAtLocalPosition(Vector3(10, 0, 5), Vector3(0, 0.25f, 0)); b[2]->setIsSleeping(true); }
        }
        rec.i(5000 + t); W.w->update(DT); t++;
        for (int i = 0; i < n; i++) rec.body(b[i]);
        for (int i = 0; i < nj; i++) { rec.vec(j[i]->getReactionForce(DT)); rec.vec(j[i]->getReactionTorque(DT)); }
        if (nj) { rec.f(((HingeJoint*)j[1])->getAngle()); rec.f(((SliderJoint*)j[2])->getTranslation()); rec.f(((HingeJoint*)j[1])->getMotorTorque(DT)); rec.f(((SliderJoint*)j[2])->getMotorForce(DT)); }
        if (scene == SENSORS || scene == SURFACE) { Rays r; r.r = &rec; W.w->raycast(Ray(Vector3(-3, 0.4f, 0.1f), Vector3(3, 0.3f, 0)), &r); W.w->raycast(Ray(Vector3(0.1f, 3, 0.1f), Vector3(0, -3, 0)), &r); Queries q; q.l.r = &rec; W.w->testCollision(q); W.w->testOverlap(b[1], q); rec.i(W.w->testOverlap(b[1], b[2])); }
    }
};
#if RP_TIER
static const int STEPS = 6, VB = 3;
#else
static const int STEPS = 4, VB = 1;
#endif
static float speed() { return sym_grid("vx", -(1 << VB), (1 << VB) - 1, 1) + 0.25f; }
// the byte that fresh memory is full of does not matter
SYM_ENTRY(memory) {
    int sc = sym_pick("scene", 0, NSCENES - 1); float v = sym_concretize_f(speed()); uint8_t g = (uint8_t)sym_bits("byte", 8); Filled m1(g), m2(0); 
    { PhysicsCommon p1(&m1), p2(&m2); Sim a(p1, sc, v), b(p2, sc, v); for (int k = 0; k < STEPS; k++) { a.step(); b.step(); } same(a.rec, b.rec, "a result depends on memory that nothing has written"); sym_observe("n", a.rec.n); for (int i = 0; i < a.rec.n; i += 7) sym_observe("r", a.rec.v[i]); }
    sym_reach("end");
}
// another world is created, stepped and destroyed between the steps of this one
static void disturb(PhysicsCommon& pc, std::unique_ptr<Sim>& x, int op, int sc) { if (op == 1 && !x) x = std::make_unique<Sim>(pc, sc, 0.5f); else if (op == 1) { x->step(); x->step(); } else if (op == 2 && x) x->step(); else if (op == 3) x.reset(); }
SYM_ENTRY(others) {
    int sc = sym_pick("scene", 0, NSCENES - 1); float v = speed(); PhysicsCommon p1, p2; std::unique_ptr<Sim> x; int xs = sym_pick("other", 0, RP_TIER ? NSCENES - 1 : 1); xs = RP_TIER ? xs : (sc + xs * 2) % NSCENES; bool before = sym_pick("before", 0, 1); if (before) { x = std::make_unique<Sim>(p1, xs, -0.5f); x->step(); }
    Sim a(p1, sc, v), b(p2, sc, v); for (int k = 0; k < STEPS; k++) b.step(); for (int k = 0; k < STEPS; k++) { if (k && k < (RP_TIER ? 4 : 3)) { int op = sym_pick("op", 1, 3); disturb(p1, x, op, xs); } a.step(); }
    same(a.rec, b.rec, "another world changed the result"); sym_observe("n", a.rec.n); for (int i = 0; i < a.rec.n; i += 7) sym_observe("r", a.rec.v[i]); x.reset(); sym_reach("end");
}
// memory of worlds that were destroyed is reused
SYM_ENTRY(reuse) {
    int sc = sym_pick("scene", 0, NSCENES - 1), first = sym_pick("first", 0, NSCENES - 1), second = sym_pick("second", 0, RP_TIER ? NSCENES - 1 : 0); second = RP_TIER ? second : (first + 2) % NSCENES; float v = speed(); PhysicsCommon p1, p2;
    { Sim x(p1, first, 0.5f); x.step(); { Sim y(p1, second, -0.5f); y.step(); x.step(); } x.step(); }
    Sim a(p1, sc, v), b(p2, sc, v); for (int k = 0; k < STEPS; k++) { a.step(); b.step(); } same(a.rec, b.rec, "the result depends on worlds that were destroyed before"); sym_observe("n", a.rec.n); for (int i = 0; i < a.rec.n; i += 7) sym_observe("r", a.rec.v[i]); sym_reach("end");
}
