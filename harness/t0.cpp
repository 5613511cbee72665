#include "common.h"
static PhysicsWorld::WorldSettings wsOf() { PhysicsWorld::WorldSettings s; s.worldName = "w"; return s; }
struct Rec : public EventListener { int n = 0, st = 0;
  void onContact(const CollisionCallback::CallbackData& d) override { n++; for (uint32 i = 0; i < d.getNbContactPairs(); i++) st += (int)d.getContactPair(i).getEventType() + 1; } };
SYM_ENTRY(world_two_spheres) {
    LedgerAllocator* la = nullptr; (void)la;
    PhysicsCommon pc;
    PhysicsWorld* w = pc.createPhysicsWorld(wsOf()); Rec rec; w->setEventListener(&rec);
    SphereShape* s = pc.createSphereShape(1.0f);
    float x = sym_grid("x", 0, 16, 2);
    RigidBody* a = w->createRigidBody(Transform(Vector3(0, 0, 0), Quaternion::identity())); a->addCollider(s, Transform::identity());
    RigidBody* b = w->createRigidBody(Transform(Vector3(x, 0, 0), Quaternion::identity())); b->addCollider(s, Transform::identity());
    for (int i = 0; i < 3; i++) w->update(1.0f / 64);
    sym_observe("n", rec.n); sym_observe("st", rec.st); sym_observe_f("bx", b->getTransform().getPosition().x);
    sym_reach("end");
}
SYM_ENTRY(world_box_floor) {
    PhysicsCommon pc;
    PhysicsWorld* w = pc.createPhysicsWorld(wsOf()); Rec rec; w->setEventListener(&rec);
    BoxShape* fl = pc.createBoxShape(Vector3(10, 1, 10)); BoxShape* s = pc.createBoxShape(Vector3(1, 1, 1));
    int k = sym_pick("k", 0, 2);
    RigidBody* a = w->createRigidBody(Transform(Vector3(0, -1, 0), Quaternion::identity())); a->addCollider(fl, Transform::identity()); a->setType(BodyType::STATIC);
    RigidBody* b = w->createRigidBody(Transform(Vector3(0, 1.0f + k * 0.5f, 0), Quaternion::identity())); b->addCollider(s, Transform::identity());
    for (int i = 0; i < 10; i++) w->update(1.0f / 64);
    sym_observe("n", rec.n); sym_observe("st", rec.st); sym_observe_f("by", b->getTransform().getPosition().y);
    sym_reach("end");
}
