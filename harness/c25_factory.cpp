// C25: every order of creating and destroying objects through the factory leaves nothing behind, gives every byte back to the base allocator and touches nothing that is gone.
#include "surfaces.h"
extern long gStubLive[3] __attribute__((weak));
struct Ear : public EventListener { int n = 0; void onContact(const CollisionCallback::CallbackData& d) override { n += (int)d.getNbContactPairs(); } void onTrigger(const OverlapCallback::CallbackData& d) override { n += (int)d.getNbOverlappingPairs(); } };
struct Factory {
    LedgerAllocator la; Ear ear; PhysicsCommon* pc;
    struct Sh { CollisionShape* s; int kind, users; void* mesh; float half; }; Sh sh[16]; int ns = 0;
    struct Bd { RigidBody* b; int w, nc; Collider* c[4]; int s[4]; }; Bd bd[12]; int nb = 0;
    struct Jt { Joint* j; int a, b; }; Jt jt[12]; int nj = 0;
    PhysicsWorld* w[3]; int nw = 0; int made = 0; float x = 0;
    Factory() { pc = new PhysicsCommon(&la); }
    void world() { if (nw == 3) return; PhysicsWorld::WorldSettings s = settings(Vector3(0, -8, 0)); s.defaultTimeBeforeSleep = 3.0f / 64; w[nw] = pc->createPhysicsWorld(s); w[nw]->setEventListener(&ear); nw++; }
    void dropJoint(int k) { jt[k] = jt[--nj]; }
    void forget(int i) { for (int k = nj - 1; k >= 0; k--) if (jt[k].a == i || jt[k].b == i) dropJoint(k); for (int k = 0; k < bd[i].nc; k++) sh[bd[i].s[k]].users--; nb--; if (i != nb) { bd[i] = bd[nb]; for (int k = 0; k < nj; k++) { if (jt[k].a == nb) jt[k].a = i; if (jt[k].b == nb) jt[k].b = i; } } }
    void endWorld(int i) { if (!nw) return; for (int k = nb - 1; k >= 0; k--) if (bd[k].w == i) forget(k); pc->destroyPhysicsWorld(w[i]); nw--; w[i] = w[nw]; for (int k = 0; k < nb; k++) if (bd[k].w == nw) bd[k].w = i; }
    void shape(int kind) {
        if (ns == 16) return; Sh& o = sh[ns]; o.kind = kind; o.users = 0; o.mesh = nullptr; o.half = 1; std::vector<Message> m;
        if (kind == 0) o.s = pc->createSphereShape(1); else if (kind == 1) o.s = pc->createBoxShape(Vector3(1, 1, 1)); else if (kind == 2) o.s = pc->createCapsuleShape(0.5f, 1);
        else if (kind == 3) { PolygonVertexArray::PolygonFace f[4]; unsigned ix[12]; for (int i = 0; i < 4; i++) { f[i].nbVertices = 3; f[i].indexBase = 3 * i; for (int k = 0; k < 3; k++) ix[3 * i + k] = MESHES[0].f[i][k]; } PolygonVertexArray a(4, MESHES[0].v, 12, ix, 4, 4, f, PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE); ConvexMesh* c = pc->createConvexMesh(a, m); o.mesh = c; o.s = pc->createConvexMeshShape(c); }
        else if (kind == 4) { TriangleVertexArray a(7, CMV, 12, 6, CMI, 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); TriangleMesh* t = pc->createTriangleMesh(a, m); o.mesh = t; o.s = pc->createConcaveMeshShape(t, Vector3(2, 1, 2)); }
        else if (kind == 5) { float h[9] = { 0, 1, 0, 0.5f, 0, 1, 0, 0, 0 }; HeightField* f = pc->createHeightField(3, 3, h, HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, m); o.mesh = f; o.s = pc->createHeightFieldShape(f, Vector3(2, 1, 2)); }
        else { static const float P[8][3] = { {1,1,1}, {-1,1,1}, {1,-1,1}, {-1,-1,1}, {1,1,-1}, {-1,1,-1}, {1,-1,-1}, {0.25f,0,0.5f} }; VertexArray a(P, 12, 8, VertexArray::DataType::VERTEX_FLOAT_TYPE); ConvexMesh* c = pc->createConvexMesh(a, m); o.mesh = c; o.s = pc->createConvexMeshShape(c); }
        ns++;
    }
    void endShape(int i, bool mesh) {
        Sh o = sh[i]; if (o.kind == 0) pc->destroySphereShape(static_cast<SphereShape*>(o.s)); else if (o.kind == 1) pc->destroyBoxShape(static_cast<BoxShape*>(o.s)); else if (o.kind == 2) pc->destroyCapsuleShape(static_cast<CapsuleShape*>(o.s));
        else if (o.kind == 3 || o.kind == 6) { pc->destroyConvexMeshShape(static_cast<ConvexMeshShape*>(o.s)); if (mesh) pc->destroyConvexMesh(static_cast<ConvexMesh*>(o.mesh)); }
        else if (o.kind == 4) { pc->destroyConcaveMeshShape(static_cast<ConcaveMeshShape*>(o.s)); if (mesh) pc->destroyTriangleMesh(static_cast<TriangleMesh*>(o.mesh)); }
        else { pc->destroyHeightFieldShape(static_cast<HeightFieldShape*>(o.s)); if (mesh) pc->destroyHeightField(static_cast<HeightField*>(o.mesh)); }
        ns--; sh[i] = sh[ns]; for (int b = 0; b < nb; b++) for (int k = 0; k < bd[b].nc; k++) if (bd[b].s[k] == ns) bd[b].s[k] = i;
    }
    void addCollider(int i, int s) { Bd& o = bd[i]; if (o.nc == 4) return; o.s[o.nc] = s; o.c[o.nc] = o.b->addCollider(sh[s].s, Transform(Vector3(0, 0.25f * o.nc, 0), Quaternion::identity())); sh[s].users++; o.nc++; }
    void removeCollider(int i, int k) { Bd& o = bd[i]; o.b->removeCollider(o.c[k]); sh[o.s[k]].users--; o.nc--; o.c[k] = o.c[o.nc]; o.s[k] = o.s[o.nc]; }
    void body(int wi, int s) { if (nb == 12 || !nw || !ns) return; Bd& o = bd[nb]; o.w = wi; o.nc = 0; o.b = w[wi]->createRigidBody(Transform(Vector3(0.75f * (made % 3) + x, 1.5f * (made / 3), 0), Quaternion::identity())); made++; nb++; addCollider(nb - 1, s); if (sh[s].kind == 4 || sh[s].kind == 5) o.b->setType(BodyType::STATIC); if (made % 5 == 4) o.c[0]->setIsTrigger(true); }
    void endBody(int i) { if (i < 0 || i >= nb) return; RigidBody* b = bd[i].b; PhysicsWorld* x = w[bd[i].w]; forget(i); x->destroyRigidBody(b); }
    void joint(int a, int b, int kind) {
        if (nj == 12 || a < 0 || b < 0 || a >= nb || b >= nb || a == b || bd[a].w != bd[b].w) return; if (bd[a].b->getType() != BodyType::DYNAMIC && bd[b].b->getType() != BodyType::DYNAMIC) return; PhysicsWorld* x = w[bd[a].w]; Vector3 p = bd[a].b->getTransform().getPosition(); Jt& o = jt[nj]; o.a = a; o.b = b;
        if (kind == 0) { BallAndSocketJointInfo q(bd[a].b, bd[b].b, p); o.j = x->createJoint(q); } else if (kind == 1) { FixedJointInfo q(bd[a].b, bd[b].b, p); q.isCollisionEnabled = false; o.j = x->createJoint(q); } else if (kind == 2) { HingeJointInfo q(bd[a].b, bd[b].b, p, Vector3(0, 0, 1)); o.j = x->createJoint(q); } else { SliderJointInfo q(bd[a].b, bd[b].b, p, Vector3(1, 0, 0)); q.isCollisionEnabled = false; o.j = x->createJoint(q); } nj++;
    }
    void endJoint(int k) { if (k < 0 || k >= nj) return; PhysicsWorld* x = w[bd[jt[k].a].w]; Joint* j = jt[k].j; dropJoint(k); x->destroyJoint(j); }
    void step() { for (int i = 0; i < nw; i++) w[i]->update(1.0f / 64); }
    void rejected() {
        std::vector<Message> m; static const unsigned bad[3] = { 0, 1, 9 }; TriangleVertexArray a(7, CMV, 12, 1, bad, 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); sym_check(pc->createTriangleMesh(a, m) == nullptr, "an invalid triangle mesh is accepted");
        static const float P[4][3] = { {1,0,1}, {-1,0,1}, {1,0,-1}, {-1,0,-1} }; VertexArray v(P, 12, 4, VertexArray::DataType::VERTEX_FLOAT_TYPE); sym_check(pc->createConvexMesh(v, m) == nullptr, "a flat set of points is accepted as convex mesh"); float h[2] = { 0, 1 }; sym_check(pc->createHeightField(1, 2, h, HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, m) == nullptr, "an invalid height field is accepted");
        PolygonVertexArray::PolygonFace f[3]; unsigned ix[9]; for (int i = 0; i < 3; i++) { f[i].nbVertices = 3; f[i].indexBase = 3 * i; for (int k = 0; k < 3; k++) ix[3 * i + k] = MESHES[0].f[i][k]; } PolygonVertexArray p(4, MESHES[0].v, 12, ix, 4, 3, f, PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE); sym_check(pc->createConvexMesh(p, m) == nullptr, "an open convex mesh is accepted"); sym_check(m.size() >= 3, "rejection without a message");
    }
    void counts() { for (int i = 0; i < nw; i++) { int n = 0; for (int k = 0; k < nb; k++) n += bd[k].w == i; sym_check((int)w[i]->getNbRigidBodies() == n, "number of bodies of a world"); } for (int k = 0; k < nb; k++) sym_check((int)bd[k].b->getNbColliders() == bd[k].nc, "number of colliders of a body"); }
    void end() { if (!pc) return; delete pc; pc = nullptr; sym_check(la.n == 0 && la.live == 0, "memory of the base allocator is not given back"); if (&gStubLive[0]) { sym_check(gStubLive[0] == 0, "a heap block is never released"); sym_check(gStubLive[1] == 0, "a pool block is never released"); } sym_reach("end"); }
};
static int unused(Factory& F, bool last) { for (int k = 0; k < F.ns; k++) { int i = last ? F.ns - 1 - k : k; if (F.sh[i].users == 0) return i; } return -1; }
static void op(Factory& F, int o) {
    switch (o) {
        case 0: F.world(); break;
        case 1: F.endWorld(0); break;
        case 2: if (F.nw) F.endWorld(F.nw - 1); break;
        case 3: F.body(F.nw - 1, F.ns - 1); break;
        case 4: F.body(0, F.made % (F.ns ? F.ns : 1)); break;
        case 5: F.endBody(0); break;
        case 6: F.endBody(F.nb - 1); break;
        case 7: F.joint(F.nb - 1, F.nb - 2, F.made % 4); F.joint(0, 1, (F.made + 1) % 4); break;
        case 8: F.endJoint(0); break;
        case 9: F.endJoint(F.nj - 1); break;
        case 10: F.step(); break;
        case 11: { int i = unused(F, false); if (i >= 0) F.endShape(i, true); break; }
        case 12: { int i = unused(F, true); if (i >= 0) F.endShape(i, F.sh[i].kind % 2); break; }
        case 13: F.shape(F.made % 7); break;
        case 14: if (F.nb && F.bd[0].nc) F.removeCollider(0, 0); if (F.nb && F.bd[F.nb - 1].nc) F.removeCollider(F.nb - 1, F.bd[F.nb - 1].nc - 1); break;
        case 15: if (F.nb && F.ns) { F.addCollider(F.nb - 1, 0); F.addCollider(0, F.ns - 1); } break;
        case 16: F.rejected(); break;
        case 17: for (int i = 0; i < F.nw; i++) { Contacts c; F.w[i]->testCollision(c); Overlaps v; F.w[i]->testOverlap(v); } break;
        case 18: for (int k = 0; k < F.nb; k++) if (F.bd[k].b->getType() != BodyType::STATIC) F.bd[k].b->setIsSleeping(k % 2); break;
        case 19: if (F.nb) { RigidBody* b = F.bd[0].b; b->setIsActive(!b->isActive()); } break;
        case 20: for (int i = 0; i < F.nw; i++) { F.w[i]->setIsDebugRenderingEnabled(true); F.w[i]->getDebugRenderer().setIsDebugItemDisplayed(DebugRenderer::DebugItem::COLLIDER_AABB, true); F.w[i]->getDebugRenderer().setIsDebugItemDisplayed(DebugRenderer::DebugItem::CONTACT_POINT, true); F.w[i]->getDebugRenderer().setIsDebugItemDisplayed(DebugRenderer::DebugItem::COLLISION_SHAPE, true); } break;
        case 21: { DefaultLogger* l = F.pc->createDefaultLogger(); if (F.made % 2) F.pc->destroyDefaultLogger(l); break; }
        case 22: if (F.nb) { RigidBody* b = F.bd[F.nb - 1].b; for (int k = 0; k < F.bd[F.nb - 1].nc; k++) b->getCollider(k)->setIsTrigger(!b->getCollider(k)->getIsTrigger()); } break;
        case 23: if (F.nb) { RigidBody* b = F.bd[0].b; if (F.bd[0].nc && (F.sh[F.bd[0].s[0]].kind < 4 || F.sh[F.bd[0].s[0]].kind == 6)) b->setType(b->getType() == BodyType::STATIC ? BodyType::DYNAMIC : BodyType::STATIC); } break;
    }
    F.counts();
}
// prepared states: 0 nothing, 1 two worlds with bodies of all shapes, joints, steps; 2 one world, stacked; 3 everything asleep
static void prepare(Factory& F, int p) {
    if (p == 0) return; F.world(); int first = p == 2 ? 1 : 0; for (int k = 0; k < 7; k++) F.shape((k + first) % 7);
    if (p == 1) F.world(); for (int i = 0; i < 7; i++) F.body(i % F.nw, i); for (int i = 0; i < 2; i++) F.joint(i, i + 2, i + (p == 1 ? 0 : 2)); F.joint(1, 5 % F.nb, 1); F.step(); if (p == 3) { op(F, 18); F.step(); }
}
static const int N = 24;
SYM_ENTRY(any2) { Factory F; int p = sym_pick("prepared", 0, 3); prepare(F, p); int a = sym_pick("op", 0, N - 1); op(F, a); int b = sym_pick("op", 0, N - 1); op(F, b); F.step(); F.counts(); sym_observe("bodies", F.nb); F.end(); }
// a longer history of the operations that create and destroy
SYM_ENTRY(build3) { static const int O[11] = { 0, 13, 3, 7, 10, 5, 1, 15, 14, 11, 8 }; Factory F; int p = sym_pick("prepared", 0, 1); if (p) { F.world(); F.shape(1); F.shape(0); F.body(0, 0); F.body(0, 1); } for (int i = 0; i < (RP_TIER ? 4 : 3); i++) { int o = sym_pick("op", 0, 10); op(F, O[o]); } F.step(); sym_observe("bodies", F.nb); F.end(); }
// bodies that meet and part while the symbolic place decides who touches whom; then one thing is destroyed in every state
SYM_ENTRY(touching) { Factory F; F.x = 0.5f * sym_range("x", -4, 3); prepare(F, 2); int a = sym_pick("op", 0, 7); static const int O[8] = { 5, 6, 2, 9, 14, 19, 22, 23 }; F.step(); op(F, O[a]); F.step(); F.counts(); sym_observe("bodies", F.nb); F.end(); }
// many objects of one kind, destroyed from the front, from the back, or left to the factory
SYM_ENTRY(many) { Factory F; F.world(); int k = sym_pick("kind", 0, 6), how = sym_pick("how", 0, 3); for (int i = 0; i < 12; i++) F.shape(k); for (int i = 0; i < 10; i++) F.body(0, i); for (int i = 0; i + 1 < 10; i++) F.joint(i, i + 1, i % 4); F.step(); if (how == 0) while (F.nb) F.endBody(0); if (how == 1) while (F.nb) F.endBody(F.nb - 1); if (how < 2) while (F.ns) F.endShape(how ? F.ns - 1 : 0, F.ns % 2); if (how == 2) F.endWorld(0); F.step(); sym_observe("bodies", F.nb); F.end(); }
