// Shared kit of the world-level harnesses: world creation, recorders of contacts / overlaps / events, geometry oracles.
#pragma once
#include "common.h"
#include <new>

// Rotations 0..11 are exact in binary floating point (axis permutations with signs, quaternion entries 0, 1, 1/2)
static inline Quaternion rotq(int k) {
    static const float q[20][4] = { {0,0,0,1}, {1,0,0,0}, {0,1,0,0}, {0,0,1,0}, {.5f,.5f,.5f,.5f}, {-.5f,-.5f,-.5f,.5f}, {.5f,-.5f,.5f,.5f}, {-.5f,.5f,.5f,.5f}, {.5f,.5f,-.5f,.5f}, {-.5f,-.5f,.5f,.5f}, {-.5f,.5f,-.5f,.5f}, {.5f,-.5f,-.5f,.5f},
        {0,0,0.70710678f,0.70710678f}, {0.70710678f,0,0,0.70710678f}, {0,0.38268343f,0,0.92387953f}, {0,0,0.38268343f,0.92387953f}, {0.2f,0.4f,-0.1f,0.88881944f}, {-0.6f,0.1f,0.3f,0.73484692f}, {0.0f,0.0f,0.04997917f,0.99875026f}, {0.01f,-0.02f,0.005f,0.99973747f} };
    Quaternion r(q[k][0], q[k][1], q[k][2], q[k][3]); if (k >= 12) r.normalize(); return r;
}
static inline PhysicsWorld::WorldSettings settings(Vector3 g = Vector3(0, 0, 0)) { PhysicsWorld::WorldSettings s; s.worldName = "w"; s.gravity = g; return s; }
struct World {
    struct Own { alignas(16) char m[sizeof(PhysicsCommon)]; PhysicsCommon* p = nullptr; ~Own() { if (p) p->~PhysicsCommon(); } } own; PhysicsCommon& pc; PhysicsWorld* w;
    World(Vector3 g = Vector3(0, 0, 0)) : pc(*(own.p = new (own.m) PhysicsCommon())) { w = pc.createPhysicsWorld(settings(g)); }
    World(PhysicsCommon& shared, Vector3 g) : pc(shared) { w = pc.createPhysicsWorld(settings(g)); }
    ~World() { if (!own.p) pc.destroyPhysicsWorld(w); }
    World(const World&) = delete;
    RigidBody* body(CollisionShape* s, const Vector3& p, int rot = 0, BodyType t = BodyType::DYNAMIC) {
        RigidBody* b = w->createRigidBody(Transform(p, rotq(rot))); if (t != BodyType::DYNAMIC) b->setType(t);
        if (s) b->addCollider(s, Transform::identity()); return b;
    }
    RigidBody* body(CollisionShape* s, const Transform& tr, BodyType t = BodyType::DYNAMIC) {
        RigidBody* b = w->createRigidBody(tr); if (t != BodyType::DYNAMIC) b->setType(t);
        if (s) b->addCollider(s, Transform::identity()); return b;
    }
    void step(int n = 1, float dt = 1.0f / 64) { for (int i = 0; i < n; i++) w->update(dt); }
};
struct Contact { Body *b1, *b2; Collider *c1, *c2; Vector3 n, l1, l2; float depth; };
// Collects what the collision queries report
struct Contacts : public CollisionCallback {
    static const int MAX = 64; Contact c[MAX]; int n = 0, pairs = 0, calls = 0; Body *pb1[MAX], *pb2[MAX]; Collider *pc1[MAX], *pc2[MAX];
    void onContact(const CallbackData& d) override {
        calls++;
        for (uint32 i = 0; i < d.getNbContactPairs(); i++) {
            ContactPair p = d.getContactPair(i);
            sym_check(pairs < MAX, "too many pairs"); pb1[pairs] = p.getBody1(); pb2[pairs] = p.getBody2(); pc1[pairs] = p.getCollider1(); pc2[pairs] = p.getCollider2(); pairs++;
            for (uint32 k = 0; k < p.getNbContactPoints(); k++) {
                ContactPoint q = p.getContactPoint(k); sym_check(n < MAX, "too many contact points"); Contact& o = c[n++];
                o.b1 = p.getBody1(); o.b2 = p.getBody2(); o.c1 = p.getCollider1(); o.c2 = p.getCollider2(); o.n = q.getWorldNormal(); o.l1 = q.getLocalPointOnCollider1(); o.l2 = q.getLocalPointOnCollider2(); o.depth = q.getPenetrationDepth();
            }
        }
    }
    int count(const Body* a, const Body* b) const { int r = 0; for (int i = 0; i < pairs; i++) r += (pb1[i] == a && pb2[i] == b) || (pb1[i] == b && pb2[i] == a); return r; }
};
struct Overlaps : public OverlapCallback {
    static const int MAX = 64; int pairs = 0; Body *pb1[MAX], *pb2[MAX]; Collider *pc1[MAX], *pc2[MAX];
    void onOverlap(CallbackData& d) override {
        for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) {
            OverlapPair p = d.getOverlappingPair(i); sym_check(pairs < MAX, "too many pairs"); pb1[pairs] = p.getBody1(); pb2[pairs] = p.getBody2(); pc1[pairs] = p.getCollider1(); pc2[pairs] = p.getCollider2(); pairs++;
        }
    }
    int count(const Body* a, const Body* b) const { int r = 0; for (int i = 0; i < pairs; i++) r += (pb1[i] == a && pb2[i] == b) || (pb1[i] == b && pb2[i] == a); return r; }
};
// Events of the simulation, in the order they are reported
struct Event { int kind; int type; Body *b1, *b2; Collider *c1, *c2; int npts; };      // kind 0 contact, 1 trigger; type 0 start 1 stay 2 exit
struct Events : public EventListener {
    static const int MAX = 128; Event e[MAX]; int n = 0; float maxDepth = 0; Vector3 lastNormal;
    void onContact(const CollisionCallback::CallbackData& d) override {
        for (uint32 i = 0; i < d.getNbContactPairs(); i++) {
            CollisionCallback::ContactPair p = d.getContactPair(i); sym_check(n < MAX, "too many events");
            CollisionCallback::ContactPair::EventType t = p.getEventType();
            e[n].kind = 0; e[n].type = t == CollisionCallback::ContactPair::EventType::ContactStart ? 0 : t == CollisionCallback::ContactPair::EventType::ContactStay ? 1 : 2;
            e[n].b1 = p.getBody1(); e[n].b2 = p.getBody2(); e[n].c1 = p.getCollider1(); e[n].c2 = p.getCollider2(); e[n].npts = (int)p.getNbContactPoints();
            n++;
        }
    }
    void onTrigger(const OverlapCallback::CallbackData& d) override {
        for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) {
            OverlapCallback::OverlapPair p = d.getOverlappingPair(i); sym_check(n < MAX, "too many events");
            OverlapCallback::OverlapPair::EventType t = p.getEventType();
            e[n].kind = 1; e[n].type = t == OverlapCallback::OverlapPair::EventType::OverlapStart ? 0 : t == OverlapCallback::OverlapPair::EventType::OverlapStay ? 1 : 2;
            e[n].b1 = p.getBody1(); e[n].b2 = p.getBody2(); e[n].c1 = p.getCollider1(); e[n].c2 = p.getCollider2(); e[n].npts = 0; n++;
        }
    }
    // number of events of this kind between the two colliders since 'from'; type of the last one in *type
    int count(const Collider* a, const Collider* b, int kind, int* type = nullptr, int from = 0) const {
        int r = 0; for (int i = from; i < n; i++) if (e[i].kind == kind && ((e[i].c1 == a && e[i].c2 == b) || (e[i].c1 == b && e[i].c2 == a))) { r++; if (type) *type = e[i].type; }
        return r;
    }
};
// double precision helpers for oracles
struct D3 { double x, y, z; D3() : x(0), y(0), z(0) {} D3(double a, double b, double c) : x(a), y(b), z(c) {} D3(const Vector3& v) : x(v.x), y(v.y), z(v.z) {} };
static inline D3 operator+(const D3& a, const D3& b) { return D3(a.x + b.x, a.y + b.y, a.z + b.z); }
static inline D3 operator-(const D3& a, const D3& b) { return D3(a.x - b.x, a.y - b.y, a.z - b.z); }
static inline D3 operator*(const D3& a, double s) { return D3(a.x * s, a.y * s, a.z * s); }
static inline double dot(const D3& a, const D3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline D3 cross(const D3& a, const D3& b) { return D3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static inline double len(const D3& a) { return std::sqrt(dot(a, a)); }
static inline double absd(double a) { return a < 0 ? -a : a; }
static inline double mind(double a, double b) { return a < b ? a : b; }
static inline double maxd(double a, double b) { return a > b ? a : b; }
static inline double clampd(double v, double a, double b) { return v < a ? a : v > b ? b : v; }
static inline bool neard(const D3& a, const D3& b, double e) { return (absd(a.x - b.x) <= e) & (absd(a.y - b.y) <= e) & (absd(a.z - b.z) <= e); }
static inline D3 rotd(const Quaternion& q, const D3& v) { D3 u(q.x, q.y, q.z); double s = q.w; return u * (2 * dot(u, v)) + v * (s * s - dot(u, u)) + cross(u, v) * (2 * s); }
static inline D3 trd(const Transform& t, const D3& v) { return rotd(t.getOrientation(), v) + D3(t.getPosition()); }
static inline D3 invtrd(const Transform& t, const D3& v) { Quaternion q = t.getOrientation(); return rotd(Quaternion(-q.x, -q.y, -q.z, q.w), v - D3(t.getPosition())); }
// squared distance between point and segment
static inline double distPS2(const D3& p, const D3& a, const D3& b) { D3 ab = b - a; double l = dot(ab, ab); double t = l > 0 ? clampd(dot(p - a, ab) / l, 0, 1) : 0; D3 d = a + ab * t - p; return dot(d, d); }
// squared distance between two segments: minimum over the end points and, when not parallel, the interior critical point
static inline double distSS2(const D3& a, const D3& b, const D3& c, const D3& d) {
    double r = mind(mind(distPS2(a, c, d), distPS2(b, c, d)), mind(distPS2(c, a, b), distPS2(d, a, b)));
    D3 u = b - a, v = d - c, w = a - c; double A = dot(u, u), B = dot(u, v), C = dot(v, v), D = dot(u, w), E = dot(v, w), den = A * C - B * B;
    if (den > 1e-12) { double s = (B * E - C * D) / den, t = (A * E - B * D) / den; if ((s >= 0) & (s <= 1) & (t >= 0) & (t <= 1)) { D3 x = w + u * s - v * t; r = mind(r, dot(x, x)); } }
    return r;
}
