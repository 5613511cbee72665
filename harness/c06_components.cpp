// C06: per-entity data in the component tables.
#include "common.h"
#include <reactphysics3d/components/TransformComponents.h>
#include <reactphysics3d/components/BodyComponents.h>
#include <reactphysics3d/components/RigidBodyComponents.h>
#include <reactphysics3d/components/ColliderComponents.h>
#include <reactphysics3d/components/JointComponents.h>
#include <reactphysics3d/components/BallAndSocketJointComponents.h>
#include <reactphysics3d/components/FixedJointComponents.h>
#include <reactphysics3d/components/HingeJointComponents.h>
#include <reactphysics3d/components/SliderJointComponents.h>
template <class C> struct Acc;
static inline uint32_t mix(uint32_t s, int i) { return s + 0x9E3779B1u * (uint32_t)(i + 1); }
static inline float fb(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static inline uint32_t bf(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
template <class T> T mk(uint32_t s, int i) { return (T)(uintptr_t)(mix(s, i) & ~7u); }         // pointers
template <> inline float mk<float>(uint32_t s, int i) { return fb(mix(s, i)); }
template <> inline bool mk<bool>(uint32_t s, int i) { return (mix(s, i) >> 5) & 1; }
template <> inline int32_t mk<int32_t>(uint32_t s, int i) { return (int32_t)mix(s, i); }
template <> inline unsigned short mk<unsigned short>(uint32_t s, int i) { return (unsigned short)mix(s, i); }
template <> inline Vector3 mk<Vector3>(uint32_t s, int i) { return Vector3(fb(mix(s, i * 3)), fb(mix(s, i * 3) ^ 1), fb(mix(s, i * 3) ^ 2)); }
template <> inline Vector2 mk<Vector2>(uint32_t s, int i) { return Vector2(fb(mix(s, i * 3)), fb(mix(s, i * 3) ^ 1)); }
template <> inline Quaternion mk<Quaternion>(uint32_t s, int i) { return Quaternion(fb(mix(s, i)), fb(mix(s, i) ^ 1), fb(mix(s, i) ^ 2), fb(mix(s, i) ^ 4)); }
template <> inline Matrix3x3 mk<Matrix3x3>(uint32_t s, int i) { Matrix3x3 m; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) m[r][c] = fb(mix(s, i) ^ (r * 4 + c)); return m; }
template <> inline Matrix2x2 mk<Matrix2x2>(uint32_t s, int i) { Matrix2x2 m; for (int r = 0; r < 2; r++) for (int c = 0; c < 2; c++) m[r][c] = fb(mix(s, i) ^ (r * 2 + c)); return m; }
template <> inline Transform mk<Transform>(uint32_t s, int i) { return Transform(mk<Vector3>(s, i), mk<Quaternion>(s, i)); }
template <> inline BodyType mk<BodyType>(uint32_t s, int i) { return (BodyType)(mix(s, i) & 1); }
template <> inline JointsPositionCorrectionTechnique mk<JointsPositionCorrectionTechnique>(uint32_t s, int i) { return (JointsPositionCorrectionTechnique)(mix(s, i) & 1); }
template <class T> bool eqv(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> bool eqp(T a, T b) { return a == b; }
static inline bool eqf(float a, float b) { return bf(a) == bf(b); }
template <> inline bool eqv<float>(const float& a, const float& b) { return eqf(a, b); }
template <> inline bool eqv<bool>(const bool& a, const bool& b) { return a == b; }
template <> inline bool eqv<Vector3>(const Vector3& a, const Vector3& b) { return eqf(a.x, b.x) & eqf(a.y, b.y) & eqf(a.z, b.z); }
template <> inline bool eqv<Vector2>(const Vector2& a, const Vector2& b) { return eqf(a.x, b.x) & eqf(a.y, b.y); }
template <> inline bool eqv<Quaternion>(const Quaternion& a, const Quaternion& b) { return eqf(a.x, b.x) & eqf(a.y, b.y) & eqf(a.z, b.z) & eqf(a.w, b.w); }
template <> inline bool eqv<Matrix3x3>(const Matrix3x3& a, const Matrix3x3& b) { bool k = true; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) k &= eqf(a[r][c], b[r][c]); return k; }
template <> inline bool eqv<Matrix2x2>(const Matrix2x2& a, const Matrix2x2& b) { bool k = true; for (int r = 0; r < 2; r++) for (int c = 0; c < 2; c++) k &= eqf(a[r][c], b[r][c]); return k; }
template <> inline bool eqv<Transform>(const Transform& a, const Transform& b) { return eqv<Vector3>(a.getPosition(), b.getPosition()) & eqv<Quaternion>(a.getOrientation(), b.getOrientation()); }
#include "c06_gen.h"

// data given at creation that has no setter
static const Vector3 V0(0, 0, 0);
static inline Entity other(uint32_t s, int k) { return Entity((s * 2 + k) & 0xffffff, 0); }
template <class T> static T* fake(uint32_t s) { return (T*)(uintptr_t)(0x1000 + (uintptr_t)s * 64); }
static void add(TransformComponents& c, Entity e, bool d, int id) { (void)id; c.addComponent(e, d, TransformComponents::TransformComponent(Transform::identity())); }
static bool created(TransformComponents&, Entity, int) { return true; }
static void add(BodyComponents& c, Entity e, bool d, int id) { c.addComponent(e, d, BodyComponents::BodyComponent(fake<Body>(id))); for (int k = 0; k < id % 3; k++) c.addColliderToBody(e, other(id, k)); }
static bool created(BodyComponents& c, Entity e, int id) { bool ok = c.getBody(e) == fake<Body>(id); const Array<Entity>& a = c.getColliders(e); ok &= (int)a.size() == id % 3; if (ok) for (int k = 0; k < id % 3; k++) ok &= a[k] == other(id, k); return ok; }
static void add(RigidBodyComponents& c, Entity e, bool d, int id) { c.addComponent(e, d, RigidBodyComponents::RigidBodyComponent(fake<RigidBody>(id), BodyType::DYNAMIC, V0)); for (int k = 0; k < id % 3; k++) c.addJointToBody(e, other(id, k)); }
static bool created(RigidBodyComponents& c, Entity e, int id) { bool ok = c.getRigidBody(e) == fake<RigidBody>(id); const Array<Entity>& a = c.getJoints(e); ok &= (int)a.size() == id % 3; if (ok) for (int k = 0; k < id % 3; k++) ok &= a[k] == other(id, k); return ok; }
static void add(ColliderComponents& c, Entity e, bool d, int id) { Material m(0.5f, 0.25f, 1.0f); c.addComponent(e, d, ColliderComponents::ColliderComponent(other(id, 5), fake<Collider>(id), AABB(V0, V0), Transform::identity(), fake<CollisionShape>(id + 100), 1, 2, Transform::identity(), m)); for (int k = 0; k < id % 3; k++) c.getOverlappingPairs(e).add(1000 + id * 4 + k); c.getMaterial(e).setMassDensity(fb(0x3f800000u + id)); }
static bool created(ColliderComponents& c, Entity e, int id) { bool ok = c.getCollider(e) == fake<Collider>(id); ok &= c.getBody(e) == other(id, 5); ok &= c.getCollisionShape(e) == fake<CollisionShape>(id + 100); const Array<uint64>& a = c.getOverlappingPairs(e); ok &= (int)a.size() == id % 3; if (ok) for (int k = 0; k < id % 3; k++) ok &= a[k] == (uint64)(1000 + id * 4 + k); ok &= c.getMaterial(e).getMassDensity() == fb(0x3f800000u + id); return ok; }
static void add(JointComponents& c, Entity e, bool d, int id) { c.addComponent(e, d, JointComponents::JointComponent(other(id, 1), other(id, 2), fake<Joint>(id), (JointType)(id & 3), JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS, false)); }
static bool created(JointComponents& c, Entity e, int id) { return (c.getBody1Entity(e) == other(id, 1)) & (c.getBody2Entity(e) == other(id, 2)) & (c.getJoint(e) == fake<Joint>(id)) & (c.getType(e) == (JointType)(id & 3)); }
static void add(BallAndSocketJointComponents& c, Entity e, bool d, int) { c.addComponent(e, d, BallAndSocketJointComponents::BallAndSocketJointComponent(false, 1)); }
static bool created(BallAndSocketJointComponents&, Entity, int) { return true; }
static void add(FixedJointComponents& c, Entity e, bool d, int) { c.addComponent(e, d, FixedJointComponents::FixedJointComponent()); }
static bool created(FixedJointComponents&, Entity, int) { return true; }
static void add(HingeJointComponents& c, Entity e, bool d, int) { c.addComponent(e, d, HingeJointComponents::HingeJointComponent(false, false, 0, 0, 0, 0)); }
static bool created(HingeJointComponents&, Entity, int) { return true; }
static void add(SliderJointComponents& c, Entity e, bool d, int) { c.addComponent(e, d, SliderJointComponents::SliderJointComponent(false, false, 0, 0, 0, 0)); }
static bool created(SliderJointComponents&, Entity, int) { return true; }

struct Rec { Entity e; bool dis; int id; uint32_t seed; Rec() : e(0, 0) {} };
template <class C> static void verify(C& c, Rec* r, int n, const char* where) {
    int en = 0; for (int i = 0; i < n; i++) en += !r[i].dis;
    sym_check((int)c.getNbComponents() == n, "component count differs from the number of live entities");
    sym_check((int)c.getNbEnabledComponents() == en, "enabled count differs from the number of enabled entities");
    bool pos = true, data = true;
    bool used[64] = {};
    for (int i = 0; i < n; i++) {
        sym_check(c.hasComponent(r[i].e), "component of a live entity is missing");
        uint32 ix = c.getEntityIndex(r[i].e); sym_check(ix < (uint32)n, "component index out of range"); pos &= !used[ix]; used[ix] = true;
        pos &= (ix < (uint32)en) == !r[i].dis; pos &= c.getIsEntityDisabled(r[i].e) == r[i].dis;
        data &= Acc<C>::same(c, r[i].e, r[i].seed); sym_check(created(c, r[i].e, r[i].id), "data given at creation no longer belongs to the entity");
    }
    sym_check(pos, "enabled components are not exactly the first part of the table");
    sym_check(data, where);
}
template <class C> static void history(int prefill, int K) {
    LedgerAllocator al;
    {
        C c(al); c.init(); auto largest = [&]() { size_t m = 0; for (int i = 0; i < al.n; i++) if (al.blocks[i].size > m) m = al.blocks[i].size; return m; }; size_t first = largest();      // the table is the largest block
        Rec r[64]; int n = 0, next = 0;
        auto doAdd = [&](bool dis, uint32_t seed) { r[n].e = Entity(next * 16 + 3, next & 3); r[n].dis = dis; r[n].id = next; r[n].seed = seed; next++; add(c, r[n].e, dis, r[n].id); Acc<C>::set(c, r[n].e, seed); n++; };
        int ndis = prefill ? sym_pick("ndis", 0, prefill > 3 ? 2 : prefill) : 0;
        for (int i = 0; i < prefill; i++) doAdd(i >= prefill - ndis, (uint32_t)(7919u * (i + 1)));
        for (int k = 0; k < K; k++) {
            int op = sym_pick("op", 0, 3);
            if (op == 0) { bool d = sym_pick("dis", 0, 1); uint32_t s = (uint32_t)sym_bits("seed", 32); doAdd(d, s); }
            else {
                if (!n) break;
                int w = n <= 4 ? sym_pick("who", 0, n - 1) : (int)((const int[]){0, 1, n / 2, n - 3, n - 2, n - 1})[sym_pick("who", 0, 5)];
                if (op == 1) { c.removeComponent(r[w].e); sym_check(!c.hasComponent(r[w].e), "removed entity still has a component"); n--; for (int i = w; i < n; i++) r[i] = r[i + 1]; }
                else { r[w].dis = op == 2; c.setIsEntityDisabled(r[w].e, r[w].dis); }
            }
        }
        verify(c, r, n, "field data no longer belongs to its entity");
        if (largest() > first) sym_reach("grown"); sym_reach("verified"); sym_observe("n", n); sym_observe("en", c.getNbEnabledComponents());
        if (n) { uint32_t s2 = (uint32_t)sym_bits("seed2", 32); Acc<C>::set(c, r[n - 1].e, s2); r[n - 1].seed = s2; verify(c, r, n, "setting the fields of one entity changed another"); }
        for (int i = 0; i < n; i++) c.removeComponent(r[i].e);      // as the world does before its tables go away
        sym_check(c.getNbComponents() == 0, "components left after removing all entities");
    }
    sym_check(al.n == 0, "component table kept memory");
}
#if RP_TIER
static const int KS = 4, KG = 3, PMAX = 4;
#else
static const int KS = 3, KG = 2, PMAX = 3;
#endif
SYM_ENTRY(transform_small) { history<TransformComponents>(sym_pick("prefill", 0, PMAX), KS); }
SYM_ENTRY(transform_growth) { history<TransformComponents>(15 + sym_pick("prefill", 0, 1), KG); }
SYM_ENTRY(body_small) { history<BodyComponents>(sym_pick("prefill", 0, PMAX), KS); }
SYM_ENTRY(body_growth) { history<BodyComponents>(15 + sym_pick("prefill", 0, 1), KG); }
SYM_ENTRY(rigidbody_small) { history<RigidBodyComponents>(sym_pick("prefill", 0, PMAX), KS); }
SYM_ENTRY(rigidbody_growth) { history<RigidBodyComponents>(15 + sym_pick("prefill", 0, 1), KG); }
SYM_ENTRY(collider_small) { history<ColliderComponents>(sym_pick("prefill", 0, PMAX), KS); }
SYM_ENTRY(collider_growth) { history<ColliderComponents>(15 + sym_pick("prefill", 0, 1), KG); }
SYM_ENTRY(joint_small) { history<JointComponents>(sym_pick("prefill", 0, PMAX), KS); }
SYM_ENTRY(joint_growth) { history<JointComponents>(15 + sym_pick("prefill", 0, 1), KG); }
SYM_ENTRY(ballsocket_small) { history<BallAndSocketJointComponents>(sym_pick("prefill", 0, PMAX), KS); }
SYM_ENTRY(ballsocket_growth) { history<BallAndSocketJointComponents>(15 + sym_pick("prefill", 0, 1), KG); }
SYM_ENTRY(fixed_small) { history<FixedJointComponents>(sym_pick("prefill", 0, PMAX), KS); }
SYM_ENTRY(fixed_growth) { history<FixedJointComponents>(15 + sym_pick("prefill", 0, 1), KG); }
SYM_ENTRY(hinge_small) { history<HingeJointComponents>(sym_pick("prefill", 0, PMAX), KS); }
SYM_ENTRY(hinge_growth) { history<HingeJointComponents>(15 + sym_pick("prefill", 0, 1), KG); }
SYM_ENTRY(slider_small) { history<SliderJointComponents>(sym_pick("prefill", 0, PMAX), KS); }
SYM_ENTRY(slider_growth) { history<SliderJointComponents>(15 + sym_pick("prefill", 0, 1), KG); }
