// C07: collision filtering by category and mask bits, symbolic 16-bit values, against the definition.
#include "surfaces.h"
struct Bits { unsigned short cat, mask; };
static Bits bits(const char* c, const char* m) { Bits b; b.cat = (unsigned short)sym_bits(c, 16); b.mask = (unsigned short)sym_bits(m, 16); return b; }
static bool accept(const Bits& a, const Bits& b) { return ((a.cat & b.mask) != 0) & ((b.cat & a.mask) != 0); }
static void setBits(Collider* c, const Bits& b) { c->setCollisionCategoryBits(b.cat); c->setCollideWithMaskBits(b.mask); sym_check((c->getCollisionCategoryBits() == b.cat) & (c->getCollideWithMaskBits() == b.mask), "bits read back differ from those set"); }
struct Pair2 { World W; Events ev; RigidBody* b[2]; Collider* c[2]; bool trigger; };
// shapes: 0 spheres 1 sphere-box 2 convex-box 3 sphere-concave 4 box-height field; the concave body is static
static void make(Pair2& P, int kind, int order, int trig) {
    World& W = P.W; W.w->setEventListener(&P.ev); W.w->enableSleeping(true); CollisionShape* s[2]; Tris T; s[0] = kind == 2 ? solid(W, 4).s : kind == 4 ? boxOf(W, Vector3(1, 1, 1)).s : sphereOf(W, 1).s;
    s[1] = kind == 0 ? s[0] : kind == 1 ? boxOf(W, Vector3(1, 1, 1)).s : kind == 2 ? solid(W, 2).s : kind == 3 ? (CollisionShape*)concaveOf(W, Vector3(1, 1, 1), T) : (CollisionShape*)fieldOf(W, 0, 0, Vector3(1, 1, 1), T);
    for (int k = 0; k < 2; k++) { int i = order ? 1 - k : k; P.b[i] = W.w->createRigidBody(Transform(i ? Vector3(0, 0, 0) : Vector3(0.5f, 0.75f, 0.25f), Quaternion::identity())); if (i == 1 && kind >= 3) P.b[i]->setType(BodyType::STATIC); P.c[i] = P.b[i]->addCollider(s[i], Transform::identity()); }
    P.trigger = trig != 0; if (trig) P.c[trig - 1]->setIsTrigger(true);
}
// what one step reports: -1 nothing, 0 start, 1 stay, 2 exit
static int stepEvent(Pair2& P) {
    int from = P.ev.n; P.W.step(1, 1.0f / 64); int t = -1, n = P.ev.count(P.c[0], P.c[1], P.trigger ? 1 : 0, &t, from), other = P.ev.count(P.c[0], P.c[1], P.trigger ? 0 : 1, nullptr, from);
    sym_check(n <= 1, "several events of one pair in one step"); sym_check(other == 0, "event of the wrong kind"); sym_check(P.ev.n - from == n, "event of unknown colliders"); return n ? t : -1;
}
static int expectNext(int& touching, bool now) { int e = now ? (touching ? 1 : 0) : (touching ? 2 : -1); touching = now; return e; }
static void queries(Pair2& P, bool now) {
    World& W = P.W; Overlaps o1, o2, o3; Contacts k1, k2, k3; bool t = W.w->testOverlap(P.b[0], P.b[1]); sym_check(t == now, "testOverlap of two bodies disagrees with the filter");
    W.w->testOverlap(P.b[0], o1); W.w->testOverlap(P.b[1], o2); W.w->testOverlap(o3); int n = now ? 1 : 0; sym_check((o1.pairs == n) & (o2.pairs == n) & (o3.pairs == n), "overlap queries disagree with the filter");
    W.w->testCollision(P.b[0], P.b[1], k1); W.w->testCollision(P.b[0], k2); W.w->testCollision(k3); if (P.trigger) n = 0; sym_check((k1.pairs == n) & (k2.pairs == n) & (k3.pairs == n), "collision queries disagree with the filter");
}
// bits set before the first step
SYM_ENTRY(create) {
    int kind = sym_pick("kind", 0, 4), order = sym_pick("order", 0, 1), trig = sym_pick("trigger", 0, 2), q = sym_pick("query", 0, 1); Pair2 P; make(P, kind, order, trig); Bits a = bits("catA", "maskA"), b = bits("catB", "maskB"); setBits(P.c[0], a); setBits(P.c[1], b); bool ok = accept(a, b);
    if (q) queries(P, ok); int e = stepEvent(P); sym_check(e == (ok ? 0 : -1), "first step does not report the pair exactly when both filters accept"); e = stepEvent(P); sym_check(e == (ok ? 1 : -1), "second step does not report the pair exactly when both filters accept"); sym_reach(ok ? "hit" : "miss");
}
// bits changed one or two times, on either collider, while the shapes overlap, with bodies awake or asleep
static void changes(int rounds, int kinds, bool sleep) {
    int kind = sym_pick("kind", 0, kinds), order = sym_pick("order", 0, 1), trig = sym_pick("trigger", 0, 2); Pair2 P; make(P, kind, order, trig); Bits v[2] = { { 1, 0xffff }, { 1, 0xffff } }; int touching = 0; int e = stepEvent(P), x = expectNext(touching, true); sym_check(e == x, "default filters do not accept");
    for (int r = 0; r < rounds; r++) {
        int who = sym_pick("who", 0, 1), what = sym_pick("what", 0, 2); Bits n = bits(r ? "cat2" : "cat1", r ? "mask2" : "mask1"); if (what == 0) n.mask = v[who].mask; if (what == 1) n.cat = v[who].cat; bool asleep = sleep && sym_pick("asleep", 0, 1);
        if (asleep) { P.b[0]->setIsSleeping(true); P.b[1]->setIsSleeping(true); }
        v[who] = n; if (what != 1) P.c[who]->setCollisionCategoryBits(n.cat); if (what != 0) P.c[who]->setCollideWithMaskBits(n.mask); bool now = accept(v[0], v[1]);
        if (asleep) { int f = P.ev.n; P.W.step(1, 1.0f / 64); bool any = false; for (int i = f; i < P.ev.n; i++) { any |= P.ev.e[i].type != 2; if (P.ev.e[i].type == 2) { sym_check(!now, "exit although the filters accept"); touching = 0; } } sym_check(!any || now, "a pair that filters reject is reported while asleep"); P.b[0]->setIsSleeping(false); P.b[1]->setIsSleeping(false); }
        if (sym_pick("query", 0, 1)) queries(P, now);
        e = stepEvent(P); x = expectNext(touching, now); sym_check(e == x, "a filter change does not take effect on the next step"); e = stepEvent(P); x = expectNext(touching, now); sym_check(e == x, "a filter change does not last");
        sym_reach(now ? "accept" : "reject");
    }
}
SYM_ENTRY(change1) { changes(1, 4, true); }
SYM_ENTRY(change2) { changes(2, RP_TIER ? 4 : 1, RP_TIER != 0); }
// bits of one of two colliders of a body: the other one is unaffected
SYM_ENTRY(two_colliders) {
    World W; Events ev; W.w->setEventListener(&ev); Solid s = sphereOf(W, 1), t = boxOf(W, Vector3(1, 1, 1)); int order = sym_pick("order", 0, 1), when = sym_pick("when", 0, 1); RigidBody* b[2]; Collider* c[3];
    for (int k = 0; k < 2; k++) { int i = order ? 1 - k : k; b[i] = W.w->createRigidBody(Transform(Vector3(0, i * 1.0f, 0), Quaternion::identity())); if (i == 0) { c[0] = b[0]->addCollider(s.s, Transform::identity()); c[1] = b[0]->addCollider(t.s, Transform(Vector3(0.5f, 0, 0), Quaternion::identity())); } else c[2] = b[1]->addCollider(s.s, Transform::identity()); }
    if (when) W.step(); Bits v[3]; v[0] = bits("cat0", "mask0"); v[1] = bits("cat1", "mask1"); v[2].cat = (unsigned short)sym_bits("cat2", 16); v[2].mask = 0x0ff0; for (int i = 0; i < 3; i++) setBits(c[i], v[i]); int from = ev.n; W.step();
    for (int i = 0; i < 2; i++) { bool ok = accept(v[i], v[2]); int ty = -1, n = ev.count(c[i], c[2], 0, &ty, from); sym_check(n == ((ok || when) ? 1 : 0), "number of events of a collider of a compound body"); sym_check(n == 0 || ty == (when ? (ok ? 1 : 2) : 0), "type of event of a collider of a compound body"); }
    int n = ev.count(c[0], c[1], 0, nullptr, 0); sym_check(n == 0, "colliders of the same body collide"); sym_reach("end");
}
