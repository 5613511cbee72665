// C11: overlap and collision queries of the world against geometry; agreement of all forms; no influence on the simulation.
#include "surfaces.h"
// body 0: sphere of radius 1, placed anywhere; body 1: sphere of radius 1 at the origin; body 2: box at (2.5,0,0); body 3: sphere and box on one body
static const int NB = 4;
struct Part { int body, kind; Vector3 at; };       // kind 0 sphere radius 1, 1 box half extents 1 x .75 x .5
static const int NP = 5;
static Part PARTS[NP] = { { 0, 0, Vector3(0, 0, 0) }, { 1, 0, Vector3(0, 0, 0) }, { 2, 1, Vector3(0, 0, 0) }, { 3, 0, Vector3(0, 0, 0) }, { 3, 1, Vector3(0, 1.25f, 0) } };
struct Scene {
    World W; Events ev; RigidBody* b[NB]; Collider* c[NP]; Vector3 pos[NB]; bool query[NP], trig[NP], active[NB], ok[NP][NP];
    Scene() { for (int i = 0; i < NP; i++) { query[i] = true; trig[i] = false; for (int k = 0; k < NP; k++) ok[i][k] = true; } for (int i = 0; i < NB; i++) active[i] = true; pos[1] = Vector3(0, 0, 0); pos[2] = Vector3(2.5f, 0, 0); pos[3] = Vector3(0, -2, 0.5f); pos[0] = Vector3(0, 0, 0); }
    void build(const int* type, int order) {
        W.w->setEventListener(&ev); CollisionShape *s = sphereOf(W, 1).s, *t = boxOf(W, Vector3(1, 0.75f, 0.5f)).s;
        for (int k = 0; k < NB; k++) { int i = order ? NB - 1 - k : k; b[i] = W.w->createRigidBody(Transform(pos[i], Quaternion::identity())); b[i]->setType(type[i] == 0 ? BodyType::DYNAMIC : type[i] == 1 ? BodyType::STATIC : BodyType::KINEMATIC); for (int p = 0; p < NP; p++) if (PARTS[p].body == i) c[p] = b[i]->addCollider(PARTS[p].kind ? t : s, Transform(PARTS[p].at, Quaternion::identity())); }
    }
    // signed separation of two parts of different bodies
    double gap(int p, int q) const {
        D3 a = D3(pos[PARTS[p].body]) + D3(PARTS[p].at), e = D3(pos[PARTS[q].body]) + D3(PARTS[q].at); if (PARTS[p].kind && !PARTS[q].kind) { D3 x = a; a = e; e = x; int y = p; p = q; q = y; } D3 d = e - a;
        if (!PARTS[q].kind) return std::sqrt(dot(d, d)) - 2;
        if (PARTS[p].kind) { double x = absd(d.x) - 2, y = absd(d.y) - 1.5, z = absd(d.z) - 1; return maxd(maxd(x, y), z); }        // sign is what counts
        D3 n(clampd(a.x, e.x - 1, e.x + 1), clampd(a.y, e.y - 0.75, e.y + 0.75), clampd(a.z, e.z - 0.5, e.z + 0.5)); n = n - a; return std::sqrt(dot(n, n)) - 1;
    }
    // 1 overlap, 0 no, 2 too close to call
    int expect(int p, int q, bool collision) const { int i = PARTS[p].body, k = PARTS[q].body; if (i == k || !active[i] || !active[k] || !query[p] || !query[q] || !ok[p][q] || (collision && (trig[p] || trig[q]))) return 0; double g = gap(p, q); return (g < -1e-4) ? 1 : (g > 1e-4) ? 0 : 2; }
    template<class R> int found(const R& r, int p, int q) const { int n = 0; for (int i = 0; i < r.pairs; i++) n += (r.pc1[i] == c[p] && r.pc2[i] == c[q] && r.pb1[i] == b[PARTS[p].body] && r.pb2[i] == b[PARTS[q].body]) || (r.pc1[i] == c[q] && r.pc2[i] == c[p] && r.pb1[i] == b[PARTS[q].body] && r.pb2[i] == b[PARTS[p].body]); return n; }
    // only: pairs that involve body i (and k) are looked for
    template<class R> void compare(const R& r, int i, int k, bool collision) const {
        int tot = 0; for (int p = 0; p < NP; p++) for (int q = p + 1; q < NP; q++) {
            int x = PARTS[p].body, y = PARTS[q].body, n = found(r, p, q); tot += n; bool in = (i < 0) || (k < 0 ? (x == i || y == i) : ((x == i && y == k) || (x == k && y == i)));
            if (!in || x == y) { sym_check(n == 0, "query reports a pair it was not asked for"); continue; } int e = expect(p, q, collision);
            sym_check(n <= 1, "query reports a pair twice"); if (e == 1) sym_check(n == 1, collision ? "collision query misses a pair" : "overlap query misses a pair"); if (e == 0) sym_check(n == 0, collision ? "collision query reports a pair that does not collide" : "overlap query reports a pair that does not overlap");
        }
        sym_check(tot == r.pairs, "query reports unknown colliders");
    }
    void ask(int which) {
        struct St { Vector3 p, v; bool s; } st[NB]; for (int i = 0; i < NB; i++) { st[i].p = b[i]->getTransform().getPosition(); st[i].v = b[i]->getLinearVelocity(); st[i].s = b[i]->isSleeping(); }
        int from = ev.n;
        if (which == 0) { Overlaps o; W.w->testOverlap(o); compare(o, -1, -1, false); }
        if (which == 1) { Contacts k; W.w->testCollision(k); compare(k, -1, -1, true); for (int i = 0; i < k.pairs; i++) { int pts = 0; for (int m = 0; m < k.n; m++) pts += k.c[m].c1 == k.pc1[i] && k.c[m].c2 == k.pc2[i]; sym_check(pts > 0, "pair without contact points"); } }
        if (which == 2) for (int i = 0; i < NB; i++) { Overlaps o; W.w->testOverlap(b[i], o); compare(o, i, -1, false); }
        if (which == 3) for (int i = 0; i < NB; i++) { Contacts k; W.w->testCollision(b[i], k); compare(k, i, -1, true); }
        if (which == 4) for (int i = 0; i < NB; i++) for (int k = 0; k < NB; k++) if (i != k) { bool r = W.w->testOverlap(b[i], b[k]); int e = 0; for (int p = 0; p < NP; p++) for (int q = 0; q < NP; q++) if (PARTS[p].body == i && PARTS[q].body == k) { int z = expect(p, q, false); if (z == 1) e = 1; else if (z == 2 && e != 1) e = 2; } if (e != 2) sym_check(r == (e == 1), "testOverlap of two bodies is wrong"); }
        if (which == 5) for (int i = 0; i < NB; i++) for (int k = 0; k < NB; k++) if (i != k) { Contacts r; W.w->testCollision(b[i], b[k], r); compare(r, i, k, true); }
        for (int i = 0; i < NB; i++) { Vector3 p = b[i]->getTransform().getPosition(), v = b[i]->getLinearVelocity(); sym_check(eq3(st[i].p, p) & eq3(st[i].v, v), "a query moves a body"); sym_check(st[i].s == b[i]->isSleeping(), "a query changes the sleep state"); }
        sym_check(ev.n == from, "a query reports events");
    }
    void askAll(int rot) { for (int i = 0; i < 6; i++) ask((i + rot) % 6); }
};
static const int TYPES[4][NB] = { { 0, 0, 0, 0 }, { 0, 1, 1, 0 }, { 1, 1, 1, 1 }, { 2, 0, 1, 1 } };
// placement of body 0 is symbolic; bodies awake, asleep or static; queries before the first step, after steps, after a teleport
SYM_ENTRY(placements) {
    int ty = sym_pick("types", 0, 3), when = sym_pick("when", 0, 3), first = sym_pick("first", 0, 5), order = RP_TIER ? sym_pick("order", 0, 1) : first % 2; Scene S; float gx = sym_grid("x", RP_TIER ? -8 : -4, RP_TIER ? 7 : 3, RP_TIER ? 1 : 0); float gy = sym_grid("y", RP_TIER ? -8 : -4, RP_TIER ? 7 : 3, RP_TIER ? 1 : 0); float gz = sym_grid("z", -2, 1, 1); Vector3 p = Vector3(gx, gy, gz) + Vector3(0.25f, 0.125f, 0.0625f);
    if (when != 3) S.pos[0] = p; S.build(TYPES[ty], order);
    if (when == 1) for (int i = 0; i < NB; i++) if (TYPES[ty][i] != 1) S.b[i]->setIsSleeping(true);
    if (when == 2) { for (int i = 0; i < NB; i++) if (TYPES[ty][i] == 0) { S.b[i]->setLinearLockAxisFactor(Vector3(0, 0, 0)); S.b[i]->setAngularLockAxisFactor(Vector3(0, 0, 0)); } S.W.step(); for (int i = 0; i < NB; i++) { S.pos[i] = S.b[i]->getTransform().getPosition(); } }
    if (when == 3) { S.pos[0] = Vector3(9, 9, 9); S.b[0]->setTransform(Transform(Vector3(9, 9, 9), Quaternion::identity())); S.ask(first); S.pos[0] = p; S.b[0]->setTransform(Transform(p, Quaternion::identity())); }
    if (when == 3 && sym_pick("sleep", 0, 1)) for (int i = 0; i < NB; i++) if (TYPES[ty][i] != 1) S.b[i]->setIsSleeping(true);
    S.askAll(first); S.ask(first); sym_reach("end");
}
// flags and filters of colliders that overlap (bodies 0 and 3 with all others)
static void flags(Scene& S) {
    int m = sym_bits("queryFlags", 5); for (int i = 0; i < NP; i++) { S.query[i] = (m >> i) & 1; S.c[i]->setIsWorldQueryCollider(S.query[i]); sym_check(S.c[i]->getIsWorldQueryCollider() == S.query[i], "query flag is not kept"); }
}
SYM_ENTRY(query_flags) {
    int ty = 1 + (RP_TIER ? sym_pick("types", 0, 2) : 2 * sym_pick("types", 0, 1)), when = sym_pick("when", 0, 2), trig = sym_pick("trigger", 0, 3), sim = sym_pick("sim", 0, 2); Scene S; S.pos[0] = Vector3(1, 0.5f, 0.25f); S.pos[2] = Vector3(1.75f, -0.75f, 0.5f); S.pos[3] = Vector3(0.25f, -1, 0.5f); S.build(TYPES[ty], 0);
    for (int i = 0; i < NB; i++) { S.b[i]->setLinearLockAxisFactor(Vector3(0, 0, 0)); S.b[i]->setAngularLockAxisFactor(Vector3(0, 0, 0)); }
    if (trig) { int k = trig == 1 ? 0 : trig == 2 ? 3 : 4; S.trig[k] = true; S.c[k]->setIsTrigger(true); } if (sim) S.c[sim == 1 ? 1 : 4]->setIsSimulationCollider(false);
    if (when == 1) S.W.step(); flags(S); if (when == 2) { S.W.step(); for (int i = 0; i < NB; i++) if (TYPES[ty][i] != 1) S.b[i]->setIsSleeping(true); S.W.step(); } int from = S.ev.n; (void)from; S.askAll(0); S.askAll(1); sym_reach("end");
}
SYM_ENTRY(filters_and_activity) {
    int ty = sym_pick("types", 0, 3), when = sym_pick("when", 0, 2), off = sym_pick("inactive", 0, 4), who = sym_pick("collider", 0, NP - 1); Scene S; S.pos[0] = Vector3(1, 0.5f, 0.25f); S.pos[2] = Vector3(1.75f, -0.75f, 0.5f); S.pos[3] = Vector3(0.25f, -1, 0.5f); S.build(TYPES[ty], 1);
    for (int i = 0; i < NB; i++) { S.b[i]->setLinearLockAxisFactor(Vector3(0, 0, 0)); S.b[i]->setAngularLockAxisFactor(Vector3(0, 0, 0)); }
    if (when == 1) S.W.step(); unsigned short cat = (unsigned short)sym_bits("category", 16), mask = (unsigned short)sym_bits("mask", 16); S.c[who]->setCollisionCategoryBits(cat); S.c[who]->setCollideWithMaskBits(mask); bool acc = ((cat & 0xffff) != 0) & ((mask & 1) != 0); for (int i = 0; i < NP; i++) S.ok[who][i] = S.ok[i][who] = acc;
    if (when == 2) { S.W.step(); for (int i = 0; i < NB; i++) if (TYPES[ty][i] != 1) S.b[i]->setIsSleeping(true); }
    if (off < NB) { S.b[off]->setIsActive(false); S.active[off] = false; } S.askAll(0); S.ask(0); sym_reach("end");
}
// two worlds, the same history, one of them with queries between the steps: the bodies and the events stay the same, bit by bit
SYM_ENTRY(queries_do_not_disturb) {
    int ty = sym_pick("types", 0, 3), n = RP_TIER ? 4 : 2; Scene S[2]; float vx = sym_grid("vx", -4, 3, 0); float vy = sym_grid("vy", -4, 3, 0);
    for (int k = 0; k < 2; k++) { S[k].pos[0] = Vector3(0.75f, 1.5f, 0.25f); S[k].build(TYPES[ty], 0); S[k].c[3]->setIsTrigger(true); S[k].trig[3] = true; if (TYPES[ty][0] != 1) S[k].b[0]->setLinearVelocity(Vector3(vx, vy, 0)); }
    for (int s = 0; s < n; s++) {
        int q = s && !RP_TIER ? 6 + sym_pick("query", 0, 1) : sym_pick("query", 0, 7), op = s && !RP_TIER ? 0 : sym_pick("op", 0, 5); for (int k = 0; k < 2; k++) { Scene& T = S[k]; if (k == 1 && (q == 6)) for (int i = 0; i < 6; i++) { Overlaps o; Contacts c; if (i % 2) T.W.w->testOverlap(o); else T.W.w->testCollision(c); } if (k == 1 && q < 6) { for (int i = 0; i < NB; i++) T.pos[i] = T.b[i]->getTransform().getPosition(); Overlaps o; Contacts c; if (q == 0) T.W.w->testOverlap(o); if (q == 1) T.W.w->testCollision(c); if (q == 2) T.W.w->testOverlap(T.b[0], o); if (q == 3) T.W.w->testCollision(T.b[3], c); if (q == 4) T.W.w->testOverlap(T.b[0], T.b[1]); if (q == 5) T.W.w->testCollision(T.b[2], T.b[0], c); }
            if (op == 1) T.b[0]->setTransform(Transform(Vector3(4, 4, 0), Quaternion::identity())); if (op == 2) T.b[3]->setIsSleeping(true); if (op == 3) T.c[1]->setIsTrigger(true); if (op == 4) T.b[1]->setIsActive(false); if (op == 5) T.c[0]->setCollideWithMaskBits(0);
            if (k == 1 && q == 7) { Overlaps o; T.W.w->testOverlap(T.b[0], o); Contacts c; T.W.w->testCollision(c); } }
        int from = S[0].ev.n; S[0].W.step(); S[1].W.step(); sym_check(S[0].ev.n == S[1].ev.n, "queries change the number of events");
        for (int i = from; i < S[0].ev.n && i < S[1].ev.n; i++) { Event &e = S[0].ev.e[i]; int m = 0; for (int j = from; j < S[1].ev.n; j++) { Event& f = S[1].ev.e[j]; int a = -1, b = -1, c = -1, d = -1; for (int p = 0; p < NP; p++) { if (e.c1 == S[0].c[p]) a = p; if (e.c2 == S[0].c[p]) b = p; if (f.c1 == S[1].c[p]) c = p; if (f.c2 == S[1].c[p]) d = p; } m += e.kind == f.kind && e.type == f.type && a >= 0 && b >= 0 && ((a == c && b == d) || (a == d && b == c)); } sym_check(m == 1, "queries change the events"); }
        for (int i = 0; i < NB; i++) { Vector3 p0 = S[0].b[i]->getTransform().getPosition(), p1 = S[1].b[i]->getTransform().getPosition(), v0 = S[0].b[i]->getLinearVelocity(), v1 = S[1].b[i]->getLinearVelocity(); sym_check(near3(p0, p1, 1e-6f) & near3(v0, v1, 1e-5f), "queries change the motion"); sym_check(S[0].b[i]->isSleeping() == S[1].b[i]->isSleeping(), "queries change the sleep state"); if (i == 0) observe3("p", p0); }
    }
    sym_reach("end");
}
