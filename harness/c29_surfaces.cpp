// C29: solids against concave meshes and height fields: hit or miss, depth, contact points and normals against the geometry of every triangle.
#include "sat.h"
#include "surfaces.h"
#ifdef RPDBG
#include <cstdio>
#endif
// a surface with the distances of a solid (at p) to its triangles
struct Surface { Tris T; CollisionShape* s = nullptr; Core c[64]; D3 vn[64][3]; Oracle* o[64]; double scale = 1; bool solidRound = false, capsule = false; double r = 0;
    ~Surface() { for (int i = 0; i < T.n; i++) delete o[i]; } };
// the normals stored for the vertices of the triangles, as the library gives them out (judged by C20 and C22)
static void prepare(Surface& S, const Solid& A, int ka, const Quaternion& qa, const Quaternion& qs, bool field) {
    Core a = core(A, ka, qa); S.r = a.r; S.solidRound = a.np == 0; S.capsule = a.ne == 1;
    for (int i = 0; i < S.T.n; i++) { S.c[i] = coreOfTriangle(S.T.t[i], qs); S.o[i] = new Oracle(S.c[i], a); if (field) for (int k = 0; k < 3; k++) S.vn[i][k] = S.c[i].n[0]; else { Vector3 n[3]; ((ConcaveMeshShape*)S.s)->getTriangleVerticesNormals(i, n[0], n[1], n[2]); for (int k = 0; k < 3; k++) S.vn[i][k] = rotd(qs, D3(n[k])); } }
}
static double distTri(const Core& t, const D3& q, D3& bary) {      // distance of a point to a triangle, barycentric coordinates of its projection
    D3 e1 = t.v[1] - t.v[0], e2 = t.v[2] - t.v[0], w = q - t.v[0]; double a = dot(e1, e1), b = dot(e1, e2), c = dot(e2, e2), d = dot(w, e1), e = dot(w, e2), den = a * c - b * b; double v = (c * d - b * e) / den, u = (a * e - b * d) / den; bary = D3(1 - v - u, v, u);
    double h = absd(dot(t.n[0], w)); bool in = (bary.x >= 0) & (bary.y >= 0) & (bary.z >= 0); double m = mind(mind(distPS2(q, t.v[0], t.v[1]), distPS2(q, t.v[1], t.v[2])), distPS2(q, t.v[2], t.v[0])); return in ? h : std::sqrt(m);
}
static void judge(const Contacts& cs, const Surface& S, RigidBody* ba, RigidBody* bs, const D3& p, const D3& base, bool cached) {
    const double tol = 1.5e-3 * S.scale; double s[64], mn = 1e30; int near = 0; for (int i = 0; i < S.T.n; i++) { s[i] = (*S.o[i])(p); mn = mind(mn, s[i]); near += s[i] <= tol; } bool hit = cs.pairs > 0;
#ifdef RPDBG
    fprintf(stderr, "p %g %g %g hit %d n=%d min %g\n", p.x, p.y, p.z, hit, cs.n, mn); for (int i = 0; i < S.T.n; i++) if (s[i] < 1) fprintf(stderr, "  tri %d s %g n %g %g %g\n", i, s[i], S.c[i].n[0].x, S.c[i].n[0].y, S.c[i].n[0].z);
    for (int i = 0; i < cs.n; i++) { const Contact& c = cs.c[i]; D3 a = trd(c.b1->getTransform(), D3(c.l1)) - base, b = trd(c.b2->getTransform(), D3(c.l2)) - base; fprintf(stderr, "  contact n %g %g %g depth %g p1 %g %g %g p2 %g %g %g solid is %d\n", c.n.x, c.n.y, c.n.z, c.depth, a.x, a.y, a.z, b.x, b.y, b.z, c.b1 == ba ? 1 : 2); }
#endif
    sym_observe("n", cs.n); if (cs.n) { sym_observe_f("depth", cs.c[0].depth); observe3("n", cs.c[0].n); }
    if (!hit) { sym_check(mn >= -tol, "a solid that penetrates a triangle is not reported"); sym_reach("miss"); return; }
    sym_check(mn <= tol, "a solid away from all triangles is reported"); sym_check(cs.pairs == 1 && cs.n >= 1, "number of pairs / contact points"); sym_reach("hit"); double best = 0;
    for (int i = 0; i < cs.n; i++) {
        const Contact& c = cs.c[i]; D3 n(c.n); sym_check(absd(dot(n, n) - 1) <= 1e-4, "contact normal is not a unit vector"); sym_check(c.depth >= 0, "negative penetration depth"); best = maxd(best, c.depth); if (cached) continue;
        D3 q1 = trd(c.b1->getTransform(), D3(c.l1)) - base, q2 = trd(c.b2->getTransform(), D3(c.l2)) - base, q = c.b1 == bs ? q1 : q2; if (c.b1 != bs) n = n * -1;      // n: from the surface to the solid
        bool on = false, smooth = false; for (int t = 0; t < S.T.n; t++) { D3 b; double d = distTri(S.c[t], q, b); bool at = d <= 2 * tol; D3 in = S.vn[t][0] * b.x + S.vn[t][1] * b.y + S.vn[t][2] * b.z; double l = len(in); double f = absd(dot(n, S.c[t].n[0])), g = absd(dot(n, in)); on |= at; smooth |= at & ((f >= 1 - 2e-3) | (g >= l * (1 - 1e-2))); }
        sym_check(on, "the contact point of the surface is not on a triangle"); sym_check(smooth, "the contact normal is not the normal of the surface at the contact point"); sym_check(neard(q1 - q2, D3(c.n) * (double)c.depth, 4 * tol), "contact points are not separated by the penetration depth along the normal");
        if (S.solidRound & !S.capsule) sym_check(dot(n, p - q) >= -tol, "the normal points away from the sphere");
    }
    // (more than four points: a manifold that was reduced need not keep its deepest point; frames that reuse an axis may be deeper than the best axis)
    bool deep = S.solidRound & (mn < -S.r + tol); sym_check((cached & !S.solidRound) | deep | (best <= -mn * 1.002 + 0.0005 * S.scale + 6 * tol), "penetration depth larger than that of any triangle"); if (S.solidRound) sym_check(deep | (near * (S.capsule ? 2 : 1) > 4) | (best >= -mn - 2 * tol), "penetration depth smaller than that of the deepest triangle");
}
static void check(World& W, const Surface& S, RigidBody* ba, RigidBody* bs, const D3& p, const D3& base, int m) {
    Contacts cs; W.w->testCollision(ba, bs, cs); judge(cs, S, ba, bs, p, base, false); double mn = 1e30; for (int i = 0; i < S.T.n; i++) mn = mind(mn, (*S.o[i])(p)); bool ov; if (m & 1) ov = W.w->testOverlap(ba, bs); else { Overlaps o; W.w->testOverlap(ba, o); ov = o.pairs > 0; sym_check(o.pairs <= 1, "the overlap query reports a pair twice"); } sym_check((ov == (cs.pairs > 0)) | (absd(mn) <= 1.5e-3 * S.scale), "overlap and collision queries disagree");
}
static const int RS[4] = { 0, 4, 15, 2 }, RB[6] = { 0, 16, 15, 13, 17, 7 };
static void makeSurface(World& W, Surface& S, bool field, int m) { const float* sc = SURFSC[m % 4]; Vector3 v(sc[0], sc[1], sc[2]); if (field) S.s = fieldOf(W, m % 4, m % 3, v, S.T); else S.s = concaveOf(W, v, S.T); }
static Vector3 gridp(int bx, int by, int bz, float step) { Vector3 p; p.x = sym_grid("x", -(1 << (bx - 1)), (1 << (bx - 1)) - 1, 0); p.y = sym_grid("y", -(1 << (by - 1)), (1 << (by - 1)) - 1, 0); p.z = sym_grid("z", -(1 << (bz - 1)), (1 << (bz - 1)) - 1, 0); return p * step; }
static const Vector3 SHIFT[4] = { Vector3(0, 0.25f, 0), Vector3(0.37f, -0.21f, 0.13f), Vector3(0.11f, 0.25f, -0.4f), Vector3(-0.26f, 0.06f, 0.19f) };
static void place(int ka, bool field, int m, float size, int bx, int by, int bz) {
    World W; Surface S; makeSurface(W, S, field, m); Solid A = solid(W, ka, size, m % 3); int ra = RB[(m + ka) % 6], rs = RS[m % 4]; S.scale = 1; prepare(S, A, ka, rotq(ra), rotq(rs), field);
    Vector3 base = m & 2 ? Vector3(8, -4, 2) : Vector3(0, 0, 0), p = rotq(rs) * (gridp(bx, by, bz, 0.375f) + SHIFT[(m + ka) & 3]); RigidBody *ba, *bs;
    if (m & 1) { ba = W.body(A.s, base + p, ra); bs = W.body(S.s, base, rs, BodyType::STATIC); } else { bs = W.body(S.s, base, rs, BodyType::STATIC); ba = W.body(A.s, base + p, ra); }
    check(W, S, ba, bs, D3(p), D3(base), m);
}
#define T(q, t) (RP_TIER ? (t) : (q))
SYM_ENTRY(round_mesh) { int ka = sym_pick("solid", 0, 1), m = sym_pick("mix", 0, T(3, 11)); place(ka, false, m, 0.5f, 4, T(2, 3), 4); }
SYM_ENTRY(round_field) { int ka = sym_pick("solid", 0, 1), m = sym_pick("mix", 0, T(3, 11)); place(ka, true, m, 0.5f, T(3, 4), T(2, 3), 3); }
SYM_ENTRY(poly_mesh) { int ka = sym_pick("solid", 2, 6), m = sym_pick("mix", 0, T(0, 3)); place(ka, false, m + T(ka, 0), 0.5f, T(3, 4), T(2, 3), T(3, 4)); }
SYM_ENTRY(poly_field) { int ka = sym_pick("solid", 2, 6), m = sym_pick("mix", 0, T(0, 3)); place(ka, true, m + T(ka, 0), 0.5f, T(3, 4), T(2, 3), 3); }
// the second of two frames uses what was kept for each triangle
struct Ear : public EventListener { Surface* S = nullptr; RigidBody *a, *b; D3 p, base; bool called = false;
    void onContact(const CollisionCallback::CallbackData& d) override {
        if (!S) return; Contacts cs; called = true;
        for (uint32 i = 0; i < d.getNbContactPairs(); i++) { CollisionCallback::ContactPair q = d.getContactPair(i); if (q.getEventType() == CollisionCallback::ContactPair::EventType::ContactExit) continue; cs.pairs++;
            for (uint32 k = 0; k < q.getNbContactPoints(); k++) { CollisionCallback::ContactPoint t = q.getContactPoint(k); Contact& o = cs.c[cs.n++]; o.b1 = q.getBody1(); o.b2 = q.getBody2(); o.n = t.getWorldNormal(); o.l1 = t.getLocalPointOnCollider1(); o.l2 = t.getLocalPointOnCollider2(); o.depth = t.getPenetrationDepth(); } }
        judge(cs, *S, a, b, p, base, true); sym_assume(false); } };
SYM_ENTRY(second_frame) {
    int ka = sym_pick("solid", 0, 6), field = sym_pick("field", 0, 1), m = T((ka + field) % 4, sym_pick("mix", 0, 3)); World W; Surface S; Ear ear; W.w->setEventListener(&ear); makeSurface(W, S, field, m); Solid A = solid(W, ka, 0.5f, m % 3); int ra = RB[(m + ka) % 6], rs = RS[m % 4]; prepare(S, A, ka, rotq(ra), rotq(rs), field);
    RigidBody* bs = W.body(S.s, Vector3(0, 0, 0), rs, BodyType::STATIC); RigidBody* ba = W.body(A.s, rotq(rs) * Vector3(0.5f, 0.125f, 0.25f), ra); W.step();
    Vector3 p = rotq(rs) * (gridp(3, T(2, 3), 3, 0.375f) + SHIFT[(m + ka) & 3]); ba->setTransform(Transform(p, rotq(ra))); ear.S = &S; ear.a = ba; ear.b = bs; ear.p = D3(p); ear.base = D3(0, 0, 0); W.step();
    if (!ear.called) { Contacts none; judge(none, S, ba, bs, D3(p), D3(0, 0, 0), true); }
}
