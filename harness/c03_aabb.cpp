// C03: axis-aligned boxes.
#include "common.h"
#if RP_TIER
static const int RR = 8, ND = 5, MF = 16, TU = 4, SH = 1;
#else
static const int RR = 3, ND = 2, MF = 4, TU = 2, SH = 0;
#endif
static Vector3 f3(const char* n) { float x = sym_f32(n); float y = sym_f32(n); float z = sym_f32(n); return Vector3(x, y, z); }
static inline bool fin(float f) { uint32_t b; memcpy(&b, &f, 4); return (b & 0x7f800000u) != 0x7f800000u; }
static bool fin3(const Vector3& v) { return fin(v.x) & fin(v.y) & fin(v.z); }
static bool le3(const Vector3& a, const Vector3& b) { return (a.x <= b.x) & (a.y <= b.y) & (a.z <= b.z); }
static AABB boxF(const char* n) { Vector3 a = f3(n); Vector3 b = f3(n); sym_assume(fin3(a) & fin3(b)); sym_assume(le3(a, b)); return AABB(a, b); }
static AABB boxG(const char* n, int r, int sh) { Vector3 a = grid3(n, -r, r, sh); Vector3 b = grid3(n, -r, r, sh); sym_assume(le3(a, b)); return AABB(a, b); }
static bool inside(const AABB& b, const Vector3& p) { return le3(b.getMin(), p) & le3(p, b.getMax()); }

// every pair of boxes with any finite float coordinates
SYM_ENTRY(overlap_any_floats) {
    AABB a = boxF("a"); AABB b = boxF("b");
    bool t = a.testCollision(b);
    bool share = true; for (int i = 0; i < 3; i++) { float lo = a.getMin()[i] > b.getMin()[i] ? a.getMin()[i] : b.getMin()[i]; float hi = a.getMax()[i] < b.getMax()[i] ? a.getMax()[i] : b.getMax()[i]; share &= lo <= hi; }
    sym_check(t == share, "overlap test differs from 'the boxes share a point'"); sym_check(b.testCollision(a) == t, "overlap test is not symmetric");
    sym_check(a.testCollision(a), "a box does not overlap itself"); sym_observe("t", t); sym_reach("end");
}
SYM_ENTRY(merge_any_floats) {
    AABB a = boxF("a"); AABB b = boxF("b");
    AABB m; m.mergeTwoAABBs(a, b); AABB m2 = a; m2.mergeWithAABB(b);
    bool ok = true, ok2 = true; for (int i = 0; i < 3; i++) {
        ok &= (m.getMin()[i] <= a.getMin()[i]) & (m.getMin()[i] <= b.getMin()[i]) & ((m.getMin()[i] == a.getMin()[i]) | (m.getMin()[i] == b.getMin()[i]));
        ok &= (m.getMax()[i] >= a.getMax()[i]) & (m.getMax()[i] >= b.getMax()[i]) & ((m.getMax()[i] == a.getMax()[i]) | (m.getMax()[i] == b.getMax()[i]));
        ok2 &= (m.getMin()[i] == m2.getMin()[i]) & (m.getMax()[i] == m2.getMax()[i]); }
    sym_check(ok, "merged box is not the smallest box containing both"); sym_check(ok2, "the two ways of merging differ");
    sym_check(m.contains(a) && m.contains(b), "merged box does not contain its parts"); sym_reach("end");
}
SYM_ENTRY(contains_any_floats) {
    AABB a = boxF("a"); AABB b = boxF("b");
    bool c = a.contains(b); bool want = le3(a.getMin(), b.getMin()) & le3(b.getMax(), a.getMax());
    sym_check(c == want, "containment of boxes differs from the corner coordinates"); sym_check(!c || a.testCollision(b), "contained box does not overlap"); sym_observe("c", c);
    AABB s; s.setMin(b.getMin()); s.setMax(b.getMax()); sym_check(eq3(s.getMin(), b.getMin()) & eq3(s.getMax(), b.getMax()), "setMin/setMax");
    Vector3 p = f3("p"); sym_assume(fin3(p)); AABB i = a; i.inflateWithPoint(p); bool ok = true;
    for (int k = 0; k < 3; k++) { ok &= i.getMin()[k] == (p[k] < a.getMin()[k] ? p[k] : a.getMin()[k]); ok &= i.getMax()[k] == (p[k] > a.getMax()[k] ? p[k] : a.getMax()[k]); }
    sym_check(ok, "inflateWithPoint is not the smallest box containing the box and the point");
}
SYM_ENTRY(triangle_bounds_any_floats) {
    Vector3 t[3]; int ax = sym_pick("ax", 0, 2); for (int i = 0; i < 3; i++) { float f = sym_f32("t"); sym_assume(fin(f)); t[i] = Vector3(i, -i, 2); t[i][ax] = f; }
    AABB b = AABB::createAABBForTriangle(t); bool ok = true;
    for (int k = 0; k < 3; k++) { float lo = t[0][k], hi = t[0][k]; for (int i = 1; i < 3; i++) { lo = t[i][k] < lo ? t[i][k] : lo; hi = t[i][k] > hi ? t[i][k] : hi; } ok &= (b.getMin()[k] == lo) & (b.getMax()[k] == hi); }
    sym_check(ok, "bounds of a triangle are not the smallest box containing its vertices");
    sym_reach("bounds");
}
SYM_ENTRY(triangle_overlap_grid) {
    Vector3 t[3]; for (int i = 0; i < 3; i++) t[i] = grid3("t", -RR, RR, SH);
    AABB b = AABB::createAABBForTriangle(t);
    AABB q = boxG("q", RR, SH); bool meet = q.testCollisionTriangleAABB(t); sym_check(meet == q.testCollision(b), "triangle test differs from the overlap of the triangle's bounds"); sym_observe("meet", meet);
}
SYM_ENTRY(algebra_grid) {
    AABB a = boxG("a", 40, 2); Vector3 e = grid3("e", 0, 40, 2); AABB i = a; i.inflate(e.x, e.y, e.z);
    sym_check(eq3(i.getMin(), a.getMin() - e) & eq3(i.getMax(), a.getMax() + e), "inflate"); sym_check(eq3(a.getExtent(), a.getMax() - a.getMin()), "extent");
    Vector3 c = a.getCenter(); sym_check(eq3(c + c, a.getMin() + a.getMax()), "centre"); sym_check(eq3(i.getCenter(), c), "inflating moves the centre");
    Vector3 x = a.getExtent(); sym_check(a.getVolume() == x.x * x.y * x.z, "volume"); sym_check(a.getVolume() >= 0, "negative volume");
    Vector3 s = grid3("s", 0, 8, 1); AABB sc = a; sc.applyScale(s); bool ok = true; for (int k = 0; k < 3; k++) ok &= (sc.getMin()[k] == a.getMin()[k] * s[k]) & (sc.getMax()[k] == a.getMax()[k] * s[k]); sym_check(ok, "scale");
    Vector3 p = grid3("p", -80, 80, 2); sym_check(a.contains(p) == inside(a, p), "point containment differs from the coordinates (grid spacing above the tolerance)");
    float eps = sym_grid("eps", 0, 8, 2); sym_check(a.contains(p, eps) == inside(AABB(a.getMin() - Vector3(eps, eps, eps), a.getMax() + Vector3(eps, eps, eps)), p), "point containment with tolerance"); sym_observe_f("vol", a.getVolume()); sym_reach("end");
}
// a ray that has a point inside the box within its maximum fraction is never rejected (directions with exactly representable inverse)
static float dirOf(int k) { static const float d[7] = {0, 1, -1, 2, -2, 4, -0.5f}; return d[k]; }
SYM_ENTRY(ray_test) {
    AABB a = boxG("a", RR, SH); Vector3 o = grid3("o", -RR, RR, SH);
    int dx = sym_pick("dx", 0, ND); int dy = sym_pick("dy", 0, ND); int dz = sym_pick("dz", 0, ND); Vector3 d(dirOf(dx), dirOf(dy), dirOf(dz)); sym_assume(d.x != 0 || d.y != 0 || d.z != 0);
    float maxF = sym_grid("maxF", 0, MF, 1); float t = sym_grid("t", 0, MF, 1); sym_assume(t <= maxF);
    Vector3 p(o.x + t * d.x, o.y + t * d.y, o.z + t * d.z); sym_assume(inside(a, p));
    Vector3 inv(1.0f / d.x, 1.0f / d.y, 1.0f / d.z);
    sym_check(a.testRayIntersect(o, inv, maxF), "ray test rejects a box that the segment meets"); sym_reach("hit");
}
// a ray whose segment stays on one side of the box is rejected (this is what makes the test useful)
SYM_ENTRY(ray_test_reject) {
    AABB a = boxG("a", RR, SH); Vector3 o = grid3("o", -RR, RR, SH);
    int dx = sym_pick("dx", 0, ND); int dy = sym_pick("dy", 0, ND); int dz = sym_pick("dz", 0, ND); Vector3 d(dirOf(dx), dirOf(dy), dirOf(dz)); sym_assume(d.x != 0 || d.y != 0 || d.z != 0);
    float maxF = sym_grid("maxF", 0, MF, 1); Vector3 e(o.x + maxF * d.x, o.y + maxF * d.y, o.z + maxF * d.z); int ax = sym_pick("axis", 0, 2);
    sym_assume(((o[ax] < a.getMin()[ax]) & (e[ax] < a.getMin()[ax])) | ((o[ax] > a.getMax()[ax]) & (e[ax] > a.getMax()[ax])));
    Vector3 inv(1.0f / d.x, 1.0f / d.y, 1.0f / d.z);
    sym_check(!a.testRayIntersect(o, inv, maxF), "ray test accepts a box separated from the segment along an axis");
}
SYM_ENTRY(ray_cast_point) {
    AABB a = boxG("a", RR, SH); Vector3 o = grid3("o", -RR, RR, SH);
    int dx = sym_pick("dx", 0, ND); int dy = sym_pick("dy", 0, ND); int dz = sym_pick("dz", 0, ND); Vector3 d(dirOf(dx), dirOf(dy), dirOf(dz)); sym_assume(d.x != 0 || d.y != 0 || d.z != 0);
    Vector3 hp(0, 0, 0); bool hit = a.raycast(Ray(o, o + d), hp);
    float t = sym_grid("t", 0, 2 * MF, 1); Vector3 p(o.x + t * d.x, o.y + t * d.y, o.z + t * d.z); bool meets = inside(a, p);
    sym_check(!meets || hit, "box ray cast misses a ray that meets the box");
    if (hit) { sym_check(inside(a, hp), "box ray cast reports a point outside the box");
        Vector3 u = hp - o; sym_check((u.x * d.y == u.y * d.x) & (u.y * d.z == u.z * d.y) & (u.x * d.z == u.z * d.x) & (u.x * d.x + u.y * d.y + u.z * d.z >= 0), "box ray cast reports a point that is not on the ray");
        Vector3 w = p - o; sym_check(!meets || u.x * d.x + u.y * d.y + u.z * d.z <= w.x * d.x + w.y * d.y + w.z * d.z, "box ray cast does not report the first crossing"); sym_observe_f("hx", hp.x); sym_reach("hit"); }
}
SYM_ENTRY_T(triangle_test) {
    AABB a = boxG("a", RR, SH); Vector3 t[3]; for (int i = 0; i < 3; i++) t[i] = grid3("t", -RR, RR, SH);
    int u = sym_pick("u", 0, TU); int v = sym_pick("v", 0, TU); sym_assume(u + v <= TU); float fu = (float)u / TU, fv = (float)v / TU, fw = 1 - fu - fv;
    Vector3 p(fw * t[0].x + fu * t[1].x + fv * t[2].x, fw * t[0].y + fu * t[1].y + fv * t[2].y, fw * t[0].z + fu * t[1].z + fv * t[2].z); sym_assume(inside(a, p));
    sym_check(a.testCollisionTriangleAABB(t), "triangle test rejects a triangle with a point in the box"); sym_check(inside(AABB::createAABBForTriangle(t), p), "triangle bounds miss a point of the triangle");
}
