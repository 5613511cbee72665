// C22: height fields and concave meshes offer every triangle near a query box, with the stored vertices and distinct identifiers.
#include "surfaces.h"
struct Near { LedgerAllocator al; Array<Vector3> v, n; Array<uint32> ids; Near() : v(al, 8), n(al, 8), ids(al, 8) {} };
static bool meets(const D3* t, const D3& lo, const D3& hi, double tol) {
    D3 a(mind(t[0].x, mind(t[1].x, t[2].x)), mind(t[0].y, mind(t[1].y, t[2].y)), mind(t[0].z, mind(t[1].z, t[2].z))), b(maxd(t[0].x, maxd(t[1].x, t[2].x)), maxd(t[0].y, maxd(t[1].y, t[2].y)), maxd(t[0].z, maxd(t[1].z, t[2].z)));
    return (a.x <= hi.x - tol) & (a.y <= hi.y - tol) & (a.z <= hi.z - tol) & (b.x >= lo.x + tol) & (b.y >= lo.y + tol) & (b.z >= lo.z + tol);
}
static bool same(const Vector3* p, const D3* t, double tol) { return (absd(p[0].x - t[0].x) <= tol) & (absd(p[0].y - t[0].y) <= tol) & (absd(p[0].z - t[0].z) <= tol) & (absd(p[1].x - t[1].x) <= tol) & (absd(p[1].y - t[1].y) <= tol) & (absd(p[1].z - t[1].z) <= tol) & (absd(p[2].x - t[2].x) <= tol) & (absd(p[2].y - t[2].y) <= tol) & (absd(p[2].z - t[2].z) <= tol); }
// every triangle that meets the box is offered exactly once, nothing offered is not a triangle of the surface
static void nearBox(ConcaveShape* s, const Tris& T, const Vector3& lo, const Vector3& hi, double tol, bool normals) {
    Near N; s->computeOverlappingTriangles(AABB(lo, hi), N.v, N.n, N.ids, N.al); int n = (int)N.ids.size(); sym_check((int)N.v.size() == 3 * n && (int)N.n.size() == 3 * n, "numbers of vertices, normals and identifiers"); sym_check(n <= T.n, "more triangles than there are"); sym_observe("near", n);
    D3 a(lo), b(hi); int found[64]; for (int t = 0; t < T.n; t++) found[t] = 0;
    for (int i = 0; i < n; i++) {
        int hit = -1; for (int t = 0; t < T.n; t++) if (same(&N.v[3 * i], T.t[t], tol)) { hit = t; break; } sym_check(hit >= 0, "an offered triangle is not one of the surface"); if (hit >= 0) found[hit]++;
        for (int k = 0; k < i; k++) sym_check(N.ids[i] != N.ids[k], "two triangles have the same identifier"); if (hit < 0) continue;
        D3 f = cross(T.t[hit][1] - T.t[hit][0], T.t[hit][2] - T.t[hit][0]); for (int k = 0; k < 3; k++) { D3 u(N.n[3 * i + k]); sym_check(absd(len(u) - 1) < 1e-3, "normal of a triangle is not a unit vector"); if (normals) sym_check(neard(u, f * (1 / len(f)), 1e-3), "normal of a triangle"); }
    }
    for (int t = 0; t < T.n; t++) { sym_check(found[t] <= 1, "a triangle is offered twice"); if (meets(T.t[t], a, b, tol)) sym_check(found[t] == 1, "a triangle near the box is not offered"); } if (n > 0) sym_reach("near");
}
// bounds contain all triangles, and the identifier of a triangle does not depend on the box
static void whole(CollisionShape* c, ConcaveShape* s, const Tris& T) {
    AABB b = c->getLocalBounds(); D3 lo(b.getMin()), hi(b.getMax()); for (int t = 0; t < T.n; t++) for (int k = 0; k < 3; k++) { const D3& p = T.t[t][k]; double e = 1e-6 * (1 + absd(p.x) + absd(p.y) + absd(p.z)); sym_check((p.x >= lo.x - e) & (p.y >= lo.y - e) & (p.z >= lo.z - e) & (p.x <= hi.x + e) & (p.y <= hi.y + e) & (p.z <= hi.z + e), "a triangle reaches outside of the bounds"); }
    Near A; s->computeOverlappingTriangles(AABB(b.getMin() - Vector3(1, 1, 1), b.getMax() + Vector3(1, 1, 1)), A.v, A.n, A.ids, A.al); sym_check((int)A.ids.size() == T.n, "the box around everything does not meet every triangle");
    // through the code's own vertices: they lie exactly within the bounds
    for (int i = 0; i < (int)A.v.size(); i++) sym_check((A.v[i].x >= b.getMin().x) & (A.v[i].y >= b.getMin().y) & (A.v[i].z >= b.getMin().z) & (A.v[i].x <= b.getMax().x) & (A.v[i].y <= b.getMax().y) & (A.v[i].z <= b.getMax().z), "an offered triangle reaches outside of the bounds");
    for (int i = 0; i < (int)A.ids.size(); i++) { const Vector3* p = &A.v[3 * i]; Near O; Vector3 l = Vector3::min(p[0], Vector3::min(p[1], p[2])), h = Vector3::max(p[0], Vector3::max(p[1], p[2])); s->computeOverlappingTriangles(AABB(l, h), O.v, O.n, O.ids, O.al); int k = -1; for (int j = 0; j < (int)O.ids.size(); j++) if (O.ids[j] == A.ids[i]) k = j; sym_check(k >= 0, "the box around a triangle does not offer it"); if (k >= 0) sym_check(eq3(O.v[3 * k], p[0]) && eq3(O.v[3 * k + 1], p[1]) && eq3(O.v[3 * k + 2], p[2]), "an identifier names another triangle for another box"); }
}
// boxes of any size and place around the palette fields
SYM_ENTRY(field_box) {
    World W; Tris T; int p = sym_pick("field", 0, 3), type = sym_pick("type", 0, 2), k = sym_pick("scale", 0, 3); Vector3 S(SURFSC[k][0], SURFSC[k][1], SURFSC[k][2]); HeightFieldShape* s = fieldOf(W, p, type, S, T); int sz = sym_pick("size", 0, 3); float w = sz == 0 ? 0 : sz == 1 ? 0.3125f : sz == 2 ? 1.25f : 3;
    float x = sym_grid("x", -16, 15, 2); float z = sym_grid("z", -8, 7, 1); float y = type == 1 ? sym_grid("y", -4, 3, 0) : 0; Vector3 lo(x * S.x, y * S.y - 1, z * S.z), hi(lo.x + w, lo.y + (type == 1 ? w : 8), lo.z + w * 0.75f); nearBox(s, T, lo, hi, 1e-5, true);
}
SYM_ENTRY(mesh_box) {
    World W; Tris T; int k = sym_pick("scale", 0, 3); Vector3 S(SURFSC[k][0], SURFSC[k][1], SURFSC[k][2]); ConcaveMeshShape* s = concaveOf(W, S, T); int sz = sym_pick("size", 0, 3); float w = sz == 0 ? 0 : sz == 1 ? 0.3125f : sz == 2 ? 1.25f : 3;
    float x = sym_grid("x", -8, 7, 1); float y = sym_grid("y", -4, 3, 1); float z = sym_grid("z", -8, 7, 1); Vector3 lo(x * S.x, y * S.y, z * S.z); nearBox(s, T, lo, Vector3(lo.x + w, lo.y + w * 0.5f, lo.z + w), 1e-5, false);
}
// bounds, identifiers, and the box of every triangle, for the palette surfaces
SYM_ENTRY(surfaces) { World W; Tris T; int p = sym_pick("surface", 0, 4), k = sym_pick("scale", 0, 3); Vector3 S(SURFSC[k][0], SURFSC[k][1], SURFSC[k][2]); if (p < 4) { HeightFieldShape* s = fieldOf(W, p, sym_pick("type", 0, 2), S, T); whole(s, s, T); } else { ConcaveMeshShape* s = concaveOf(W, S, T); whole(s, s, T); } sym_reach("end"); }
// heights that are not multiples of a power of two, far from zero, one of them symbolic
SYM_ENTRY(field_heights) {
    static const float BASE[6] = { 0, 1000.1f, -3000.3f, 0.001f, 123456, -7.7f }; int b = sym_pick("base", 0, 5), unit = sym_pick("unit", 0, 2), c = 2 + sym_pick("columns", 0, 2), r = 2 + sym_pick("rows", 0, 2); float u = unit == 0 ? 0.1f : unit == 1 ? 33.3f : 0.007f; int at = sym_pick("at", 0, 3); if (at >= c * r) return; int h = sym_int("h", -8, 7); float H[16]; for (int i = 0; i < c * r; i++) { int v = (i * 7) % 5; H[i] = BASE[b] + v * u; } H[at] = BASE[b] + h * u;
    World W; std::vector<Message> m; HeightField* f = W.pc.createHeightField(c, r, H, HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, m); sym_check(f != nullptr, "a valid height field is rejected"); HeightFieldShape* s = W.pc.createHeightFieldShape(f, Vector3(1.5f, 2, 1)); float mn = H[0], mx = H[0]; for (int i = 0; i < c * r; i++) { mn = H[i] < mn ? H[i] : mn; mx = H[i] > mx ? H[i] : mx; }
    Near A; AABB B = s->getLocalBounds(); s->computeOverlappingTriangles(B, A.v, A.n, A.ids, A.al); sym_check((int)A.ids.size() == 2 * (c - 1) * (r - 1), "the bounds do not meet every triangle"); double e = 4e-7 * ((double)absd(mn) + absd(mx) + 1) * 2;
    for (int i = 0; i < (int)A.v.size(); i++) { Vector3 q = A.v[i]; sym_check((q.x >= B.getMin().x) & (q.y >= B.getMin().y) & (q.z >= B.getMin().z) & (q.x <= B.getMax().x) & (q.y <= B.getMax().y) & (q.z <= B.getMax().z), "an offered triangle reaches outside of the bounds"); int ci = (int)(q.x / 1.5f + (c - 1) * 0.5f + 0.25f), ri = (int)(q.z + (r - 1) * 0.5f + 0.25f); sym_check(ci >= 0 && ci < c && ri >= 0 && ri < r, "vertex off the grid"); sym_check(absd(q.y - 2 * ((double)H[ri * c + ci] - ((double)mn + mx) * 0.5)) <= e, "height of a vertex"); }
    sym_reach("end");
}
// a symbolic vertex and a symbolic box around a mesh of many triangles (a strip that folds back on itself)
SYM_ENTRY(mesh_strip) {
    static float V[18][3]; static unsigned I[16][3]; int nt = sym_pick("triangles", 0, 3); nt = nt == 0 ? 1 : nt == 1 ? 5 : nt == 2 ? 11 : 16; int at = sym_pick("at", 0, 2); for (int i = 0; i < 18; i++) { V[i][0] = (i * 5 % 9) - 4; V[i][1] = (i & 1) * 1.0f + (i / 6) * 0.5f; V[i][2] = (i * 7 % 6) - 2.5f; } for (int t = 0; t < 16; t++) { I[t][0] = t; I[t][1] = t + 1; I[t][2] = t + 2; } int y = sym_int("vy", -4, 3); V[at][1] = y + 0.375f;
    World W; std::vector<Message> m; TriangleVertexArray a(18, V, 12, nt, I, 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); TriangleMesh* tm = W.pc.createTriangleMesh(a, m); sym_check(tm != nullptr, "a valid triangle mesh is refused"); ConcaveMeshShape* s = W.pc.createConcaveMeshShape(tm, Vector3(2, 0.5f, 1)); Tris T; T.n = 0; for (int t = 0; t < nt; t++) { for (int k = 0; k < 3; k++) T.t[T.n][k] = D3(2.0 * V[I[t][k]][0], 0.5 * V[I[t][k]][1], V[I[t][k]][2]); T.n++; }
    int x = sym_int("x", -4, 3); int z = sym_int("z", -2, 1); int big = sym_pick("big", 0, 1); Vector3 lo(2.0f * x + 0.125f, -1 + z * 0.25f, z + 0.25f); nearBox(s, T, lo, lo + (big ? Vector3(5, 3, 2) : Vector3(0.5f, 0.75f, 0.5f)), 1e-5, false);
}
