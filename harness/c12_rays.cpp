// C12: ray casts against single shapes, decided by the signed distance of solids and by exact triangle intersection for surfaces.
#include "shapes.h"
#define NT 16
static Vector3 gridp(const char* n, int sh) { Vector3 p; p.x = sym_grid(n, -8, 7, sh); p.y = sym_grid(n, -8, 7, sh); p.z = sym_grid(n, -4, 3, sh); return p; }
// the second point of the ray: a palette of directions (through the inside, along axes, diagonal, tangential, short)
static const float DIR[12][3] = { {4,0,0}, {0,-4,0}, {0,0,4}, {-4,-4,0}, {2,-3,1}, {0.25f,-0.5f,0.125f}, {-6,1,2}, {0,8,0}, {1,0,-4}, {0,-1,0}, {-0.5f,0,0}, {8,8,8} };
static void decideSolid(const Solid& S, Collider* c, const Transform& t, const Ray& ray, double sc) {
    const double tol = 4e-4 * sc; RaycastInfo info; bool hit = c->raycast(ray, info);
    D3 o = invtrd(t, D3(ray.point1)), e = invtrd(t, D3(ray.point2)), dir = e - o; const double L = len(dir), mf = ray.maxFraction; const double so = S.sdf(o);
    if (hit) {
        sym_check((info.hitFraction >= 0) & (info.hitFraction <= ray.maxFraction), "hit fraction is outside [0, maximum]"); sym_check(info.body == c->getBody() && info.collider == c, "hit names another body or collider");
        D3 w(info.worldPoint); D3 onray = D3(ray.point1) + (D3(ray.point2) - D3(ray.point1)) * (double)info.hitFraction; sym_check(neard(w, onray, tol + 1e-4 * L), "hit point is not the point of the ray at the reported fraction");
        sym_check(absd(S.sdf(invtrd(t, w))) <= tol, "hit point is not on the surface of the shape"); D3 n(info.worldNormal); sym_check(absd(dot(n, n) - 1) < 1e-3, "hit normal is not a unit vector");
        sym_check(dot(n, D3(ray.point2) - D3(ray.point1)) <= 1e-3 * L, "hit normal does not face against the ray");
        // the normal points out of the shape: moving along it by a little leaves the shape
        sym_check(S.sdf(invtrd(t, w + n * (8 * tol))) > 2 * tol, "hit normal does not point out of the shape"); sym_reach("hit");
        sym_observe_f("f", info.hitFraction); observe3("n", info.worldNormal);
    }
    sym_observe("h", hit);
    // samples of the ray: a point strictly inside within the maximum, from an origin strictly outside, forces a hit before it
    double first = 1e9; for (int i = NT; i >= 0; i--) { double f = mf * i / NT; if (S.sdf(o + dir * f) < -tol) first = f; }
    if (so > tol) { sym_check(hit || first > mf, "a ray from outside through the inside of the shape is not reported"); if (hit) sym_check(info.hitFraction <= first, "the reported hit is not the first crossing"); }
    if (so < -tol) sym_check(!hit, "a ray that starts inside a solid shape reports a hit");
}
SYM_ENTRY(solids) {
    World W; int k = sym_pick("shape", 0, 6); int var = sym_pick("variant", 0, 2); float s = 1; Solid S = solid(W, k, s, var); int d = sym_pick("dir", 0, RP_TIER ? 11 : 6); int place = RP_TIER ? sym_pick("place", 0, 1) : (d + var) & 1;
    Transform bt(Vector3(1, -2, 0.5f), rotq(place ? 16 : 4)), lt(place ? Vector3(0.5f, 0.25f, -1) : Vector3(0, 0, 0), rotq(place ? 5 : 0)); RigidBody* b = W.w->createRigidBody(bt); Collider* c = b->addCollider(S.s, lt);
    Vector3 o = gridp("o", 1) + Vector3(1, -2, 0.5f); Vector3 dir(DIR[d][0], DIR[d][1], DIR[d][2]); decideSolid(S, c, bt * lt, Ray(o, o + dir, d == 2 ? 0.5f : d == 5 ? 8.0f : 1.0f), S.size() + 2);
}
// small and large shapes, rays shorter than a metre
SYM_ENTRY(solids_scaled) {
    World W; int k = sym_pick("shape", 0, 6); int big = sym_pick("big", 0, 1); float s = big ? 32 : 1.0f / 32; Solid S = solid(W, k, s, 0); int d = sym_pick("dir", 0, 5);
    Transform bt(Vector3(0, 0, 0), rotq(4)); RigidBody* b = W.w->createRigidBody(bt); Collider* c = b->addCollider(S.s, Transform::identity());
    Vector3 o = gridp("o", 1) * s; Vector3 dir = Vector3(DIR[d][0], DIR[d][1], DIR[d][2]) * s; decideSolid(S, c, bt, Ray(o, o + dir, 1.0f), (S.size() + 2 * s));
}
// ---- surfaces made of triangles
struct Tris { int n = 0; D3 t[64][3]; int idx[64]; };
static void decideTris(const Tris& T, int side, Collider* c, const Transform& tr, const Ray& ray, bool mesh) {
    const double tol = 2e-4; RaycastInfo info; info.triangleIndex = -7; bool hit = c->raycast(ray, info); D3 o = invtrd(tr, D3(ray.point1)), e = invtrd(tr, D3(ray.point2)), d = e - o; const double L = len(d), mf = ray.maxFraction;
    D3 lp = invtrd(tr, D3(info.worldPoint)); double sure = 1e9; bool on = false;
    Quaternion q = tr.getOrientation(); D3 ln = rotd(Quaternion(-q.x, -q.y, -q.z, q.w), D3(info.worldNormal));
    for (int i = 0; i < T.n; i++) {
        D3 a = T.t[i][0], u = T.t[i][1] - a, v = T.t[i][2] - a, n = cross(u, v); double nl = len(n); n = n * (1 / nl); double nd = dot(n, d) / L;     // exact: plane hit, then barycentric coordinates
        bool facing = side == 2 || (side == 0 ? nd < -0.02 : nd > 0.02); bool maybeFacing = side == 2 || (side == 0 ? nd < 0.02 : nd > -0.02);
        double f = absd(nd) > 0.02 ? dot(n, a - o) / dot(n, d) : -1; D3 p = o + d * f - a; double uu = dot(u, u), uv = dot(u, v), vv = dot(v, v), pu = dot(p, u), pv = dot(p, v), den = uu * vv - uv * uv; double b1 = (vv * pu - uv * pv) / den, b2 = (uu * pv - uv * pu) / den;
        bool sureHit = (absd(nd) > 0.02) & facing & (f > tol) & (f < mf - tol) & (b1 > tol) & (b2 > tol) & (b1 + b2 < 1 - tol); if (sureHit) sure = mind(sure, f);
        D3 h = lp - a; double hu = dot(h, u), hv = dot(h, v), c1 = (vv * hu - uv * hv) / den, c2 = (uu * hv - uv * hu) / den;
        bool here = maybeFacing & (absd(dot(n, h)) < 8 * tol) & (c1 > -8 * tol) & (c2 > -8 * tol) & (c1 + c2 < 1 + 8 * tol) & (absd(absd(dot(n, ln)) - 1) < 1e-3); if (mesh) here &= T.idx[i] == info.triangleIndex; on |= here;
    }
    if (hit) {
        sym_check((info.hitFraction >= 0) & (info.hitFraction <= ray.maxFraction), "hit fraction is outside [0, maximum]"); sym_check(info.body == c->getBody() && info.collider == c, "hit names another body or collider");
        sym_check(on, "hit point, normal and triangle index match no triangle of the surface"); sym_check(neard(D3(info.worldPoint), D3(ray.point1) + (D3(ray.point2) - D3(ray.point1)) * (double)info.hitFraction, 8 * tol + 1e-4 * L), "hit point is not the point of the ray at the reported fraction");
        sym_check(dot(D3(info.worldNormal), D3(ray.point2) - D3(ray.point1)) <= 1e-3 * L, "hit normal does not face against the ray");
        sym_check(info.hitFraction <= sure + tol, "the reported hit is not the first crossing"); sym_observe_f("f", info.hitFraction); observe3("n", info.worldNormal); sym_reach("hit");
    } else sym_check(sure > 1e8, "a ray through a triangle of the surface is not reported");
    sym_observe("h", hit);
}
static TriangleRaycastSide sideOf(int k) { return k == 0 ? TriangleRaycastSide::FRONT : k == 1 ? TriangleRaycastSide::BACK : TriangleRaycastSide::FRONT_AND_BACK; }
static const float SC[4][3] = { {1,1,1}, {2,1,0.5f}, {0.5f,3,1}, {1.5f,0.25f,2} };
static Vector3 gridr(const char* n, int sh) { Vector3 p; p.x = sym_grid(n, -8, 7, sh); p.y = sym_grid(n, -4, 3, sh); p.z = sym_grid(n, -8, 7, sh); return p; }
static const float DIRS[8][3] = { {0,-4,0}, {3,-2,1}, {-4,0,0}, {0,0.5f,4}, {0,3,0}, {-2,-4,-3}, {6,-0.5f,0}, {-3,-1,3} };
SYM_ENTRY(concave_mesh) {
    World W; static const float V[7][3] = { {-2,0,-2}, {2,0,-2}, {2,1,2}, {-2,0,2}, {0,2,0}, {0,-1,1}, {1,0.5f,-1} }; static const unsigned I[6][3] = { {0,4,1}, {1,4,2}, {2,4,3}, {3,4,0}, {0,5,3}, {5,6,2} };
    TriangleVertexArray tva(7, V, 12, 6, I, 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); std::vector<Message> m; TriangleMesh* tm = W.pc.createTriangleMesh(tva, m); sym_check(tm != nullptr, "a valid triangle mesh is rejected");
    int sc = sym_pick("scale", 0, RP_TIER ? 3 : 1); int side = sym_pick("side", 0, 2); int d = sym_pick("dir", 0, 7); int place = RP_TIER ? sym_pick("place", 0, 1) : (d + side) & 1; Vector3 S(SC[sc][0], SC[sc][1], SC[sc][2]);
    ConcaveMeshShape* s = W.pc.createConcaveMeshShape(tm, S); s->setRaycastTestType(sideOf(side)); Tris T; for (int i = 0; i < 6; i++) { T.idx[T.n] = i; for (int k = 0; k < 3; k++) T.t[T.n][k] = D3((double)V[I[i][k]][0] * S.x, (double)V[I[i][k]][1] * S.y, (double)V[I[i][k]][2] * S.z); T.n++; }
    Transform bt(Vector3(0, 0, 0), rotq(place ? 16 : 0)); RigidBody* b = W.body(nullptr, bt, BodyType::STATIC); Collider* c = b->addCollider(s, place ? Transform(Vector3(1, 0, 0.5f), rotq(5)) : Transform::identity());
    Vector3 o = gridr("o", 1) + Vector3(0.0625f, 0.03125f, -0.03125f) + bt * c->getLocalToBodyTransform().getPosition(); Vector3 dir = Vector3(DIRS[d][0], DIRS[d][1], DIRS[d][2]); decideTris(T, side, c, bt * c->getLocalToBodyTransform(), Ray(o, o + dir, d == 5 ? 0.5f : 1.0f), true);
}
template<class F> static void field(F f, int cols, int rows, int sc, int side, const Vector3& o, const Vector3& dir, float mf, int place) {
    World W; float H[25]; int HI[25]; double mn = 1e9, mx = -1e9; for (int j = 0; j < rows; j++) for (int i = 0; i < cols; i++) { int h = f(i, j); HI[j * cols + i] = h; H[j * cols + i] = h * 0.5f; mn = mind(mn, h * 0.5); mx = maxd(mx, h * 0.5); }
    std::vector<Message> m; int type = (cols + sc + side) & 1; HeightField* hf = type ? W.pc.createHeightField(cols, rows, HI, HeightField::HeightDataType::HEIGHT_INT_TYPE, m, 0.5f) : W.pc.createHeightField(cols, rows, H, HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, m); Vector3 S(SC[sc][0], SC[sc][1], SC[sc][2]);
    HeightFieldShape* s = W.pc.createHeightFieldShape(hf, S); s->setRaycastTestType(sideOf(side)); Tris T; auto at = [&](int i, int j) { return D3((i - (cols - 1) * 0.5) * S.x, ((double)H[j * cols + i] - (mn + mx) * 0.5) * S.y, (j - (rows - 1) * 0.5) * S.z); };
    for (int i = 0; i + 1 < cols; i++) for (int j = 0; j + 1 < rows; j++) { D3 p1 = at(i, j), p2 = at(i, j + 1), p3 = at(i + 1, j), p4 = at(i + 1, j + 1); T.t[T.n][0] = p1; T.t[T.n][1] = p2; T.t[T.n++][2] = p3; T.t[T.n][0] = p3; T.t[T.n][1] = p2; T.t[T.n++][2] = p4; }
    Transform bt(Vector3(0, 0, 0), rotq(place ? 16 : 0)); RigidBody* b = W.body(nullptr, bt, BodyType::STATIC); Collider* c = b->addCollider(s, place ? Transform(Vector3(1, 0, 0.5f), rotq(1)) : Transform::identity());
    Vector3 org = o + bt * c->getLocalToBodyTransform().getPosition(); decideTris(T, side, c, bt * c->getLocalToBodyTransform(), Ray(org, org + dir, mf), false);
}
SYM_ENTRY(height_field) {
    int sc = sym_pick("scale", 0, RP_TIER ? 3 : 1); int shape = sym_pick("grid", 0, 2); int side = RP_TIER || shape == 0 ? sym_pick("side", 0, 2) : 2; int d = sym_pick("dir", 0, 7); int place = RP_TIER ? sym_pick("place", 0, 1) : (d + sc) & 1; Vector3 o = gridr("o", 1); if (place || d != 2) o += Vector3(0.0625f, 0.03125f, -0.03125f);
    static const int P[25] = { 0,1,0,2,1, 1,3,0,0,0, 2,0,-1,1,0, 0,0,1,4,2, 1,1,0,0,3 }; Vector3 dir = Vector3(DIRS[d][0], DIRS[d][1], DIRS[d][2]); float mf = d == 5 ? 0.5f : 1.0f;
    if (shape == 0) field([&](int i, int j) { return P[j * 5 + i]; }, 5, 4, sc, side, o, dir, mf, place); else if (shape == 1) field([&](int i, int j) { return (i * 3 + j * 5) % 4; }, 2, 3, sc, side, o, dir, mf, place); else field([&](int i, int j) { return 0; }, 3, 3, sc, side, o, dir, mf, place);
}
