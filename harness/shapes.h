// Solid shapes with an independent description (signed distance bound in double precision) used as geometric oracle.
#pragma once
#include "kit.h"
struct Solid {
    CollisionShape* s = nullptr; int kind = 0;          // 0 sphere, 1 capsule (axis y), 2 polyhedron given by planes
    double r = 0, h = 0; int np = 0; D3 n[16]; double d[16]; int nv = 0; D3 v[16];   // planes n.x <= d, vertices
    // negative inside, positive outside; magnitude is a lower bound of the distance to the surface outside and exact depth inside
    double sdf(const D3& p) const {
        if (kind == 0) return len(p) - r;
        if (kind == 1) { double y = clampd(p.y, -h / 2, h / 2); return len(D3(p.x, p.y - y, p.z)) - r; }
        double m = -1e30; for (int i = 0; i < np; i++) m = maxd(m, dot(n[i], p) - d[i]); return m;
    }
    double size() const { if (kind == 0) return r; if (kind == 1) return r + h / 2; double m = 0; for (int i = 0; i < nv; i++) m = maxd(m, len(v[i])); return m; }
};
static inline void planesFromFaces(Solid& o, const int (*f)[4], int nf) {
    o.np = nf; D3 c(0, 0, 0); for (int i = 0; i < o.nv; i++) c = c + o.v[i] * (1.0 / o.nv);
    for (int i = 0; i < nf; i++) { D3 n = cross(o.v[f[i][1]] - o.v[f[i][0]], o.v[f[i][2]] - o.v[f[i][0]]); n = n * (1 / len(n)); if (dot(n, c - o.v[f[i][0]]) > 0) n = n * -1; o.n[i] = n; o.d[i] = dot(n, o.v[f[i][0]]); }
}
static inline Solid sphereOf(World& W, float r) { Solid o; o.kind = 0; o.r = r; o.s = W.pc.createSphereShape(r); return o; }
static inline Solid capsuleOf(World& W, float r, float h) { Solid o; o.kind = 1; o.r = r; o.h = h; o.s = W.pc.createCapsuleShape(r, h); return o; }
static const int BOXF[6][4] = { {0,1,3,2}, {4,6,7,5}, {0,4,5,1}, {2,3,7,6}, {0,2,6,4}, {1,5,7,3} };
static inline Solid boxOf(World& W, const Vector3& e) {
    Solid o; o.kind = 2; o.s = W.pc.createBoxShape(e); o.nv = 8; for (int i = 0; i < 8; i++) o.v[i] = D3(i & 1 ? e.x : -e.x, i & 2 ? e.y : -e.y, i & 4 ? e.z : -e.z); planesFromFaces(o, BOXF, 6); return o;
}
struct MeshSrc { int nv, nf; float v[10][3]; int f[10][4]; };     // faces wound counter-clockwise seen from outside, triangle: 4th index -1
static const MeshSrc MESHES[4] = {
    { 4, 4, { {1,1,1}, {-1,-1,1}, {-1,1,-1}, {1,-1,-1} }, { {0,2,1,-1}, {0,1,3,-1}, {0,3,2,-1}, {1,2,3,-1} } },                                   // tetrahedron
    { 6, 8, { {1,0,0}, {-1,0,0}, {0,2,0}, {0,-2,0}, {0,0,1}, {0,0,-1} }, { {0,2,4,-1}, {2,1,4,-1}, {1,3,4,-1}, {3,0,4,-1}, {2,0,5,-1}, {1,2,5,-1}, {3,1,5,-1}, {0,3,5,-1} } },   // stretched octahedron
    { 6, 5, { {-1,-1,-1}, {1,-1,-1}, {0,1,-1}, {-1,-1,1}, {1,-1,1}, {0,1,1} }, { {0,2,1,-1}, {3,4,5,-1}, {0,1,4,3}, {1,2,5,4}, {2,0,3,5} } },        // triangular prism
    { 5, 5, { {-1,-1,-1}, {1,-1,-1}, {1,-1,1}, {-1,-1,1}, {0.5f,1,0.25f} }, { {0,1,2,3}, {1,0,4,-1}, {2,1,4,-1}, {3,2,4,-1}, {0,3,4,-1} } } };        // skewed pyramid
static inline ConvexMesh* meshOf(World& W, int k, float s = 1, Vector3 off = Vector3(0, 0, 0)) {
    const MeshSrc& m = MESHES[k]; static float pts[30]; static unsigned idx[40]; static PolygonVertexArray::PolygonFace faces[10]; int ni = 0;
    for (int i = 0; i < m.nv; i++) for (int c = 0; c < 3; c++) pts[3 * i + c] = m.v[i][c] * s + off[c];
    for (int i = 0; i < m.nf; i++) { int q = m.f[i][3] < 0 ? 3 : 4; faces[i].nbVertices = q; faces[i].indexBase = ni; for (int c = 0; c < q; c++) idx[ni++] = m.f[i][c]; }
    PolygonVertexArray pva(m.nv, pts, 12, idx, 4, m.nf, faces, PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
    std::vector<Message> msg; ConvexMesh* c = W.pc.createConvexMesh(pva, msg); sym_check(c != nullptr, "a valid convex mesh is rejected"); return c;
}
static inline Solid convexOf(World& W, int k, const Vector3& scale, float s = 1, Vector3 off = Vector3(0, 0, 0)) {
    Solid o; o.kind = 2; const MeshSrc& m = MESHES[k]; o.s = W.pc.createConvexMeshShape(meshOf(W, k, s, off), scale); o.nv = m.nv;
    for (int i = 0; i < m.nv; i++) o.v[i] = D3(((double)m.v[i][0] * s + off.x) * scale.x, ((double)m.v[i][1] * s + off.y) * scale.y, ((double)m.v[i][2] * s + off.z) * scale.z); planesFromFaces(o, m.f, m.nf); return o;
}
// solids of a fixed palette: 0 sphere 1 capsule 2 box 3..6 convex meshes (scaled)
static const Vector3 OFFSET3(3, 0.5f, -1);
static inline Solid solid(World& W, int k, float s = 1, int variant = 0) {
    static const float SC[4][3] = { {1,1,1}, {2,1,0.5f}, {0.5f,1.5f,1}, {1,1,1} };
    Vector3 sc(SC[variant][0], SC[variant][1], SC[variant][2]);
    if (k == 0) return sphereOf(W, s * (variant == 1 ? 0.75f : variant == 2 ? 2 : 1)); if (k == 1) return variant == 2 ? capsuleOf(W, s, s * 0.5f) : variant == 1 ? capsuleOf(W, 0.25f * s, 3 * s) : capsuleOf(W, 0.5f * s, 2 * s);
    if (k == 2) return boxOf(W, sc * s); return convexOf(W, k - 3, sc, s, variant == 3 ? OFFSET3 * s : Vector3(0, 0, 0));          // variant 3: the vertices are away from the origin
}
