// Surfaces made of triangles (concave mesh, height fields) with an independent list of their triangles.
#pragma once
#include "shapes.h"
struct Tris { int n = 0; D3 t[64][3]; int idx[64]; };
static const float CMV[7][3] = { {-2,0,-2}, {2,0,-2}, {2,1,2}, {-2,0,2}, {0,2,0}, {0,-1,1}, {1,0.5f,-1} };
static const unsigned CMI[6][3] = { {0,4,1}, {1,4,2}, {2,4,3}, {3,4,0}, {0,5,3}, {5,6,2} };
static const float SURFSC[4][3] = { {1,1,1}, {2,1,0.5f}, {0.5f,3,1}, {1.5f,0.25f,2} };
static inline void concaveTris(Tris& T, const Vector3& S) { T.n = 0; for (int i = 0; i < 6; i++) { T.idx[T.n] = i; for (int k = 0; k < 3; k++) T.t[T.n][k] = D3((double)CMV[CMI[i][k]][0] * S.x, (double)CMV[CMI[i][k]][1] * S.y, (double)CMV[CMI[i][k]][2] * S.z); T.n++; } }
static inline ConcaveMeshShape* concaveOf(World& W, const Vector3& S, Tris& T) {
    TriangleVertexArray tva(7, CMV, 12, 6, CMI, 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); std::vector<Message> m; TriangleMesh* tm = W.pc.createTriangleMesh(tva, m); sym_check(tm != nullptr, "a valid triangle mesh is rejected"); concaveTris(T, S); return W.pc.createConcaveMeshShape(tm, S);
}
static const int HFP[25] = { 0,1,0,2,1, 1,3,0,0,0, 2,0,-1,1,0, 0,0,1,4,2, 1,1,0,0,3 };
// height of grid point (i,j) of palette p, in units of 1/2
static inline int hfHeight(int p, int i, int j) { return p == 0 ? HFP[j * 5 + i] : p == 1 ? (i * 3 + j * 5) % 4 : p == 2 ? 0 : -((i * i + j) % 5); }
static const int HFDIM[4][2] = { {5,4}, {2,3}, {3,3}, {4,5} };
static inline void fieldTris(Tris& T, int p, const Vector3& S) {
    int c = HFDIM[p][0], r = HFDIM[p][1]; double mn = 1e9, mx = -1e9; for (int j = 0; j < r; j++) for (int i = 0; i < c; i++) { mn = mind(mn, hfHeight(p, i, j) * 0.5); mx = maxd(mx, hfHeight(p, i, j) * 0.5); }
    auto at = [&](int i, int j) { return D3((i - (c - 1) * 0.5) * S.x, (hfHeight(p, i, j) * 0.5 - (mn + mx) * 0.5) * S.y, (j - (r - 1) * 0.5) * S.z); };
    T.n = 0; for (int i = 0; i + 1 < c; i++) for (int j = 0; j + 1 < r; j++) { D3 p1 = at(i, j), p2 = at(i, j + 1), p3 = at(i + 1, j), p4 = at(i + 1, j + 1); T.t[T.n][0] = p1; T.t[T.n][1] = p2; T.t[T.n++][2] = p3; T.t[T.n][0] = p3; T.t[T.n][1] = p2; T.t[T.n++][2] = p4; }
}
static inline HeightFieldShape* fieldOf(World& W, int p, int type, const Vector3& S, Tris& T) {     // type 0 float, 1 int, 2 double
    int c = HFDIM[p][0], r = HFDIM[p][1]; float H[25]; int HI[25]; double HD[25]; for (int j = 0; j < r; j++) for (int i = 0; i < c; i++) { int h = hfHeight(p, i, j); HI[j * c + i] = h; H[j * c + i] = h * 0.5f; HD[j * c + i] = h * 0.5; }
    std::vector<Message> m; HeightField* hf = type == 1 ? W.pc.createHeightField(c, r, HI, HeightField::HeightDataType::HEIGHT_INT_TYPE, m, 0.5f) : type == 0 ? W.pc.createHeightField(c, r, H, HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, m) : W.pc.createHeightField(c, r, HD, HeightField::HeightDataType::HEIGHT_DOUBLE_TYPE, m);
    sym_check(hf != nullptr, "a valid height field is rejected"); fieldTris(T, p, S); return W.pc.createHeightFieldShape(hf, S);
}
