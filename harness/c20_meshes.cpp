// C20: meshes and height fields made from any data are either refused with a message or represent exactly that data.
#include "surfaces.h"
static const int MV = 12, MF = 12, MI = 48;
struct Src { int nv, nf, ni; double v[MV][3]; unsigned idx[MI]; int base[MF], cnt[MF]; bool flipped = false; };
static void fromPalette(Src& s, int k) {
    static const int CUBE[6][4] = { {0,1,3,2}, {4,6,7,5}, {0,4,5,1}, {2,3,7,6}, {0,2,6,4}, {1,5,7,3} };
    s.ni = 0; if (k == 4) { s.nv = 8; s.nf = 6; for (int i = 0; i < 8; i++) { s.v[i][0] = i & 1 ? 1 : -1; s.v[i][1] = i & 2 ? 2 : -2; s.v[i][2] = i & 4 ? 1.5 : -0.5; } for (int f = 0; f < 6; f++) { s.base[f] = s.ni; s.cnt[f] = 4; for (int c = 0; c < 4; c++) s.idx[s.ni++] = CUBE[f][3 - c]; } return; }
    const MeshSrc& m = MESHES[k]; s.nv = m.nv; s.nf = m.nf; for (int i = 0; i < m.nv; i++) for (int c = 0; c < 3; c++) s.v[i][c] = m.v[i][c]; for (int f = 0; f < m.nf; f++) { s.base[f] = s.ni; s.cnt[f] = m.f[f][3] < 0 ? 3 : 4; for (int c = 0; c < s.cnt[f]; c++) s.idx[s.ni++] = m.f[f][c]; }
}
static D3 vtx(const Src& s, unsigned i) { return D3((float)s.v[i][0], (float)s.v[i][1], (float)s.v[i][2]); }
static D3 newell(const Src& s, int f) { D3 n(0, 0, 0); for (int i = 0; i < s.cnt[f]; i++) n = n + cross(vtx(s, s.idx[s.base[f] + i]), vtx(s, s.idx[s.base[f] + (i + 1) % s.cnt[f]])); return n; }
// closed, consistently wound surface in which every vertex is used, of one piece with Euler number 2, no face without area
static bool consistent(const Src& s) {
    int sum = 0; if (s.nv < 1 || s.nf < 1) return false; bool used[MV] = {};
    for (int f = 0; f < s.nf; f++) { if (s.cnt[f] < 3) return false; sum += s.cnt[f]; for (int i = 0; i < s.cnt[f]; i++) { if (s.idx[s.base[f] + i] >= (unsigned)s.nv) return false; used[s.idx[s.base[f] + i]] = true; } }
    for (int i = 0; i < s.nv; i++) if (!used[i]) return false;
    for (int f = 0; f < s.nf; f++) for (int i = 0; i < s.cnt[f]; i++) { unsigned a = s.idx[s.base[f] + i], b = s.idx[s.base[f] + (i + 1) % s.cnt[f]]; int same = 0, twin = 0; for (int g = 0; g < s.nf; g++) for (int k = 0; k < s.cnt[g]; k++) { unsigned c = s.idx[s.base[g] + k], d = s.idx[s.base[g] + (k + 1) % s.cnt[g]]; same += (c == a) & (d == b); twin += (c == b) & (d == a); } if (a == b || same != 1 || twin != 1) return false; }
    if (2 + sum / 2 != s.nv + s.nf) return false; for (int f = 0; f < s.nf; f++) if (len(newell(s, f)) < 1e-6) return false; return true;
}
static ConvexMesh* create(World& W, const Src& s, int vtype, int itype, int stride, bool& msg) {
    static float vf[MV * 5]; static double vd[MV * 5]; static unsigned ii[MI * 2]; static unsigned short is[MI * 2]; static PolygonVertexArray::PolygonFace faces[MF]; int vs = stride ? 5 : 3, st = stride ? 2 : 1;
    for (int i = 0; i < s.nv; i++) for (int c = 0; c < 3; c++) { vf[vs * i + c] = (float)s.v[i][c]; vd[vs * i + c] = s.v[i][c]; } for (int i = 0; i < s.ni; i++) { ii[st * i] = s.idx[i]; is[st * i] = (unsigned short)s.idx[i]; } for (int f = 0; f < s.nf; f++) { faces[f].nbVertices = s.cnt[f]; faces[f].indexBase = s.base[f]; }
    PolygonVertexArray a(s.nv, vtype ? (void*)vd : (void*)vf, vs * (vtype ? 8 : 4), itype ? (void*)is : (void*)ii, st * (itype ? 2 : 4), s.nf, faces, vtype ? PolygonVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, itype ? PolygonVertexArray::IndexDataType::INDEX_SHORT_TYPE : PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
    std::vector<Message> m; ConvexMesh* c = W.pc.createConvexMesh(a, m); msg = m.size() > 0; return c;
}
static void edgesOk(const ConvexMesh* c) {
    const HalfEdgeStructure& h = c->getHalfEdgeStructure(); unsigned ne = h.getNbHalfEdges(), sum = 0; sym_check(h.getNbVertices() == c->getNbVertices(), "vertices of the half-edge structure");
    for (unsigned f = 0; f < h.getNbFaces(); f++) { const HalfEdgeStructure::Face& F = h.getFace(f); unsigned n = (unsigned)F.faceVertices.size(); sum += n; sym_check(F.edgeIndex < ne, "edge of a face out of range"); unsigned e = F.edgeIndex, first = e; int off = -1; for (unsigned i = 0; i < n; i++) if (F.faceVertices[i] == h.getHalfEdge(e).vertexIndex) off = (int)i; sym_check(off >= 0, "a face's edge starts outside the face"); for (unsigned i = 0; i < n; i++) { const HalfEdgeStructure::Edge& E = h.getHalfEdge(e); sym_check(E.faceIndex == f, "an edge of the loop names another face"); sym_check(E.vertexIndex == F.faceVertices[(off + i) % n], "an edge of the loop starts at the wrong vertex"); sym_check(E.nextEdgeIndex < ne && E.twinEdgeIndex < ne, "edge reference out of range"); e = E.nextEdgeIndex; } sym_check(e == first, "the edges of a face do not form a loop"); }
    sym_check(sum == ne, "number of half-edges"); for (unsigned e = 0; e < ne; e++) { const HalfEdgeStructure::Edge &E = h.getHalfEdge(e), &T = h.getHalfEdge(E.twinEdgeIndex); sym_check(T.twinEdgeIndex == e && E.twinEdgeIndex != e, "twin of the twin"); sym_check(T.vertexIndex == h.getHalfEdge(E.nextEdgeIndex).vertexIndex, "twin starts at the wrong vertex"); sym_check(T.faceIndex != E.faceIndex, "an edge and its twin belong to one face"); }
    for (unsigned v = 0; v < h.getNbVertices(); v++) { sym_check(h.getVertex(v).edgeIndex < ne && h.getHalfEdge(h.getVertex(v).edgeIndex).vertexIndex == v, "edge of a vertex starts elsewhere"); sym_check(h.getVertex(v).vertexPointIndex == v, "point of a vertex"); }
}
// the mesh holds exactly the given vertices and faces; normals, volume, centroid and bounds follow from them
static void matches(const ConvexMesh* c, const Src& s, double tol) {
    sym_check((int)c->getNbVertices() == s.nv && (int)c->getNbFaces() == s.nf, "numbers of vertices and faces"); D3 sum(0, 0, 0), lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9); double size = 0;
    for (int i = 0; i < s.nv; i++) { D3 p = vtx(s, i); Vector3 q = c->getVertex(i); sym_check((q.x == p.x) & (q.y == p.y) & (q.z == p.z), "a vertex is not the given one"); sum = sum + p; lo = D3(mind(lo.x, p.x), mind(lo.y, p.y), mind(lo.z, p.z)); hi = D3(maxd(hi.x, p.x), maxd(hi.y, p.y), maxd(hi.z, p.z)); }
    size = maxd(maxd(maxd(absd(lo.x), absd(lo.y)), maxd(absd(lo.z), absd(hi.x))), maxd(absd(hi.y), absd(hi.z))); double t = tol * size; edgesOk(c); double vol = 0;
    for (int f = 0; f < s.nf; f++) {
        const HalfEdgeStructure::Face& F = c->getHalfEdgeStructure().getFace(f); sym_check((int)F.faceVertices.size() == s.cnt[f], "number of vertices of a face"); for (int i = 0; i < s.cnt[f]; i++) sym_check(F.faceVertices[i] == s.idx[s.base[f] + i], "vertices of a face");
        D3 n = newell(s, f), u(c->getFaceNormal(f)); sym_check(absd(len(u) - 1) < 1e-4, "face normal is not a unit vector"); n = n * (1 / len(n)); sym_check(neard(n, u, 1e-3), "face normal does not match the face");
        D3 p = vtx(s, s.idx[s.base[f]]); for (int i = 0; i < s.nv; i++) sym_check(dot(u, vtx(s, i) - p) <= t * 4, "a vertex lies in front of a face"); for (int i = 1; i + 1 < s.cnt[f]; i++) vol += dot(p - vtx(s, 0), cross(vtx(s, s.idx[s.base[f] + i]) - vtx(s, 0), vtx(s, s.idx[s.base[f] + i + 1]) - vtx(s, 0)));
    }
    vol /= 6; sym_check(absd(c->getVolume() - vol) <= tol * 8 * size * size * size + 1e-12, "volume"); sym_check(neard(D3(c->getCentroid()), sum * (1.0 / s.nv), t), "centroid"); Vector3 bl = c->getBounds().getMin(), bh = c->getBounds().getMax(); sym_check((bl.x == lo.x) & (bl.y == lo.y) & (bl.z == lo.z) & (bh.x == hi.x) & (bh.y == hi.y) & (bh.z == hi.z), "bounds");
}
// valid meshes in every format, scaled and anywhere
SYM_ENTRY(convex_valid) {
    Src s; int k = sym_pick("mesh", 0, 4), vt = sym_pick("vtype", 0, 1), it = sym_pick("itype", 0, 1), st = sym_pick("stride", 0, 1), sc = sym_pick("scale", 0, 2); fromPalette(s, k); double f = sc == 0 ? 1 : sc == 1 ? 0.03125 : 32; int x = sym_int("x", -8, 7); int y = sym_int("y", -8, 7); int z = sym_int("z", -2, 1);
    for (int i = 0; i < s.nv; i++) { s.v[i][0] = (s.v[i][0] + x * 0.5) * f; s.v[i][1] = (s.v[i][1] + y * 0.25) * f; s.v[i][2] = (s.v[i][2] + z) * f; } World W; bool msg; ConvexMesh* c = create(W, s, vt, it, st, msg); sym_check(c != nullptr, "a valid convex mesh is refused"); matches(c, s, 2e-4); sym_observe_f("volume", c->getVolume()); sym_reach("end");
}
// one vertex anywhere it keeps the mesh convex
SYM_ENTRY(convex_vertex) {
    Src s; int k = sym_pick("mesh", 0, 1); fromPalette(s, k ? 3 : 0); int w = k ? 4 : 0; int x = sym_int("x", -4, 3); int y = sym_int("y", 0, 7); int z = sym_int("z", -4, 3);
    if (k) { s.v[4][0] = x * 0.25; s.v[4][1] = -0.5 + y * 0.5; s.v[4][2] = z * 0.25; } else { s.v[0][0] = 1 + 0.25 * (x + 4); s.v[0][1] = 1 + 0.25 * y; s.v[0][2] = 1 + 0.125 * (z + 4); } (void)w; World W; bool msg; ConvexMesh* c = create(W, s, 0, 0, 0, msg); sym_check(c != nullptr, "a valid convex mesh is refused"); matches(c, s, 2e-4); sym_observe_f("volume", c->getVolume());
}
static void broken(Src& s, bool flips) {
    bool ok = consistent(s); World W; bool msg; ConvexMesh* c = create(W, s, 0, 0, 0, msg); if (c == nullptr) { sym_check(msg, "refused without a message"); sym_check(!ok || flips, "a consistent mesh is refused"); sym_reach("refused"); }
    else { sym_check(ok, "an inconsistent mesh is accepted"); sym_observe("edges", c->getHalfEdgeStructure().getNbHalfEdges()); edgesOk(c); sym_check((int)c->getNbVertices() == s.nv && (int)c->getNbFaces() == s.nf, "numbers of vertices and faces"); sym_reach("accepted"); }
}
// one index replaced by any other, one more by some other
SYM_ENTRY(convex_index) { Src s; int k = sym_pick("mesh", 0, 4); fromPalette(s, k); int at = sym_pick("at", 0, 23); if (at >= s.ni) return; unsigned v = (unsigned)sym_range("v", 0, 15); v = (unsigned)sym_concretize(v); s.idx[at] = v == 15 ? 0xffffffffu : v == 14 ? 65536u : v; broken(s, false); }
SYM_ENTRY(convex_index2) { Src s; int k = sym_pick("mesh", 0, 1); fromPalette(s, k ? 3 : 0); int at = sym_pick("at", 0, 11), at2 = sym_pick("at2", 0, 11); if (at2 <= at) return; unsigned v = (unsigned)sym_range("v", 0, 5); unsigned w = (unsigned)sym_range("w", 0, 5); s.idx[at] = v; s.idx[at2] = w; broken(s, false); }
// faces shortened, left out, doubled, turned round; vertices left out, added, doubled
SYM_ENTRY(convex_faces) {
    Src s; int k = sym_pick("mesh", 0, 4), what = sym_pick("what", 0, 8), f = sym_pick("face", 0, 7), n = sym_pick("n", 0, 3); fromPalette(s, k); if (what != 4 && what != 5 && f >= s.nf) return;
    if (what == 0) s.cnt[f] = n; else if (what == 1) { s.nf--; s.cnt[f] = s.cnt[s.nf]; s.base[f] = s.base[s.nf]; } else if (what == 2) { s.cnt[s.nf] = s.cnt[f]; s.base[s.nf] = s.base[f]; s.nf++; }
    else if (what == 3) { for (int i = 0; i < s.cnt[f] / 2; i++) { unsigned t = s.idx[s.base[f] + i]; s.idx[s.base[f] + i] = s.idx[s.base[f] + s.cnt[f] - 1 - i]; s.idx[s.base[f] + s.cnt[f] - 1 - i] = t; } }
    else if (what == 4) s.nv = f < s.nv ? f : s.nv; else if (what == 5) { for (int c = 0; c < 3; c++) s.v[s.nv][c] = n == 0 ? s.v[0][c] : 0.25 * c; s.nv++; } else if (what == 6) s.nf = n; else if (what == 7) { int m = (s.idx[s.base[f] + n % s.cnt[f]] + 1 + n) % s.nv; for (int c = 0; c < 3; c++) s.v[s.idx[s.base[f]]][c] = s.v[m][c]; } else { if (f + 1 >= s.nf) return; s.cnt[f] += n; if (s.base[f] + s.cnt[f] > s.ni) return; }
    broken(s, what == 3 || what == 7);
}
// triangle meshes: one index and one vertex symbolic, all formats, with and without own normals
static const int TV = 7; static const double TVV[TV][3] = { {0,0,0}, {2,0,0}, {2,1,2}, {0,0,2}, {1,2,1}, {4,0,0}, {-1,-1,1} }; static const unsigned TII[5][3] = { {1,0,4}, {1,4,2}, {2,4,3}, {1,5,2}, {3,6,4} };
static void triangles(double V[][3], int nv, unsigned I[][3], int nt, int vt, int it, int st, int normals, float scale) {
    static float vf[TV * 5], nf[TV * 3]; static double vd[TV * 5], nd[TV * 3]; static unsigned ii[8 * 4]; static unsigned short is[8 * 4]; int vs = st ? 5 : 3, is_ = st ? 4 : 3; for (int i = 0; i < nv; i++) for (int c = 0; c < 3; c++) { vf[vs * i + c] = (float)(V[i][c] * scale); vd[vs * i + c] = V[i][c] * scale; nf[3 * i + c] = c == i % 3 ? (normals == 2 && i == 4 ? 0.0f : 1.0f) : 0.0f; nd[3 * i + c] = nf[3 * i + c]; }
    for (int t = 0; t < nt; t++) for (int c = 0; c < 3; c++) { ii[is_ * t + c] = I[t][c]; is[is_ * t + c] = (unsigned short)I[t][c]; }
    auto VT = vt ? TriangleVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE; auto IT = it ? TriangleVertexArray::IndexDataType::INDEX_SHORT_TYPE : TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE; auto NT = vt ? TriangleVertexArray::NormalDataType::NORMAL_FLOAT_TYPE : TriangleVertexArray::NormalDataType::NORMAL_DOUBLE_TYPE;
    const void *pv = vt ? (void*)vd : (void*)vf, *pi = it ? (void*)is : (void*)ii; unsigned sv = vs * (vt ? 8 : 4), si = is_ * (it ? 2 : 4); TriangleVertexArray a1(nv, pv, sv, nt, pi, si, VT, IT), a2(nv, pv, sv, vt ? (void*)nf : (void*)nd, vt ? 12 : 24, nt, pi, si, VT, NT, IT);
    World W; std::vector<Message> m; TriangleMesh* t = W.pc.createTriangleMesh(normals ? a2 : a1, m);
    auto at = [&](unsigned i) { return D3((float)(V[i][0] * scale), (float)(V[i][1] * scale), (float)(V[i][2] * scale)); };
    bool bad = false; int keep[8], nk = 0; bool zero = false; for (int k = 0; k < nt; k++) { bool in = true; for (int c = 0; c < 3; c++) in = in && I[k][c] < (unsigned)nv; if (!in) { bad = true; continue; } D3 n = cross(at(I[k][1]) - at(I[k][0]), at(I[k][2]) - at(I[k][0])); if (dot(n, n) < 1e-8 * scale * scale * scale * scale) { sym_check(m.size() > 0, "a degenerate triangle is dropped without a message"); continue; } for (int c = 0; c < 3; c++) zero |= normals == 2 && I[k][c] == 4; keep[nk++] = k; }
    if (bad || nk == 0 || zero) { sym_check(t == nullptr, "an inconsistent triangle mesh is accepted"); sym_check(m.size() > 0, "refused without a message"); sym_reach("refused"); return; }
    sym_check(t != nullptr, "a valid triangle mesh is refused"); sym_check((int)t->getNbTriangles() == nk, "number of triangles"); D3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9); bool used[TV] = {}; int nused = 0;
    for (int k = 0; k < nk; k++) {
        Vector3 p[3], n[3]; unsigned v[3]; t->getTriangleVertices(k, p[0], p[1], p[2]); t->getTriangleVerticesNormals(k, n[0], n[1], n[2]); t->getTriangleVerticesIndices(k, v[0], v[1], v[2]);
        for (int c = 0; c < 3; c++) {
            unsigned i = I[keep[k]][c]; if (!used[i]) { used[i] = true; nused++; } D3 q = at(i); lo = D3(mind(lo.x, q.x), mind(lo.y, q.y), mind(lo.z, q.z)); hi = D3(maxd(hi.x, q.x), maxd(hi.y, q.y), maxd(hi.z, q.z)); sym_check((p[c].x == q.x) & (p[c].y == q.y) & (p[c].z == q.z), "a triangle has another vertex than the given one");
            sym_check(v[c] < t->getNbVertices(), "vertex index out of range"); sym_check(eq3(t->getVertex(v[c]), p[c]) && eq3(t->getVertexNormal(v[c]), n[c]), "vertex behind an index");
            if (normals) { sym_check((n[c].x == (i % 3 == 0)) & (n[c].y == (i % 3 == 1)) & (n[c].z == (i % 3 == 2)), "a vertex normal is not the given one"); continue; }
            D3 e(0, 0, 0); for (int g = 0; g < nk; g++) for (int d = 0; d < 3; d++) if (I[keep[g]][d] == i) { D3 a = at(I[keep[g]][(d + 1) % 3]) - q, b = at(I[keep[g]][(d + 2) % 3]) - q, w = cross(a, b); double cs = clampd(dot(a, b) / (len(a) * len(b)), -1, 1); e = e + w * (std::acos(cs) / len(w)); }
            D3 u(n[c]); sym_check(absd(len(u) - 1) < 1e-3, "a vertex normal is not a unit vector"); if (len(e) > 0.01) sym_check(neard(e * (1 / len(e)), u, 4e-3), "a vertex normal is not the average of the faces around it weighted by their angles");
        }
    }
    sym_check((int)t->getNbVertices() == nused, "unused vertices are kept or used ones lost"); sym_observe("triangles", t->getNbTriangles()); Vector3 bl = t->getBounds().getMin(), bh = t->getBounds().getMax(); sym_check((bl.x <= lo.x) & (bl.y <= lo.y) & (bl.z <= lo.z) & (bh.x >= hi.x) & (bh.y >= hi.y) & (bh.z >= hi.z), "bounds of a triangle mesh leave out a vertex"); sym_reach("accepted");
    ConcaveMeshShape* sh = W.pc.createConcaveMeshShape(t, Vector3(2, 1, 0.5f)); sym_check((int)sh->getNbTriangles() == nk && (int)sh->getNbVertices() == nused, "shape of the mesh");
}
static void loadTris(double V[][3], unsigned I[][3]) { for (int i = 0; i < TV; i++) for (int c = 0; c < 3; c++) V[i][c] = TVV[i][c]; for (int t = 0; t < 5; t++) for (int c = 0; c < 3; c++) I[t][c] = TII[t][c]; }
SYM_ENTRY(tri_index) { double V[TV][3]; unsigned I[8][3]; loadTris(V, I); int at = sym_pick("at", 0, 14), nt = sym_pick("nt", 1, 5); if (at / 3 >= nt) return; unsigned v = (unsigned)sym_range("v", 0, 9); I[at / 3][at % 3] = v == 9 ? 0xffffffffu : v; triangles(V, TV, I, nt, at % 2, 0, nt % 2, 0, 1); }
SYM_ENTRY(tri_two) { double V[TV][3]; unsigned I[8][3]; loadTris(V, I); int a = sym_pick("a", 0, 6), b = sym_pick("b", 0, 6), c = sym_pick("c", 0, 6), n = sym_pick("normals", 0, 2), shape = sym_pick("second", 0, 2); I[0][0] = a; I[0][1] = b; I[0][2] = c; int q = shape == 0 ? 0 : 1; if (shape == 1) { I[1][0] = a; I[1][1] = c; I[1][2] = b; } if (shape == 2) { I[1][0] = 6; I[1][1] = 4; I[1][2] = a; } triangles(V, TV, I, 1 + q, 0, 1, 0, n, shape == 1 ? 0.03125f : 1); }
SYM_ENTRY(tri_vertex) { double V[TV][3]; unsigned I[8][3]; loadTris(V, I); int w = sym_pick("which", 0, 6), nt = sym_pick("nt", 1, 5), vt = nt & 1, sc = nt % 3; int x = sym_int("x", -2, 5); int y = sym_int("y", -2, 5); int z = sym_int("z", -2, 5); V[w][0] = x; V[w][1] = y * 0.5; V[w][2] = z; triangles(V, TV, I, nt, vt, vt, vt, 0, sc == 0 ? 1 : sc == 1 ? 0.015625f : 64); }
SYM_ENTRY(tri_counts) { double V[TV][3]; unsigned I[8][3]; loadTris(V, I); int nv = sym_pick("nv", 0, 7), nt = sym_pick("nt", 0, 5), flat = sym_pick("flat", 0, 3); if (flat) for (int i = 0; i < TV; i++) for (int c = 0; c < 3; c++) V[i][c] = flat == 1 ? 0 : flat == 2 ? (c == 1 ? 3 : 0) : (c == 0 ? i : 0); triangles(V, nv, I, nt, 0, 0, 0, 0, 1); }
// height fields of any size and heights
SYM_ENTRY(height_fields) {
    int c = sym_pick("columns", -1, 4), r = sym_pick("rows", -1, 4), type = sym_pick("type", 0, 2), sc = sym_pick("scale", 0, 2); float scale = sc == 0 ? 1.0f : sc == 1 ? 0.5f : 2.0f; int wx = sym_pick("wx", 0, 3), wy = sym_pick("wy", 0, 3); int h = sym_int("h", -8, 7); int base = sym_int("base", -2, 1); float H[16]; double HD[16]; int HI[16]; if ((c < 2 || r < 2) && (wx || wy)) return;
    for (int i = 0; i < 16; i++) { int v = base + (i * 5) % 7 - 3; HI[i] = v; } if (c >= 2 && r >= 2) { if (wx >= c || wy >= r) return; HI[wy * c + wx] = h; } for (int i = 0; i < 16; i++) { H[i] = HI[i] * 0.5f; HD[i] = HI[i] * 0.5; }
    World W; std::vector<Message> m; HeightField* f = W.pc.createHeightField(c, r, type == 0 ? (void*)H : type == 1 ? (void*)HI : (void*)HD, type == 0 ? HeightField::HeightDataType::HEIGHT_FLOAT_TYPE : type == 1 ? HeightField::HeightDataType::HEIGHT_INT_TYPE : HeightField::HeightDataType::HEIGHT_DOUBLE_TYPE, m, scale);
    if (c < 2 || r < 2) { sym_check(f == nullptr && m.size() > 0, "a height field without cells is accepted, or refused without a message"); return; } sym_check(f != nullptr, "a valid height field is refused"); sym_check((int)f->getNbColumns() == c && (int)f->getNbRows() == r, "size of the height field"); float u = type == 1 ? scale : 0.5f; float mn = 1e9f, mx = -1e9f; for (int i = 0; i < c * r; i++) { float v = HI[i] * u; mn = v < mn ? v : mn; mx = v > mx ? v : mx; }
    sym_check((f->getMinHeight() == mn) & (f->getMaxHeight() == mx), "lowest and highest height"); sym_observe_f("low", f->getMinHeight()); for (int j = 0; j < r; j++) for (int i = 0; i < c; i++) { float v = HI[j * c + i] * u; sym_check(f->getHeightAt(i, j) == v, "height of a grid point"); Vector3 p = f->getVertexAt(i, j); sym_check(neard(D3(p), D3(i - (c - 1) * 0.5, v - (mn + mx) * 0.5, j - (r - 1) * 0.5), 1e-4), "vertex of a grid point"); Vector3 lo = f->getBounds().getMin(), hi = f->getBounds().getMax(); sym_check((p.x >= lo.x) & (p.x <= hi.x) & (p.y >= lo.y - 1e-4f) & (p.y <= hi.y + 1e-4f) & (p.z >= lo.z) & (p.z <= hi.z), "a vertex outside the bounds"); } sym_reach("field");
}
