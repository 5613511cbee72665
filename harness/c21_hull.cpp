// C21: the convex hull of any points is refused with a message or encloses them: vertices are input points, nothing in front of a face.
#include "surfaces.h"
static const int MP = 28;
struct Cloud { int n = 0; double p[MP][3]; bool solid = true; void add(double x, double y, double z) { p[n][0] = x; p[n][1] = y; p[n][2] = z; n++; } };
static void base(Cloud& C, int k) {
    if (k == 0) { C.add(-2,-2,-2); C.add(2,-2,-1); C.add(0,2,-2); C.add(0,0,2); }
    if (k == 1 || k == 2 || k == 8) for (int i = 0; i < 8; i++) C.add(i & 1 ? 2 : -2, i & 2 ? 2 : -2, i & 4 ? 2 : -2);
    if (k == 2) for (int a = 0; a < 3; a++) for (int i = 0; i < 4; i++) { double q[3]; q[a] = 0; q[(a + 1) % 3] = i & 1 ? 2 : -2; q[(a + 2) % 3] = i & 2 ? 2 : -2; C.add(q[0], q[1], q[2]); }
    if (k == 8) for (int i = 0; i < 8; i += 3) C.add(C.p[i][0], C.p[i][1], C.p[i][2]);
    if (k == 3) for (int a = 0; a < 3; a++) for (int s = -1; s < 2; s += 2) { double q[3] = { 0, 0, 0 }; q[a] = 2.5 * s; C.add(q[0], q[1], q[2]); }
    if (k == 4) { C.solid = false; for (int i = 0; i < 9; i++) C.add(i % 3 - 1, 0, i / 3 - 1); }
    if (k == 5) { C.solid = false; for (int i = 0; i < 6; i++) C.add(i - 2, 2 * i - 3, 0.5 * i); }
    if (k == 6) { for (int i = 0; i < 9; i++) C.add(2 * (i % 3) - 2, -1, 2 * (i / 3) - 2); C.add(0, 2, 0); }
    if (k == 7) { static const int Q[12][3] = { {3,1,-2}, {-3,2,1}, {1,-3,2}, {0,3,3}, {2,-1,-3}, {-2,-2,-2}, {3,2,2}, {-1,3,-3}, {-3,-1,3}, {1,1,1}, {2,-3,-1}, {0,0,-1} }; for (auto& q : Q) C.add(q[0], q[1], q[2]); }
    if (k == 9) { C.solid = false; }
    if (k == 10) { for (int i = 0; i < 10; i++) { static const double c[10] = { 1, .8090169944, .3090169944, -.3090169944, -.8090169944, -1, -.8090169944, -.3090169944, .3090169944, .8090169944 }; static const double s[10] = { 0, .5877852523, .9510565163, .9510565163, .5877852523, 0, -.5877852523, -.9510565163, -.9510565163, -.5877852523 }; C.add(2 * c[i], -1, 2 * s[i]); C.add(2 * c[i], 1.5, 2 * s[i]); } }
    if (k >= 12 && k <= 15) { unsigned h = 12345u * k; for (int i = 0; i < (k == 12 ? 24 : 14); i++) { double q[3]; for (int a = 0; a < 3; a++) { h = h * 1664525u + 1013904223u; q[a] = ((int)(h >> 22) - 512) / 200.0; } if (k == 13) q[1] *= 0.001; if (k == 14) q[1] = q[1] < 0 ? -0.05 : 0.05; if (k == 15) { double l = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]); for (int a = 0; a < 3; a++) q[a] *= 2 / l; } C.add(q[0], q[1], q[2]); } }
    if (k == 16) for (int i = 0; i < 27; i++) C.add(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1);
    if (k == 17) { for (int i = 0; i < 8; i++) C.add(i & 1 ? 2 : -2, i & 2 ? 0.002 : -0.002, i & 4 ? 2 : -2); C.add(0.5, 0.002, 2.0); C.add(3, 0, 0); }
    if (k == 11) { for (int i = 0; i < 8; i++) { double q[3] = { i & 1 ? 2.0 : -2.0, i & 2 ? 0.5 : -0.5, i & 4 ? 1.0 : -1.0 }; C.add(q[0], q[1], q[2]); } C.add(2, 0, 0); C.add(-2, 0, 0); C.add(0, 0.5, 0); C.add(0, -0.5, 1); C.add(1, 0.5, 1); C.add(0.5, 0.5, -1); }
}
static void place(Cloud& C, int rot, double scale, int move) { Matrix3x3 R = rotq(rot).getMatrix(); for (int i = 0; i < C.n; i++) { double q[3]; for (int a = 0; a < 3; a++) q[a] = (double)R[a][0] * C.p[i][0] + (double)R[a][1] * C.p[i][1] + (double)R[a][2] * C.p[i][2]; for (int a = 0; a < 3; a++) C.p[i][a] = q[a] * scale + (move ? (a + 1) * 3.0 * scale : 0); } }
static void decide(Cloud& C, int fmt, bool mustAccept, bool mustRefuse) {
    static float vf[MP * 4]; static double vd[MP * 4]; int st = fmt == 2 ? 4 : 3; for (int i = 0; i < C.n; i++) for (int a = 0; a < 3; a++) { vf[st * i + a] = (float)C.p[i][a]; vd[st * i + a] = C.p[i][a]; }
    World W; std::vector<Message> m; VertexArray va(fmt == 1 ? (void*)vd : (void*)vf, st * (fmt == 1 ? 8 : 4), C.n, fmt == 1 ? VertexArray::DataType::VERTEX_DOUBLE_TYPE : VertexArray::DataType::VERTEX_FLOAT_TYPE); ConvexMesh* c = W.pc.createConvexMesh(va, m);
    if (c == nullptr) { sym_check(m.size() > 0, "refused without a message"); sym_check(!mustAccept, "points that enclose a volume are refused"); sym_reach("refused"); return; }
    sym_check(!mustRefuse, "a hull without volume is accepted"); sym_reach("hull"); sym_observe("vertices", c->getNbVertices()); sym_observe("faces", c->getNbFaces());
    auto at = [&](int i) { return D3((float)C.p[i][0], (float)C.p[i][1], (float)C.p[i][2]); };
    D3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9); for (int i = 0; i < C.n; i++) { D3 p = at(i); lo = D3(mind(lo.x, p.x), mind(lo.y, p.y), mind(lo.z, p.z)); hi = D3(maxd(hi.x, p.x), maxd(hi.y, p.y), maxd(hi.z, p.z)); }
    double size = maxd(hi.x - lo.x, maxd(hi.y - lo.y, hi.z - lo.z)), far = maxd(maxd(maxd(absd(lo.x), absd(hi.x)), maxd(absd(lo.y), absd(hi.y))), maxd(absd(lo.z), absd(hi.z))), tol = 1e-3 * size + 2e-5 * far;
    int nv = (int)c->getNbVertices(), nf = (int)c->getNbFaces(); D3 l2(1e9, 1e9, 1e9), h2(-1e9, -1e9, -1e9);
    for (int v = 0; v < nv; v++) { Vector3 q = c->getVertex(v); bool in = false; for (int i = 0; i < C.n; i++) { D3 p = at(i); in = in | ((q.x == p.x) & (q.y == p.y) & (q.z == p.z)); } sym_check(in, "a vertex of the hull is not one of the points"); l2 = D3(mind(l2.x, q.x), mind(l2.y, q.y), mind(l2.z, q.z)); h2 = D3(maxd(h2.x, q.x), maxd(h2.y, q.y), maxd(h2.z, q.z)); }
    sym_check(neard(lo, l2, tol) && neard(hi, h2, tol), "the hull does not reach the extreme points");
    const HalfEdgeStructure& h = c->getHalfEdgeStructure(); int ne = (int)h.getNbHalfEdges(), sum = 0; sym_check((int)h.getNbFaces() == nf && (int)h.getNbVertices() == nv, "numbers of the half-edge structure"); bool used[MP] = {};
    for (int f = 0; f < nf; f++) {
        const HalfEdgeStructure::Face& F = h.getFace(f); int n = (int)F.faceVertices.size(); sum += n; sym_check(n >= 3, "a face with fewer than three vertices"); D3 w(0, 0, 0), u(c->getFaceNormal(f)), p0(c->getVertex(F.faceVertices[0])); sym_check(absd(len(u) - 1) < 1e-3, "a face normal is not a unit vector");
        for (int i = 0; i < n; i++) { sym_check((int)F.faceVertices[i] < nv, "vertex of a face out of range"); used[F.faceVertices[i]] = true; D3 a(c->getVertex(F.faceVertices[i])), b(c->getVertex(F.faceVertices[(i + 1) % n])); w = w + cross(a - p0, b - p0); sym_check(absd(dot(a - p0, u)) <= tol, "a face is not flat"); }
        sym_check(dot(w, u) > 0, "the vertices of a face run the wrong way round"); for (int i = 0; i < C.n; i++) sym_check(dot(at(i) - p0, u) <= tol, "a point lies in front of a face");
        unsigned e = F.edgeIndex; for (int i = 0; i < n; i++) { sym_check((int)e < ne, "edge out of range"); const HalfEdgeStructure::Edge& E = h.getHalfEdge(e); sym_check((int)E.faceIndex == f, "an edge names another face"); const HalfEdgeStructure::Edge& T = h.getHalfEdge(E.twinEdgeIndex); sym_check(T.twinEdgeIndex == e && T.vertexIndex == h.getHalfEdge(E.nextEdgeIndex).vertexIndex, "twin edges do not agree"); e = E.nextEdgeIndex; } sym_check(e == F.edgeIndex, "edges of a face do not form a loop");
    }
    sym_check(sum == ne && nv + nf == ne / 2 + 2, "the hull is not a closed surface of one piece"); for (int v = 0; v < nv; v++) sym_check(used[v], "a vertex of the hull belongs to no face");
}
static const double SCALES[6] = { 1, 1.0 / 64, 1000, 0.01, 0.001, 30000 };
// one point anywhere on a grid in, on or around the others
SYM_ENTRY(point) {
    Cloud C; int k = sym_pick("cloud", 0, 11), first = sym_pick("first", 0, 1); int x = sym_int("x", -4, 3); int y = sym_int("y", -4, 3); int z = sym_int("z", RP_TIER ? -4 : -2, RP_TIER ? 3 : 1); if (first) C.add(x, y, z); base(C, k); if (!first) C.add(x, y, z);
    bool vol = k != 4 && k != 5 && k != 9; bool flat = k == 5 || k == 9 || (k == 4 && y == 0); decide(C, 0, vol, flat);
}
// the clouds themselves, turned, scaled, moved and in other formats, with one point left out
SYM_ENTRY(clouds) { Cloud C; int k = sym_pick("cloud", 0, 17), rot = sym_pick("rot", 0, 3), sc = sym_pick("scale", 0, 5), mv = sym_pick("move", 0, 1), fmt = (sc + rot) % 3; int out = (int)sym_range("without", 0, 15); out = (int)sym_concretize(out); base(C, k); if (out >= C.n + 1) return; if (out < C.n) { C.n--; for (int a = 0; a < 3; a++) C.p[out][a] = C.p[C.n][a]; } static const int R[4] = { 0, 4, 16, 17 }; place(C, R[rot], SCALES[sc], mv); bool vol = k != 4 && k != 5 && k != 9 && !(k == 0 && out < 4) && !(k == 6 && out == 9); decide(C, fmt, vol && (sc == 0 || sc == 2 || sc == 5), (k == 5 || k == 9 || (k == 0 && out < 4)) && rot < 2); }
// few points: 0 to 4 with symbolic coordinates for the last
SYM_ENTRY(few) { Cloud C; int n = sym_pick("n", 0, 4); static const double F[3][3] = { {0,0,0}, {2,0,0}, {0,0,2} }; for (int i = 0; i < n && i < 3; i++) C.add(F[i][0], F[i][1], F[i][2]); int y = 0; if (n == 4) { int x = sym_int("x", -4, 3); y = sym_int("y", -4, 3); int z = sym_int("z", -4, 3); C.add(x, y, z); } decide(C, 0, n == 4 && y != 0, n < 4 || y == 0); }
// two points at inexact coordinates, among, on and around others
SYM_ENTRY(pair) { Cloud C; int k = sym_pick("cloud", 0, RP_TIER ? 11 : 3); static const int B[4] = { 1, 3, 12, 2 }; int x = sym_int("x", -2, 1); int y = sym_int("y", -2, 1); int z = sym_int("z", RP_TIER ? -2 : -1, RP_TIER ? 1 : 0); int u = sym_int("u", -2, 1); int v = sym_int("v", RP_TIER ? -2 : -1, RP_TIER ? 1 : 0); int w = sym_int("w", RP_TIER ? -2 : -1, RP_TIER ? 1 : 0); C.add(1.3 * x, 1.4 * y + 0.7, 2.6 * z + 1.3); base(C, RP_TIER ? k : B[k]); C.add(2.1 * u, 2.2 * v + 1.1, 1.7 * w); decide(C, 0, C.solid && k != 9, false); }
