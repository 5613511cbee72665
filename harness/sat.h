// Signed distances of spheres, capsules, polyhedra and triangles by separating axes and closest points, in double precision.
#pragma once
#include "shapes.h"
// ---- oracle: shape A at the origin, shape B at p, orientations fixed. The candidate axes depend on the orientations only; the position enters linearly.
struct Core { int nv = 0, np = 0, ne = 0, nf = 0; D3 v[16], n[16], e[32][2]; int f[16][5]; double r = 0; };
static inline Core core(const Solid& S, int shape, const Quaternion& q) {
    Core c; if (S.kind < 2) { c.r = S.r; c.nv = S.kind + 1; if (S.kind == 0) c.v[0] = D3(0, 0, 0); else { c.v[0] = rotd(q, D3(0, -S.h / 2, 0)); c.v[1] = rotd(q, D3(0, S.h / 2, 0)); c.ne = 1; c.e[0][0] = c.v[0]; c.e[0][1] = c.v[1]; } return c; }
    c.nv = S.nv; c.np = S.np; for (int i = 0; i < S.nv; i++) c.v[i] = rotd(q, S.v[i]); for (int i = 0; i < S.np; i++) c.n[i] = rotd(q, S.n[i]);
    c.nf = shape == 2 ? 6 : MESHES[shape - 3].nf; const int (*F)[4] = shape == 2 ? BOXF : MESHES[shape - 3].f; bool seen[16][16] = {};
    for (int i = 0; i < c.nf; i++) { int k = F[i][3] < 0 ? 3 : 4; c.f[i][4] = k; for (int j = 0; j < k; j++) { c.f[i][j] = F[i][j]; int a = F[i][j], b = F[i][(j + 1) % k]; if (!seen[a][b] && !seen[b][a]) { seen[a][b] = true; c.e[c.ne][0] = c.v[a]; c.e[c.ne][1] = c.v[b]; c.ne++; } } }
    return c;
}
struct Axes { int n = 0; D3 a[400]; double c[400];
    void add(const Core& A, const Core& B, D3 x) {
        double l = len(x); if (l < 1e-5) return; x = x * (1 / l); for (int i = 0; i < n; i++) if (dot(a[i], x) > 1 - 1e-9) return;
        double mx = -1e30, mn = 1e30; for (int i = 0; i < A.nv; i++) mx = maxd(mx, dot(x, A.v[i])); for (int i = 0; i < B.nv; i++) mn = mind(mn, dot(x, B.v[i])); a[n] = x; c[n++] = mn - mx; }
    Axes(const Core& A, const Core& B) {
        for (int i = 0; i < A.np; i++) add(A, B, A.n[i]); for (int i = 0; i < B.np; i++) add(A, B, B.n[i] * -1);
        for (int i = 0; i < A.ne; i++) for (int j = 0; j < B.ne; j++) { D3 x = cross(A.e[i][1] - A.e[i][0], B.e[j][1] - B.e[j][0]); add(A, B, x); add(A, B, x * -1); } }
    // positive: separated at least that much; negative: penetration depth of the cores
    double gap(const D3& p) const { double m = -1e30; for (int i = 0; i < n; i++) m = maxd(m, dot(a[i], p) + c[i]); return m; } };
// distance of the cores when one of them is a point or a segment and they do not penetrate
static inline double outside(const Core& P, const Core& R, const D3& p) {       // P polyhedron at the origin, R round core at p
    double d2 = 1e30; for (int i = 0; i < P.ne; i++) d2 = mind(d2, R.nv == 1 ? distPS2(R.v[0] + p, P.e[i][0], P.e[i][1]) : distSS2(R.v[0] + p, R.v[1] + p, P.e[i][0], P.e[i][1]));
    for (int i = 0; i < P.nf; i++) for (int k = 0; k < R.nv; k++) {
        D3 a = P.v[P.f[i][0]], x = R.v[k] + p; D3 nn = P.n[i]; bool in = true; for (int j = 0; j < P.f[i][4]; j++) { D3 u = P.v[P.f[i][j]], w = P.v[P.f[i][(j + 1) % P.f[i][4]]], m = cross(w - u, nn); D3 c(0, 0, 0); for (int t = 0; t < P.f[i][4]; t++) c = c + P.v[P.f[i][t]] * (1.0 / P.f[i][4]); double s = dot(m, c - u) > 0 ? -1 : 1; in &= dot(m, x - u) * s <= 0; }
        double h = dot(nn, x - a); if (in & (h >= 0)) d2 = mind(d2, h * h); }
    return std::sqrt(d2);
}
struct Oracle { Core A, B; Axes ax; bool roundA, roundB, capsule; Oracle(const Core& a, const Core& b) : A(a), B(b), ax(a, b) { roundA = A.np == 0; roundB = B.np == 0; capsule = A.ne == 1 || B.ne == 1; }
    double overlap(const D3& n, const D3& p) const { double mx = -1e30, mn = 1e30; for (int i = 0; i < A.nv; i++) mx = maxd(mx, dot(n, A.v[i])); for (int i = 0; i < B.nv; i++) mn = mind(mn, dot(n, B.v[i])); return mx - mn - dot(n, p) + A.r + B.r; }
    // signed distance of the two shapes: exact when positive for a round partner and when negative, a lower bound of the distance for two polyhedra
    double operator()(const D3& p) const { double g = ax.gap(p); if (roundA || roundB) { double d = roundB ? outside(A, B, p) : outside(B, A, p * -1); g = g > 0 ? d : mind(g, 0.0); } return g - A.r - B.r; } };
static inline Core coreOfTriangle(const D3* t, const Quaternion& q) {
    Core c; c.nv = 3; c.np = 2; c.ne = 3; c.nf = 2; for (int i = 0; i < 3; i++) c.v[i] = rotd(q, t[i]); for (int i = 0; i < 3; i++) { c.e[i][0] = c.v[i]; c.e[i][1] = c.v[(i + 1) % 3]; }
    D3 n = cross(c.v[1] - c.v[0], c.v[2] - c.v[0]); n = n * (1 / len(n)); c.n[0] = n; c.n[1] = n * -1; c.np = 5; for (int i = 0; i < 3; i++) { D3 m = cross(c.e[i][1] - c.e[i][0], n); c.n[2 + i] = m * (1 / len(m)); }   // (axes in the plane: needed for what lies in the plane of the triangle)
    for (int f = 0; f < 2; f++) { c.f[f][0] = 0; c.f[f][1] = f ? 2 : 1; c.f[f][2] = f ? 1 : 2; c.f[f][4] = 3; } return c;
}
