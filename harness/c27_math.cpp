// C27: vector, matrix, quaternion, transform algebra and helper functions against their definitions.
#include "kit.h"
#include <reactphysics3d/mathematics/mathematics_functions.h>
#include <reactphysics3d/mathematics/Matrix2x2.h>
static bool same(float a, float b) { return a == b; }
// ---- component-wise operations for every 32-bit float
SYM_ENTRY(vec3_order) {
    float a0 = sym_f32("a0"), a1 = sym_f32("a1"), a2 = sym_f32("a2"), b0 = sym_f32("b0"), b1 = sym_f32("b1"), b2 = sym_f32("b2");
    bool fin = std::isfinite(a0) & std::isfinite(a1) & std::isfinite(a2) & std::isfinite(b0) & std::isfinite(b1) & std::isfinite(b2);
    Vector3 a(a0, a1, a2), b(b0, b1, b2);
    sym_check(a.isFinite() == (std::isfinite(a0) & std::isfinite(a1) & std::isfinite(a2)), "Vector3::isFinite");
    sym_assume(fin);
    Vector3 mi = Vector3::min(a, b), ma = Vector3::max(a, b);
    sym_check(same(mi.x, a0 < b0 ? a0 : b0) & same(mi.y, a1 < b1 ? a1 : b1) & same(mi.z, a2 < b2 ? a2 : b2), "Vector3::min");
    sym_check(same(ma.x, a0 > b0 ? a0 : b0) & same(ma.y, a1 > b1 ? a1 : b1) & same(ma.z, a2 > b2 ? a2 : b2), "Vector3::max");
    bool eq = (a0 == b0) & (a1 == b1) & (a2 == b2); sym_check((a == b) == eq, "Vector3 =="); sym_check((a != b) == !eq, "Vector3 !=");
    bool lt = a0 == b0 ? (a1 == b1 ? a2 < b2 : a1 < b1) : a0 < b0; sym_check((a < b) == lt, "Vector3 <");
    Vector3 n = -a; sym_check(same(n.x, -a0) & same(n.y, -a1) & same(n.z, -a2), "Vector3 unary -");
    Vector3 ab = a.getAbsoluteVector(); sym_check(same(ab.x, a0 < 0 ? -a0 : a0) & same(ab.y, a1 < 0 ? -a1 : a1) & same(ab.z, a2 < 0 ? -a2 : a2), "getAbsoluteVector");
    sym_check((a[0] == a0) & (a[1] == a1) & (a[2] == a2), "operator[]");
}
SYM_ENTRY(vec3_extremes) {
    float a0 = sym_f32("a0"), a1 = sym_f32("a1"), a2 = sym_f32("a2"); sym_assume(std::isfinite(a0) & std::isfinite(a1) & std::isfinite(a2)); Vector3 a(a0, a1, a2);
    int i = a.getMinAxis(), j = a.getMaxAxis(); sym_check((i >= 0) & (i <= 2) & (j >= 0) & (j <= 2), "axis index");
    float vi = i == 0 ? a0 : i == 1 ? a1 : a2, vj = j == 0 ? a0 : j == 1 ? a1 : a2;
    sym_check((vi <= a0) & (vi <= a1) & (vi <= a2), "getMinAxis"); sym_check((vj >= a0) & (vj >= a1) & (vj >= a2), "getMaxAxis");
    float mi = a.getMinValue(), ma = a.getMaxValue(); sym_check(mi == vi, "getMinValue"); sym_check(ma == vj, "getMaxValue");
    sym_check(min3(a0, a1, a2) == vi, "min3"); sym_check(max3(a0, a1, a2) == vj, "max3");
}
SYM_ENTRY(vec2_order) {
    float a0 = sym_f32("a0"), a1 = sym_f32("a1"), b0 = sym_f32("b0"), b1 = sym_f32("b1"); Vector2 a(a0, a1), b(b0, b1);
    sym_check(a.isFinite() == (std::isfinite(a0) & std::isfinite(a1)), "Vector2::isFinite"); sym_assume(std::isfinite(a0) & std::isfinite(a1) & std::isfinite(b0) & std::isfinite(b1));
    Vector2 mi = Vector2::min(a, b), ma = Vector2::max(a, b), n = -a, ab = a.getAbsoluteVector();
    sym_check(same(mi.x, a0 < b0 ? a0 : b0) & same(mi.y, a1 < b1 ? a1 : b1), "Vector2::min"); sym_check(same(ma.x, a0 > b0 ? a0 : b0) & same(ma.y, a1 > b1 ? a1 : b1), "Vector2::max");
    bool eq = (a0 == b0) & (a1 == b1); sym_check((a == b) == eq, "Vector2 =="); sym_check((a != b) == !eq, "Vector2 !="); sym_check((a < b) == (a0 == b0 ? a1 < b1 : a0 < b0), "Vector2 <");
    sym_check(same(n.x, -a0) & same(n.y, -a1), "Vector2 unary -"); sym_check(same(ab.x, a0 < 0 ? -a0 : a0) & same(ab.y, a1 < 0 ? -a1 : a1), "Vector2::getAbsoluteVector");
    int i = a.getMinAxis(), j = a.getMaxAxis(); sym_check((i == 0 ? a0 <= a1 : a1 <= a0) & (i >= 0) & (i <= 1), "Vector2::getMinAxis"); sym_check((j == 0 ? a0 >= a1 : a1 >= a0) & (j >= 0) & (j <= 1), "Vector2::getMaxAxis");
}
SYM_ENTRY(scalars) {
    float v = sym_f32("v"), lo = sym_f32("lo"), hi = sym_f32("hi"); sym_assume(std::isfinite(v) & std::isfinite(lo) & std::isfinite(hi)); 
    sym_check(sameSign(v, lo) == !(((v > 0) & (lo < 0)) | ((v < 0) & (lo > 0))), "sameSign");
    sym_assume(lo <= hi); float c = clamp(v, lo, hi); sym_check(c == (v < lo ? lo : v > hi ? hi : v), "clamp(decimal)");
    int i = (int)sym_range("i", -2147483647 - 1, 2147483647), il = (int)sym_range("il", -2147483647 - 1, 2147483647), ih = (int)sym_range("ih", -2147483647 - 1, 2147483647); sym_assume(il <= ih);
    int ci = clamp(i, il, ih); sym_check(ci == (i < il ? il : i > ih ? ih : i), "clamp(int)");
}
SYM_ENTRY(powers) {
    uint64_t x = sym_bits("x", 64); bool p = isPowerOfTwo(x); int cnt = 0; for (int i = 0; i < 64; i++) cnt += (int)((x >> i) & 1); sym_check(p == (cnt == 1), "isPowerOfTwo");
    sym_assume((x >= 1) & (x <= (1ull << 63))); uint64_t n = nextPowerOfTwo64Bits(x); sym_check(n >= x, "nextPowerOfTwo64Bits: smaller than the number"); sym_check((n != 0) & ((n & (n - 1)) == 0), "nextPowerOfTwo64Bits: not a power of two"); sym_check((n >> 1) < x, "nextPowerOfTwo64Bits: not the next one");
}
// different (sorted) pairs get different numbers; decided exactly where the squares stay small enough for the solver
SYM_ENTRY(pairing) {
    uint32_t b = (uint32_t)sym_bits("b", 8), d = (uint32_t)sym_bits("d", 8); static const uint32_t BASE[4] = { 0, 255, 65530, 4294967040u };
    uint32_t a0 = BASE[sym_pick("ba", 0, 3)]; uint32_t a = a0 + (uint32_t)sym_range("a", 0, 15), c = a0 + (uint32_t)sym_range("c", 0, 15); sym_assume((b <= a) & (d <= c)); sym_assume((a != c) | (b != d));
    uint64_t p = pairNumbers(a, b), q = pairNumbers(c, d); sym_check(p != q, "pairNumbers gives two pairs the same number");
}
#define K(n, m) (float)sym_range(n, -(1 << (m - 1)), (1 << (m - 1)) - 1)
SYM_ENTRY(vec3_arith) {
    float x = K("x", 3), y = K("y", 3), z = K("z", 3), s = K("s", 2); static const float B[4][3] = { {1,2,-3}, {0.5f,-1,4}, {2,0,1}, {-1,-5,0.25f} }; int k = sym_pick("b", 0, 3); Vector3 a(x, y, z), b(B[k][0], B[k][1], B[k][2]);
    sym_check(eq3(a + b, Vector3(x + b.x, y + b.y, z + b.z)), "+"); sym_check(eq3(a - b, Vector3(x - b.x, y - b.y, z - b.z)), "-"); sym_check(eq3(a * s, Vector3(x * s, y * s, z * s)), "vector * number"); sym_check(eq3(s * a, Vector3(x * s, y * s, z * s)), "number * vector"); sym_check(eq3(a * b, Vector3(x * b.x, y * b.y, z * b.z)), "vector * vector");
    float d = s < 0 ? -s * 2 : s + 0.5f; sym_check(near3(a / d, Vector3(x / d, y / d, z / d), 1e-5f), "vector / number"); Vector3 db(b.x < 0 ? -b.x : b.x + 0.5f, d, b.z < 0 ? -b.z : b.z + 0.5f); sym_check(near3(a / db, Vector3(x / db.x, y / db.y, z / db.z), 1e-5f), "vector / vector");
    Vector3 c = a; c += b; sym_check(eq3(c, Vector3(x + b.x, y + b.y, z + b.z)), "+="); c = a; c -= b; sym_check(eq3(c, Vector3(x - b.x, y - b.y, z - b.z)), "-="); c = a; c *= s; sym_check(eq3(c, Vector3(x * s, y * s, z * s)), "*="); c = a; c /= d; sym_check(near3(c, Vector3(x / d, y / d, z / d), 1e-5f), "/=");
    sym_check(a.lengthSquare() == x * x + y * y + z * z, "lengthSquare"); double L = std::sqrt((double)x * x + (double)y * y + (double)z * z); sym_check(absd(a.length() - L) <= 1e-5, "length");
    Vector2 e(x, y), f(b.x, b.y); Vector2 r = e + f; sym_check((r.x == x + f.x) & (r.y == y + f.y), "Vector2 +"); r = e - f; sym_check((r.x == x - f.x) & (r.y == y - f.y), "Vector2 -"); r = e * s; sym_check((r.x == x * s) & (r.y == y * s), "Vector2 * number"); r = s * e; sym_check((r.x == x * s) & (r.y == y * s), "number * Vector2"); r = e * f; sym_check((r.x == x * f.x) & (r.y == y * f.y), "Vector2 * Vector2");
    r = e / d; sym_check(near1(r.x, x / d, 1e-5f) & near1(r.y, y / d, 1e-5f), "Vector2 / number"); r = e; r += f; sym_check((r.x == x + f.x) & (r.y == y + f.y), "Vector2 +="); r = e; r -= f; sym_check((r.x == x - f.x) & (r.y == y - f.y), "Vector2 -="); r = e; r *= s; sym_check((r.x == x * s) & (r.y == y * s), "Vector2 *=");
    sym_check(e.dot(f) == x * f.x + y * f.y, "Vector2::dot"); sym_check(absd(e.length() - std::sqrt((double)x * x + (double)y * y)) <= 1e-5, "Vector2::length"); sym_check(e.lengthSquare() == x * x + y * y, "Vector2::lengthSquare");
}
SYM_ENTRY(vec3_products) {        // bilinear in both vectors
    Vector3 a, b; a.x = K("ax", 2); a.y = K("ay", 2); a.z = K("az", 2); b.x = K("bx", 2); b.y = K("by", 2); b.z = K("bz", 2);
    sym_check(a.dot(b) == a.x * b.x + a.y * b.y + a.z * b.z, "dot"); Vector3 c = a.cross(b); sym_check((c.x == a.y * b.z - a.z * b.y) & (c.y == a.z * b.x - a.x * b.z) & (c.z == a.x * b.y - a.y * b.x), "cross");
    Matrix3x3 S = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(a); sym_check(eq3(S * b, c), "skew symmetric matrix is not the cross product");
    double la = (double)a.dot(a), lb = (double)b.dot(b), lc = (double)c.dot(c), dd = (double)a.dot(b); 
    if ((la > 0) & (lb > 0)) { sym_check(areOrthogonalVectors(a, b) == (dd == 0), "areOrthogonalVectors"); sym_check(areParallelVectors(a, b) == (lc == 0), "areParallelVectors"); }
}
SYM_ENTRY(vec_units) {
    int sh = sym_pick("scale", 0, 3); static const float SC[4] = { 1, 0.0009765625f, 4096, 0.3f }; float s = SC[sh]; Vector3 a; a.x = K("x", 4) * s; a.y = K("y", 4) * s; a.z = K("z", 4) * s; sym_assume((a.x != 0) | (a.y != 0) | (a.z != 0));
    double L = len(D3(a)); Vector3 u = a.getUnit(); sym_check(neard(D3(u), D3(a) * (1 / L), 1e-6), "getUnit"); Vector3 n = a; n.normalize(); sym_check(neard(D3(n), D3(a) * (1 / L), 1e-6), "normalize");
    Vector3 o = a.getOneUnitOrthogonalVector(); sym_check(absd(len(D3(o)) - 1) <= 1e-5, "orthogonal vector is not unit"); sym_check(absd(dot(D3(o), D3(a))) <= 1e-5 * L, "orthogonal vector is not orthogonal"); sym_check(u.isUnit() | (absd((double)u.lengthSquare() - 1) > 1e-7), "isUnit of a unit vector"); sym_check(!a.isUnit() | (absd(L - 1) < 1e-4), "isUnit of another vector");
    float ml = 2.5f * s; Vector3 c = clamp(a, ml); double f = L > ml ? ml / L : 1; sym_check(neard(D3(c), D3(a) * f, 1e-5 * (L + ml)), "clamp(vector)");
    if ((a.x != 0) | (a.y != 0)) { Vector2 e(a.x, a.y); double l2 = std::sqrt((double)e.x * e.x + (double)e.y * e.y); Vector2 v = e.getUnit(); sym_check((absd(v.x - e.x / l2) <= 1e-6) & (absd(v.y - e.y / l2) <= 1e-6), "Vector2::getUnit"); v = e; v.normalize(); sym_check((absd(v.x - e.x / l2) <= 1e-6) & (absd(v.y - e.y / l2) <= 1e-6), "Vector2::normalize"); v = e.getOneUnitOrthogonalVector(); sym_check((absd((double)v.x * e.x + (double)v.y * e.y) <= 1e-5 * l2) & (absd((double)v.x * v.x + (double)v.y * v.y - 1) <= 1e-5), "Vector2 orthogonal"); }
}
SYM_ENTRY(matrix3_linear) {       // multilinear in the entries: values 0/1 of all nine entries (offset and scaled) decide the polynomial identities
    int o = sym_pick("offset", 0, 2); static const float OF[3][9] = { {0,0,0,0,0,0,0,0,0}, {1,-2,3,0.5f,-1,2,4,1,-3}, {-1,2,0,3,1,-2,5,-4,2} }; float m[9]; for (int i = 0; i < 9; i++) m[i] = OF[o][i] + (float)sym_range("m", 0, 1);
    Matrix3x3 M(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) sym_check(M[r][c] == m[3 * r + c], "entry order");
    float det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); sym_check(M.getDeterminant() == det, "determinant"); sym_check(M.getTrace() == m[0] + m[4] + m[8], "trace");
    Matrix3x3 T = M.getTranspose(), A = M.getAbsoluteMatrix(), N = -M; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { sym_check(T[r][c] == m[3 * c + r], "transpose"); sym_check(A[r][c] == (m[3 * r + c] < 0 ? -m[3 * r + c] : m[3 * r + c]), "absolute matrix"); sym_check(N[r][c] == -m[3 * r + c], "unary minus"); sym_check(M.getRow(r)[c] == m[3 * r + c], "getRow"); sym_check(M.getColumn(c)[r] == m[3 * r + c], "getColumn"); }
    Vector3 v(2, -1, 3); sym_check(eq3(M * v, Vector3(2 * m[0] - m[1] + 3 * m[2], 2 * m[3] - m[4] + 3 * m[5], 2 * m[6] - m[7] + 3 * m[8])), "matrix * vector");
    Matrix3x3 B(1, 2, 0, -1, 3, 0.5f, 2, -2, 1); Matrix3x3 P = M * B, Q = M + B, R = M - B, S = M * 3.0f, U = 3.0f * M, X = M; X += B; Matrix3x3 Y = M; Y -= B; Matrix3x3 Z = M; Z *= 3.0f;
    for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { float e = m[3 * r + c]; sym_check(P[r][c] == m[3 * r] * B[0][c] + m[3 * r + 1] * B[1][c] + m[3 * r + 2] * B[2][c], "matrix * matrix"); sym_check(Q[r][c] == e + B[r][c], "matrix +"); sym_check(R[r][c] == e - B[r][c], "matrix -"); sym_check((S[r][c] == e * 3) & (U[r][c] == e * 3) & (Z[r][c] == e * 3), "matrix * number"); sym_check(X[r][c] == e + B[r][c], "matrix +="); sym_check(Y[r][c] == e - B[r][c], "matrix -="); }
    Matrix3x3 P2 = B * M; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) sym_check(P2[r][c] == B[r][0] * m[c] + B[r][1] * m[3 + c] + B[r][2] * m[6 + c], "matrix * matrix (right)");
    if (det != 0) { Matrix3x3 I = M.getInverse(), J = M.getInverse(det); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { double e = 0, f = 0; for (int k = 0; k < 3; k++) { e += (double)m[3 * r + k] * I[k][c]; f += (double)m[3 * r + k] * J[k][c]; } sym_check(absd(e - (r == c)) <= 1e-4, "matrix * inverse is not the identity"); sym_check(absd(f - (r == c)) <= 1e-4, "matrix * inverse(determinant) is not the identity"); } }
}
SYM_ENTRY(matrix2) {
    float a = K("a", 3), b = K("b", 3), c = K("c", 3), d = K("d", 3); Matrix2x2 M(a, b, c, d); sym_check((M[0][0] == a) & (M[0][1] == b) & (M[1][0] == c) & (M[1][1] == d), "2x2 entry order"); float det = a * d - b * c; sym_check(M.getDeterminant() == det, "2x2 determinant"); sym_check(M.getTrace() == a + d, "2x2 trace");
    Matrix2x2 T = M.getTranspose(); sym_check((T[0][0] == a) & (T[0][1] == c) & (T[1][0] == b) & (T[1][1] == d), "2x2 transpose"); Matrix2x2 A = M.getAbsoluteMatrix(); sym_check((A[0][0] == std::abs(a)) & (A[0][1] == std::abs(b)) & (A[1][0] == std::abs(c)) & (A[1][1] == std::abs(d)), "2x2 absolute");
    Vector2 v = M * Vector2(2, -3); sym_check((v.x == 2 * a - 3 * b) & (v.y == 2 * c - 3 * d), "2x2 * vector"); Matrix2x2 B(1, -2, 3, 0.5f), P = M * B, Q = B * M; sym_check((P[0][0] == a + 3 * b) & (P[0][1] == -2 * a + b / 2) & (P[1][0] == c + 3 * d) & (P[1][1] == -2 * c + d / 2), "2x2 product"); sym_check((Q[0][0] == a - 2 * c) & (Q[0][1] == b - 2 * d) & (Q[1][0] == 3 * a + c / 2) & (Q[1][1] == 3 * b + d / 2), "2x2 product (right)");
    Matrix2x2 S = M + B, D = M - B, E = M * 2.0f, F = 2.0f * M, N = -M; sym_check((S[0][0] == a + 1) & (S[0][1] == b - 2) & (S[1][0] == c + 3) & (S[1][1] == d + 0.5f), "2x2 +"); sym_check((D[0][0] == a - 1) & (D[0][1] == b + 2) & (D[1][0] == c - 3) & (D[1][1] == d - 0.5f), "2x2 -"); sym_check((E[0][0] == 2 * a) & (E[0][1] == 2 * b) & (E[1][0] == 2 * c) & (E[1][1] == 2 * d) & (F == E), "2x2 * number"); sym_check((N[0][0] == -a) & (N[0][1] == -b) & (N[1][0] == -c) & (N[1][1] == -d), "2x2 unary -");
    Vector2 col = M.getColumn(1), row = M.getRow(1); sym_check((col.x == b) & (col.y == d) & (row.x == c) & (row.y == d), "2x2 row/column");
    if (det != 0) { Matrix2x2 I = M.getInverse(), J = M.getInverse(det); sym_check((absd((double)a * I[0][0] + (double)b * I[1][0] - 1) <= 1e-5) & (absd((double)a * I[0][1] + (double)b * I[1][1]) <= 1e-5) & (absd((double)c * I[0][0] + (double)d * I[1][0]) <= 1e-5) & (absd((double)c * I[0][1] + (double)d * I[1][1] - 1) <= 1e-5), "2x2 inverse"); sym_check((absd(I[0][0] - J[0][0]) <= 1e-6) & (absd(I[0][1] - J[0][1]) <= 1e-6) & (absd(I[1][0] - J[1][0]) <= 1e-6) & (absd(I[1][1] - J[1][1]) <= 1e-6), "2x2 inverse(determinant)"); }
}
struct Q4 { double x, y, z, w; }; static Q4 qm(const Q4& a, const Q4& b) { Q4 r; r.x = a.w * b.x + b.w * a.x + a.y * b.z - a.z * b.y; r.y = a.w * b.y + b.w * a.y + a.z * b.x - a.x * b.z; r.z = a.w * b.z + b.w * a.z + a.x * b.y - a.y * b.x; r.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z; return r; }
static Q4 q4(const Quaternion& q) { Q4 r; r.x = q.x; r.y = q.y; r.z = q.z; r.w = q.w; return r; }
static bool nearq(const Quaternion& q, const Q4& r, double e) { return (absd(q.x - r.x) <= e) & (absd(q.y - r.y) <= e) & (absd(q.z - r.z) <= e) & (absd(q.w - r.w) <= e); }
SYM_ENTRY(quat_product) {         // bilinear
    Quaternion a, b; a.x = K("ax", 1); a.y = K("ay", 1); a.z = K("az", 1); a.w = K("aw", 1); b.x = K("bx", 1); b.y = K("by", 1); b.z = K("bz", 1); b.w = K("bw", 1); int o = sym_pick("o", 0, 1); if (o) { a = a + Quaternion(2, -1, 3, 0.5f); b = b - Quaternion(1, 4, -2, -3); }
    Q4 e = qm(q4(a), q4(b)); sym_check(nearq(a * b, e, 0), "quaternion product"); sym_check(a.dot(b) == a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w, "quaternion dot"); Quaternion s = a + b, d = a - b, t = a; sym_check((s.x == a.x + b.x) & (s.y == a.y + b.y) & (s.z == a.z + b.z) & (s.w == a.w + b.w), "quaternion +"); sym_check((d.x == a.x - b.x) & (d.y == a.y - b.y) & (d.z == a.z - b.z) & (d.w == a.w - b.w), "quaternion -"); t += b; sym_check(t == s, "quaternion +="); t = a; t -= b; sym_check(t == d, "quaternion -=");
    Quaternion m = a * 3.0f; sym_check((m.x == 3 * a.x) & (m.y == 3 * a.y) & (m.z == 3 * a.z) & (m.w == 3 * a.w), "quaternion * number"); Quaternion c = a.getConjugate(); sym_check((c.x == -a.x) & (c.y == -a.y) & (c.z == -a.z) & (c.w == a.w), "conjugate"); sym_check((a == b) == ((a.x == b.x) & (a.y == b.y) & (a.z == b.z) & (a.w == b.w)), "quaternion =="); sym_check(a.lengthSquare() == a.dot(a), "quaternion lengthSquare"); sym_check(absd(a.length() - std::sqrt((double)a.dot(a))) < 1e-5, "quaternion length");
}
// q = normalised integer quaternion (4 x 3 bits)
static Quaternion symq(int bits) { Quaternion q; q.x = K("qx", bits); q.y = K("qy", bits); q.z = K("qz", bits); q.w = K("qw", bits); sym_assume((q.x != 0) | (q.y != 0) | (q.z != 0) | (q.w != 0)); q.normalize(); return q; }
SYM_ENTRY(quat_rotation) {
    Quaternion q = symq(3); sym_check(q.isUnit() & q.isValid(), "normalised quaternion is not unit"); sym_check(absd(len(D3(q.x, q.y, q.z)) * len(D3(q.x, q.y, q.z)) + (double)q.w * q.w - 1) < 1e-6, "normalize"); static const float P[3][3] = { {1,0,0}, {0,2,-1}, {3,-1,0.5f} }; int k = sym_pick("p", 0, 2); Vector3 p(P[k][0], P[k][1], P[k][2]);
    D3 r = rotd(q, D3(p)); sym_check(neard(D3(q * p), r, 1e-5), "quaternion * vector"); Matrix3x3 M = q.getMatrix(); sym_check(neard(D3(M * p), r, 1e-5), "rotation matrix of a quaternion"); sym_check(neard(D3(q.getInverse() * (q * p)), D3(p), 1e-5), "inverse rotation"); Quaternion iq = q; iq.inverse(); sym_check(neard(D3(iq * (q * p)), D3(p), 1e-5), "inverse()");
    Quaternion back(M); Q4 e = q4(q); double s = (double)back.x * e.x + (double)back.y * e.y + (double)back.z * e.z + (double)back.w * e.w; sym_check(absd(absd(s) - 1) < 1e-5, "quaternion of a rotation matrix is another rotation"); sym_check(nearq(back, q4(s < 0 ? Quaternion(-q.x, -q.y, -q.z, -q.w) : q), 1e-4), "quaternion of a rotation matrix");
    Quaternion i = q * q.getInverse(); Q4 id; id.x = id.y = id.z = 0; id.w = 1; sym_check(nearq(i, id, 1e-5), "q * inverse(q)"); Quaternion u = (q * 3.0f).getUnit(); sym_check(nearq(u, e, 1e-5), "quaternion getUnit");
}
SYM_ENTRY(quat_angle_axis) {
    Quaternion q = symq(3); float ang; Vector3 ax; q.getRotationAngleAxis(ang, ax); sym_check(std::isfinite(ang), "rotation angle of a unit quaternion is not finite"); double h = ang / 2.0; double vl = len(D3(q.x, q.y, q.z)); sym_check((absd(std::cos(h) - q.w) < 1e-4) & (absd(absd(std::sin(h)) - vl) < 2e-3), "rotation angle"); if (vl > 1e-3) sym_check(neard(D3(ax) * vl, D3(q.x, q.y, q.z), 1e-5), "rotation axis");
}
SYM_ENTRY(quat_slerp_euler) {
    static const int A[4] = { 0, 4, 16, 13 }; Quaternion a = rotq(A[sym_pick("a", 0, 3)]), b = rotq(sym_pick("b", 0, 19)); float t = sym_grid("t", 0, 16, 4); Quaternion s = Quaternion::slerp(a, b, t); double c = (double)a.x * b.x + (double)a.y * b.y + (double)a.z * b.z + (double)a.w * b.w, sg = c < 0 ? -1 : 1; double th = std::acos(mind(c * sg, 1.0)), ca, cb; if (th < 4e-3) { ca = 1 - t; cb = t; } else { ca = std::sin((1 - t) * th) / std::sin(th); cb = std::sin(t * th) / std::sin(th); }
    Q4 e; e.x = ca * a.x + sg * cb * b.x; e.y = ca * a.y + sg * cb * b.y; e.z = ca * a.z + sg * cb * b.z; e.w = ca * a.w + sg * cb * b.w; sym_check(nearq(s, e, 2e-5) | (absd(c) < 1e-6), "slerp"); sym_check(absd(s.length() - 1) < 1e-4, "slerp result is not unit");
    Transform x(Vector3(1, 2, 3), a), y(Vector3(-3, 0, 5), b), z = Transform::interpolateTransforms(x, y, t); sym_check(near3(z.getPosition(), Vector3(1 - 4 * t, 2 - 2 * t, 3 + 2 * t), 1e-5f), "interpolated position"); sym_check(nearq(z.getOrientation(), q4(s), 1e-6), "interpolated orientation");
}
SYM_ENTRY(quat_euler) {
    double ax, ay, az; float fx = sym_grid("x", -8, 7, 1), fy = sym_grid("y", -8, 7, 1), fz = sym_grid("z", -8, 7, 1); ax = fx / 2.0; ay = fy / 2.0; az = fz / 2.0; Quaternion q = sym_pick("f", 0, 1) ? Quaternion::fromEulerAngles(Vector3(fx, fy, fz)) : Quaternion::fromEulerAngles(fx, fy, fz);
    Q4 X, Y, Z; X.x = std::sin(ax); X.y = X.z = 0; X.w = std::cos(ax); Y.y = std::sin(ay); Y.x = Y.z = 0; Y.w = std::cos(ay); Z.z = std::sin(az); Z.x = Z.y = 0; Z.w = std::cos(az); Q4 e = qm(Z, qm(Y, X)); sym_check(nearq(q, e, 1e-5), "quaternion of Euler angles is not rotation X then Y then Z");
}
SYM_ENTRY(transforms) {
    Quaternion q = symq(2); static const int B[4] = { 4, 16, 12, 0 }; int k = sym_pick("b", 0, 3); Transform a(Vector3(1, -2, 0.5f), q), b(Vector3(-3, 0.25f, 2), rotq(B[k])); static const float P[2][3] = { {1,0,-2}, {0.5f,3,-1} }; int pk = sym_pick("p", 0, 1); Vector3 p(P[pk][0], P[pk][1], P[pk][2]); bool sw = sym_pick("swap", 0, 1); if (sw) { Transform t = a; a = b; b = t; }
    D3 e = rotd(a.getOrientation(), rotd(b.getOrientation(), D3(p)) + D3(b.getPosition())) + D3(a.getPosition()); Transform c = a * b; sym_check(neard(D3(c * p), e, 2e-5), "composition of transforms"); sym_check(neard(D3(a * (b * p)), e, 2e-5), "transform * vector"); sym_check(nearq(c.getOrientation(), qm(q4(a.getOrientation()), q4(b.getOrientation())), 1e-5), "orientation of a composition");
    Transform i = a * a.getInverse(), j = a.getInverse() * a; Q4 id; id.x = id.y = id.z = 0; id.w = 1; sym_check(neard(D3(i.getPosition()), D3(0, 0, 0), 1e-5) & nearq(i.getOrientation(), id, 1e-5), "transform * inverse"); sym_check(neard(D3(j.getPosition()), D3(0, 0, 0), 1e-5) & nearq(j.getOrientation(), id, 1e-5), "inverse * transform"); sym_check(neard(D3(a.getInverse() * (a * p)), D3(p), 1e-5), "inverse undoes the transform");
    float m[16]; a.getOpenGLMatrix(m); D3 g(m[0] * (double)p.x + m[4] * (double)p.y + m[8] * (double)p.z + m[12], m[1] * (double)p.x + m[5] * (double)p.y + m[9] * (double)p.z + m[13], m[2] * (double)p.x + m[6] * (double)p.y + m[10] * (double)p.z + m[14]); sym_check(neard(g, D3(a * p), 2e-5), "OpenGL matrix"); sym_check((m[3] == 0) & (m[7] == 0) & (m[11] == 0) & (m[15] == 1), "OpenGL matrix last row"); Transform o; o.setFromOpenGL(m); sym_check(neard(D3(o * p), D3(a * p), 1e-4), "setFromOpenGL"); Transform mt(a.getPosition(), a.getOrientation().getMatrix()); sym_check(neard(D3(mt * p), D3(a * p), 1e-4), "transform from matrix");
    Transform z; sym_check(eq3(z * p, p) & eq3(Transform::identity() * p, p), "identity"); Transform a2 = a; sym_check((a2 == a) & !(a2 != a), "transform =="); a2.setPosition(Vector3(1, -2, 0.75f)); sym_check((a2 != a) & !(a2 == a), "transform == ignores the position"); a2.setToIdentity(); sym_check(a2 == z, "setToIdentity"); sym_check(a.isValid(), "isValid");
}
// ---- helper functions
#define P3(n, b) Vector3 n; n.x = K(#n, b); n.y = K(#n, b); n.z = K(#n, b)
SYM_ENTRY(closest_on_segment) {
    int z = sym_pick("scale", 0, 2); float s = z == 0 ? 1 : z == 1 ? 1.0f / 4096 : 64; static const float B[5][3] = { {2,0,0}, {1,1,-1}, {0,-3,2}, {0.5f,0.25f,2}, {0,0,0} }; int k = sym_pick("b", 0, 4); P3(p, 4); Vector3 a(1, -2, 1); Vector3 b = a + Vector3(B[k][0], B[k][1], B[k][2]); a *= s; b *= s; p *= s;
    Vector3 c = computeClosestPointOnSegment(a, b, p); double d2 = distPS2(D3(p), D3(a), D3(b)), m = len(D3(p) - D3(c)); sym_check(absd(m - std::sqrt(d2)) <= 2e-5 * s, "closest point on segment is not the closest"); sym_check(distPS2(D3(c), D3(a), D3(b)) <= 1e-9 * s * s, "closest point is not on the segment");
    if (k < 4) { D3 ab = D3(b) - D3(a), ap = D3(p) - D3(a); double t = dot(ab, ap) / dot(ab, ab); D3 f = ap - ab * t; sym_check(absd(computePointToLineDistance(a, b, p) - len(f)) <= 2e-5 * s, "point to line distance"); }
}
SYM_ENTRY(closest_segments) {
    int z = sym_pick("scale", 0, 1); float s = z == 0 ? 1 : 1.0f / 1024; static const float D[7][3] = { {2,0,0}, {1,1,-1}, {0,-3,2}, {0.5f,0.25f,2}, {0,0,0}, {-1,-1,1}, {4,0,0.5f} }; int i = sym_pick("d1", 0, 6), j = sym_pick("d2", 0, 6); P3(p, 4); Vector3 a(1, -1, 0), b = a + Vector3(D[i][0], D[i][1], D[i][2]), q = p + Vector3(D[j][0], D[j][1], D[j][2]); a *= s; b *= s; p *= s; q *= s; Vector3 c1, c2;
    computeClosestPointBetweenTwoSegments(a, b, p, q, c1, c2); double d = std::sqrt(distSS2(D3(a), D3(b), D3(p), D3(q))); sym_check(absd(len(D3(c1) - D3(c2)) - d) <= 5e-5 * s, "closest points of two segments are not the closest"); sym_check((distPS2(D3(c1), D3(a), D3(b)) <= 1e-9 * s * s) & (distPS2(D3(c2), D3(p), D3(q)) <= 1e-9 * s * s), "closest points are not on the segments");
}
SYM_ENTRY(barycentric_plane) {
    static const float T[3][9] = { {0,0,0, 2,0,0, 0,2,0}, {1,-1,2, 3,0,1, -1,2,0}, {0.5f,0,0, 0,4,1, 0,0,-3} }; int k = sym_pick("t", 0, 2); Vector3 a(T[k][0], T[k][1], T[k][2]), b(T[k][3], T[k][4], T[k][5]), c(T[k][6], T[k][7], T[k][8]); float v = sym_grid("v", -8, 7, 2), w = sym_grid("w", -8, 7, 2), u = 1 - v - w; Vector3 p = u * a + v * b + w * c; float U, V, W; computeBarycentricCoordinatesInTriangle(a, b, c, p, U, V, W); sym_check(near1(U, u, 2e-5f) & near1(V, v, 2e-5f) & near1(W, w, 2e-5f), "barycentric coordinates");
    Vector3 n = (b - a).cross(c - a).getUnit(); float h = sym_grid("h", -8, 7, 2); Vector3 q = p + h * n; sym_check(near1(computePointToPlaneDistance(q, n, a), h, 2e-5f), "point to plane distance"); sym_check(near3(projectPointOntoPlane(q, n, a), p, 5e-5f), "projection onto the plane");
    Vector3 r = p - 2 * n; float t = computePlaneSegmentIntersection(q, r, n.dot(a), n); double e = h / (h + 2.0); if (absd(h + 2) > 0.01) sym_check(absd(t - e) <= 1e-4 * (1 + absd(e)), "plane segment intersection"); Vector3 r2 = q + (b - a); t = computePlaneSegmentIntersection(q, r2, n.dot(a), n); sym_check(!((t >= 0) & (t <= 1)) | (absd(h) < 1e-4), "segment parallel to a plane meets it");
}
// clipping a segment with the four side planes of a box: what is left is the part inside all planes
SYM_ENTRY(clip_segment) {
    DefaultAllocator al; int z = sym_pick("scale", 0, 2); float s = z == 1 ? 1.0f / 256 : z == 2 ? 1.0f / 16384 : 1; P3(a, 3); static const float D[6][3] = { {4,0,0}, {0,4,0}, {3,2,1}, {-4,1,2}, {0.5f,0.25f,0}, {2,-5,0} }; int k = sym_pick("d", 0, 5); Vector3 b = a + Vector3(D[k][0], D[k][1], D[k][2]); a *= s; b *= s;
    Array<Vector3> pp(al), pn(al); static const float N[4][3] = { {1,0,0}, {-1,0,0}, {0,1,0}, {0,-1,0} }; static const float O[4] = { -1.5f, -1.5f, -1.5f, -2.5f }; for (int i = 0; i < 4; i++) { Vector3 n(N[i][0], N[i][1], N[i][2]); pn.add(n); pp.add(n * (O[i] * s)); }
    Array<Vector3> r = clipSegmentWithPlanes(a, b, pp, pn, al); double t0 = 0, t1 = 1; D3 A(a), B(b); for (int i = 0; i < 4; i++) { D3 n(N[i][0], N[i][1], N[i][2]); double da = dot(n, A) - O[i] * s, db = dot(n, B) - O[i] * s; if (da < 0) t0 = db > da ? maxd(t0, da / (da - db)) : 2; if (db < 0) t1 = da > db ? mind(t1, da / (da - db)) : -1; }
    sym_check((r.size() == 0) | (r.size() == 2), "clipped segment does not have two end points"); double L = len(B - A), tol = z == 2 ? 1.05 * L : 1e-4 * L; if (t1 - t0 > 1e-4) { sym_check(r.size() == 2, "segment inside the planes is clipped away"); if (r.size() == 2) sym_check(neard(D3(r[0]), A + (B - A) * t0, tol) & neard(D3(r[1]), A + (B - A) * t1, tol), "clipped segment"); } else if (t1 - t0 < -1e-4) { sym_check(r.size() == 0 || len(D3(r[0]) - D3(r[1])) < 1e-3 * L + tol, "segment outside a plane is not clipped away"); }
    sym_observe("n", r.size());
}
// clipping a convex polygon with one plane
SYM_ENTRY(clip_polygon) {
    DefaultAllocator al; int z = sym_pick("scale", 0, 1); float s = z ? 1.0f / 256 : 1; static const float N[5][3] = { {1,0,0}, {0,1,0}, {-1,0,0}, {0.6f,0.8f,0}, {-0.8f,0,0.6f} }; int k = sym_pick("n", 0, 4); Vector3 n(N[k][0], N[k][1], N[k][2]); Array<Vector3> in(al), out(al); static const float V[5][3] = { {-2,-1,0}, {1,-2,0}, {2,1,0}, {0,2,0}, {-2,1,0} }; int nv = 3 + sym_pick("nv", 0, 2); for (int i = 0; i < nv; i++) in.add(Vector3(V[i][0], V[i][1], V[i][2]) * s); float d = sym_grid("d", -64, 63, 4) * s; Vector3 o; o.x = K("o", 2); o.y = K("o", 2); o.z = 0; Vector3 pt = n * (d - n.dot(o)) + o; pt = n * d;
    clipPolygonWithPlane(in, pt, n, out); double area = 0, ea = 0; bool ok = true; for (uint32_t i = 0; i < out.size(); i++) { ok = ok & (dot(D3(n), D3(out[i]) - D3(pt)) >= -1e-4 * s); } sym_check(ok, "clipped polygon has a vertex behind the plane");
    // area of what is left against exact clipping in double precision
    D3 ex[12]; int ne = 0; for (int i = 0; i < nv; i++) { D3 a(in[i]), b(in[(i + 1) % nv]); double da = dot(D3(n), a) - dot(D3(n), D3(pt)), db = dot(D3(n), b) - dot(D3(n), D3(pt)); if (da >= 0) ex[ne++] = a; if ((da >= 0) != (db >= 0)) ex[ne++] = a + (b - a) * (da / (da - db)); }
    D3 sa(0, 0, 0), se(0, 0, 0); for (uint32_t i = 1; i + 1 < out.size(); i++) sa = sa + cross(D3(out[i]) - D3(out[0]), D3(out[i + 1]) - D3(out[0])); for (int i = 1; i + 1 < ne; i++) se = se + cross(ex[i] - ex[0], ex[i + 1] - ex[0]); area = sa.z / 2; ea = se.z / 2; sym_check(absd(area - ea) <= 1e-3 * s * s, "area of the clipped polygon"); sym_observe("n", out.size());
}
// equality of matrices, quaternions and transforms: all entries, no others; any floats
SYM_ENTRY(equality) {
    int kind = sym_pick("kind", 0, 3), n = kind == 0 ? 9 : kind == 1 ? 4 : kind == 2 ? 4 : 7; float a[9], b[9]; bool all = true; for (int i = 0; i < n; i++) { a[i] = sym_f32("a"); b[i] = sym_f32("b"); all &= a[i] == b[i]; } bool eq, ne;
    if (kind == 0) { Matrix3x3 x(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]), y(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]); eq = x == y; ne = x != y; } else if (kind == 1) { Matrix2x2 x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]); eq = x == y; ne = x != y; }
    else if (kind == 2) { Quaternion x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]); eq = x == y; ne = !eq; } else { Transform x(Vector3(a[0], a[1], a[2]), Quaternion(a[3], a[4], a[5], a[6])), y(Vector3(b[0], b[1], b[2]), Quaternion(b[3], b[4], b[5], b[6])); eq = x == y; ne = x != y; }
    sym_check(eq == all, "equality is not equality of all entries"); sym_check(ne == !all, "inequality is not the opposite of equality"); sym_reach("end");
}
