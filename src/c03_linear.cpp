#include <reactphysics3d/reactphysics3d.h>
#include <cmath>
#include "pbt.h"
using namespace reactphysics3d;
using pbt::Case;
typedef long double LD;
static const LD E = sizeof(decimal) == 8 ? 1e-12L : 1e-5L;   // relative rounding allowance
struct V { LD a[3]; LD& operator[](int i) { return a[i]; } LD operator[](int i) const { return a[i]; } };
struct M { LD m[3][3]; };
static V v(const Vector3& x) { return {{x.x, x.y, x.z}}; }
static M mat(const Matrix3x3& x) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = x[i][j]; return r; }
static V mul(const M& m, const V& x) { V r{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i] += m.m[i][j] * x[j]; return r; }
static M mul(const M& a, const M& b) { M r{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; return r; }
static M tr(const M& a) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a.m[j][i]; return r; }
static V cr(const V& a, const V& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static LD dt(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static LD len(const V& a) { return std::sqrt(dt(a, a)); }
static V axpy(const V& a, LD s, const V& b) { return {{a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]}}; }
// rotation matrix by Rodrigues' formula
static M rod(const V& u, LD ang) { LD c = std::cos(ang), s = std::sin(ang), t = 1 - c; return {{{t * u[0] * u[0] + c, t * u[0] * u[1] - s * u[2], t * u[0] * u[2] + s * u[1]}, {t * u[0] * u[1] + s * u[2], t * u[1] * u[1] + c, t * u[1] * u[2] - s * u[0]}, {t * u[0] * u[2] - s * u[1], t * u[1] * u[2] + s * u[0], t * u[2] * u[2] + c}}}; }
static LD maxAbs(const M& a) { LD x = 0; for (auto& r : a.m) for (LD e : r) x = std::max(x, std::fabs(e)); return x; }
static void near(Case& c, LD got, LD want, LD scale, const char* what) { c.check(std::isfinite(static_cast<double>(got)) && std::fabs(got - want) <= E * (scale + std::fabs(want)) + 1e-300L, "%s: got %.17Lg, expected %.17Lg (scale %.3Lg)", what, got, want, scale); }
static void near(Case& c, const V& got, const V& want, LD scale, const char* what) { for (int i = 0; i < 3; i++) near(c, got[i], want[i], scale, what); }
static void near(Case& c, const M& got, const M& want, LD scale, const char* what) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near(c, got.m[i][j], want.m[i][j], scale, what); }

static decimal num(Case& c) { switch (c.weighted({6, 2, 2, 1})) { case 0: return static_cast<decimal>(c.real(-10, 10)); case 1: return static_cast<decimal>(c.logReal(1e-3, 1e4) * (c.chance(0.5) ? -1 : 1)); case 2: return static_cast<decimal>(c.intIn(-3, 3)); default: return 0; } }
static Vector3 vec(Case& c) { return Vector3(num(c), num(c), num(c)); }
static Matrix3x3 matrix(Case& c) { return Matrix3x3(num(c), num(c), num(c), num(c), num(c), num(c), num(c), num(c), num(c)); }
// unit axis; sometimes an exact axis, a diagonal, or close to one
static V axis(Case& c) {
    V u{}; int k = c.weighted({6, 2, 2, 2});
    if (k == 0) { do { for (int i = 0; i < 3; i++) u[i] = c.unif(-1, 1); if (len(u) < 0.05L) { u[0] = 1; } } while (false); }
    else if (k == 1) u[c.draw(2)] = c.chance(0.5) ? -1 : 1;
    else if (k == 2) { int z = static_cast<int>(c.draw(2)); for (int i = 0; i < 3; i++) if (i != z || c.chance(0.3)) u[i] = c.chance(0.5) ? -1 : 1; }
    else { u[c.draw(2)] = 1; for (int i = 0; i < 3; i++) u[i] += c.unif(-1e-4, 1e-4); }
    LD l = len(u); if (l == 0) { u[0] = 1; l = 1; } for (auto& e : u.a) e /= l; return u;
}
static LD angle(Case& c) {
    const LD PI = 3.14159265358979323846L; switch (c.weighted({6, 2, 2, 1, 1})) { case 0: return c.unif(-3.14159, 3.14159); case 1: return PI - c.logReal(1e-9, 1e-1); case 2: return c.logReal(1e-9, 1e-1); case 3: return PI * c.intIn(-4, 4) / 4; default: return PI * c.intIn(-3, 3) / 3; } }
static Quaternion quat(Case& c, V& u, LD& a) {
    u = axis(c); a = angle(c); LD s = std::sin(a / 2);
    Quaternion q(static_cast<decimal>(u[0] * s), static_cast<decimal>(u[1] * s), static_cast<decimal>(u[2] * s), static_cast<decimal>(std::cos(a / 2))); q.normalize(); if (c.chance(0.3)) q = Quaternion(-q.x, -q.y, -q.z, -q.w); return q; }
static Quaternion quat(Case& c) { V u; LD a; return quat(c, u, a); }
// rotation matrix of a quaternion, from sandwich product expanded independently
static M qm(const Quaternion& q) { LD x = q.x, y = q.y, z = q.z, w = q.w, n = x * x + y * y + z * z + w * w; return {{{(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n}, {2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - w * x) / n}, {2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n}}}; }

PBT_PROP(vectors, 4000000, 40000000, "pairs of vectors of mixed magnitude; non-trivial: both non-zero and not parallel") {
    Vector3 a = vec(c), b = vec(c); decimal s = num(c); V x = v(a), y = v(b); LD sc = len(x) * len(y);
    c.note("a=(%.17g,%.17g,%.17g) b=(%.17g,%.17g,%.17g) s=%.17g", (double)a.x, (double)a.y, (double)a.z, (double)b.x, (double)b.y, (double)b.z, (double)s);
    near(c, a.dot(b), dt(x, y), sc, "dot"); near(c, v(a.cross(b)), cr(x, y), sc, "cross"); near(c, a.length(), len(x), 0, "length"); near(c, a.lengthSquare(), dt(x, x), 0, "lengthSquare");
    near(c, v(a + b), axpy(x, 1, y), len(x) + len(y), "a+b"); near(c, v(a - b), axpy(x, -1, y), len(x) + len(y), "a-b"); near(c, v(-a), axpy(V{}, -1, x), 0, "-a"); near(c, v(a * s), axpy(V{}, s, x), 0, "a*s"); near(c, v(s * a), axpy(V{}, s, x), 0, "s*a");
    Vector3 t = a; t += b; near(c, v(t), axpy(x, 1, y), len(x) + len(y), "+="); t = a; t -= b; near(c, v(t), axpy(x, -1, y), len(x) + len(y), "-="); t = a; t *= s; near(c, v(t), axpy(V{}, s, x), 0, "*=");
    if (s > decimal(1e-3)) { near(c, v(a / s), axpy(V{}, 1 / static_cast<LD>(s), x), 0, "a/s"); t = a; t /= s; near(c, v(t), axpy(V{}, 1 / static_cast<LD>(s), x), 0, "/="); }
    for (int i = 0; i < 3; i++) { c.check((a * b)[i] == a[i] * b[i] && a.getAbsoluteVector()[i] == std::abs(a[i]) && Vector3::min(a, b)[i] == std::min(a[i], b[i]) && Vector3::max(a, b)[i] == std::max(a[i], b[i]), "component-wise operation, component %d", i); if (b[0] > 1e-3 && b[1] > 1e-3 && b[2] > 1e-3) near(c, (a / b)[i], x[i] / y[i], 0, "component-wise division"); }
    c.check(a.getMinValue() == std::min(a.x, std::min(a.y, a.z)) && a.getMaxValue() == std::max(a.x, std::max(a.y, a.z)), "getMinValue/getMaxValue");
    c.check(a[a.getMinAxis()] == a.getMinValue() && a[a.getMaxAxis()] == a.getMaxValue(), "getMinAxis/getMaxAxis");
    c.check((a == b) == (a.x == b.x && a.y == b.y && a.z == b.z) && (a != b) == !(a == b), "equality");
    c.check(!(a < b && b < a) && ((a < b) || (b < a) || a == b), "operator< is not a strict total order"); { bool lx = a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.z < b.z; c.check((a < b) == lx, "operator< is not lexicographic"); }
    c.check(a.isFinite() && !Vector3(a.x, std::numeric_limits<decimal>::infinity(), a.z).isFinite() && !Vector3(std::numeric_limits<decimal>::quiet_NaN(), a.y, a.z).isFinite() && !Vector3(a.x, a.y, std::numeric_limits<decimal>::quiet_NaN()).isFinite(), "isFinite");
    if (len(x) > 1e-3L) {
        V u = v(a.getUnit()); near(c, u, axpy(V{}, 1 / len(x), x), 1, "getUnit"); t = a; t.normalize(); near(c, v(t), axpy(V{}, 1 / len(x), x), 1, "normalize");
        V o = v(a.getOneUnitOrthogonalVector()); near(c, len(o), 1, 1, "getOneUnitOrthogonalVector length"); near(c, dt(o, x), 0, len(x), "getOneUnitOrthogonalVector orthogonality"); c.check(!a.isZero(), "isZero of a non-zero vector"); }
    Vector2 p(a.x, a.y), q(b.x, b.y); near(c, p.dot(q), x[0] * y[0] + x[1] * y[1], sc, "Vector2 dot"); LD l2 = std::sqrt(x[0] * x[0] + x[1] * x[1]); near(c, p.length(), l2, 0, "Vector2 length"); near(c, p.lengthSquare(), l2 * l2, 0, "Vector2 lengthSquare");
    c.check((p + q).x == p.x + q.x && (p + q).y == p.y + q.y && (p - q).x == p.x - q.x && (p - q).y == p.y - q.y && (p * s).x == p.x * s && (s * p).y == s * p.y && (p * q).x == p.x * q.x && (p * q).y == p.y * q.y && (-p).x == -p.x && (-p).y == -p.y, "Vector2 arithmetic");
    c.check(p[p.getMinAxis()] == std::min(p.x, p.y) && p[p.getMaxAxis()] == std::max(p.x, p.y) && Vector2::min(p, q).y == std::min(p.y, q.y) && Vector2::max(p, q).x == std::max(p.x, q.x), "Vector2 min/max");
    if (l2 > 1e-3L) { Vector2 o = p.getOneUnitOrthogonalVector(); near(c, o.dot(p), 0, l2, "Vector2 orthogonal"); near(c, o.length(), 1, 1, "Vector2 orthogonal length"); near(c, p.getUnit().x, x[0] / l2, 1, "Vector2 unit"); near(c, p.getUnit().y, x[1] / l2, 1, "Vector2 unit"); }
    if (sc > 0 && len(cr(x, y)) > 1e-6L * sc) c.nontrivial();
}

PBT_PROP(matrices, 3000000, 30000000, "random matrices (also singular or near-singular), vectors; non-trivial: invertible with condition below 1e6") {
    Matrix3x3 a = matrix(c), b = matrix(c); if (c.chance(0.2)) for (int j = 0; j < 3; j++) a[2][j] = a[0][j] + static_cast<decimal>(c.logReal(1e-4, 1)) * b[0][j];
    decimal s = num(c); Vector3 x = vec(c); M A = mat(a), B = mat(b); V X = v(x); LD na = maxAbs(A), nb = maxAbs(B);
    near(c, v(a * x), mul(A, X), 3 * na * len(X), "matrix * vector"); near(c, mat(a * b), mul(A, B), 3 * na * nb, "matrix * matrix"); near(c, mat(a.getTranspose()), tr(A), 0, "transpose");
    M su{}, di{}, ne{}, sm{}, ab{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { su.m[i][j] = A.m[i][j] + B.m[i][j]; di.m[i][j] = A.m[i][j] - B.m[i][j]; ne.m[i][j] = -A.m[i][j]; sm.m[i][j] = s * A.m[i][j]; ab.m[i][j] = std::fabs(A.m[i][j]); }
    near(c, mat(a + b), su, na + nb, "a+b"); near(c, mat(a - b), di, na + nb, "a-b"); near(c, mat(-a), ne, 0, "-a"); near(c, mat(a * s), sm, 0, "a*s"); near(c, mat(s * a), sm, 0, "s*a"); near(c, mat(a.getAbsoluteMatrix()), ab, 0, "absolute");
    Matrix3x3 t = a; t += b; near(c, mat(t), su, na + nb, "+="); t = a; t -= b; near(c, mat(t), di, na + nb, "-="); t = a; t *= s; near(c, mat(t), sm, 0, "*=");
    for (int i = 0; i < 3; i++) { V r{{A.m[i][0], A.m[i][1], A.m[i][2]}}, k{{A.m[0][i], A.m[1][i], A.m[2][i]}}; near(c, v(a.getRow(i)), r, 0, "getRow"); near(c, v(a.getColumn(i)), k, 0, "getColumn"); }
    near(c, a.getTrace(), A.m[0][0] + A.m[1][1] + A.m[2][2], 3 * na, "trace");
    V r0{{A.m[0][0], A.m[0][1], A.m[0][2]}}, r1{{A.m[1][0], A.m[1][1], A.m[1][2]}}, r2{{A.m[2][0], A.m[2][1], A.m[2][2]}}; LD det = dt(r0, cr(r1, r2)), ds = len(r0) * len(r1) * len(r2); near(c, a.getDeterminant(), det, 6 * ds, "determinant");
    near(c, v(Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(x) * Vector3(b[0][0], b[0][1], b[0][2])), cr(X, V{{B.m[0][0], B.m[0][1], B.m[0][2]}}), 3 * len(X) * nb, "skew-symmetric matrix");
    c.check(a == a && (a == b) == (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]), "matrix equality"); c.check(Matrix3x3::identity() * x == x && Matrix3x3::zero() * x == Vector3(0, 0, 0), "identity/zero");
    if (std::fabs(det) > 1e-6L * ds && ds > 1e-6L) { LD cond = ds / std::fabs(det); M inv = mat(a.getInverse()); M id{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; near(c, mul(A, inv), id, 100 * cond * cond * (1 + na * maxAbs(inv)), "A * inverse(A)"); near(c, mul(inv, A), id, 100 * cond * cond * (1 + na * maxAbs(inv)), "inverse(A) * A"); M i2 = mat(a.getInverse(a.getDeterminant())); near(c, i2, inv, maxAbs(inv), "getInverse(determinant)"); c.nontrivial(); }
    Matrix2x2 p(a[0][0], a[0][1], a[1][0], a[1][1]), q(b[0][0], b[0][1], b[1][0], b[1][1]); Vector2 y(x.x, x.y); Vector2 py = p * y; near(c, py.x, A.m[0][0] * X[0] + A.m[0][1] * X[1], 2 * na * len(X), "Matrix2x2 * vector"); near(c, py.y, A.m[1][0] * X[0] + A.m[1][1] * X[1], 2 * na * len(X), "Matrix2x2 * vector");
    Matrix2x2 pq = p * q, pt = p.getTranspose(); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { near(c, pq[i][j], A.m[i][0] * B.m[0][j] + A.m[i][1] * B.m[1][j], 2 * na * nb, "Matrix2x2 product"); c.check(pt[i][j] == p[j][i] && (p + q)[i][j] == p[i][j] + q[i][j] && (p - q)[i][j] == p[i][j] - q[i][j] && (p * s)[i][j] == p[i][j] * s && p.getRow(i)[j] == p[i][j] && p.getColumn(j)[i] == p[i][j] && p.getAbsoluteMatrix()[i][j] == std::abs(p[i][j]), "Matrix2x2 element-wise"); }
    near(c, p.getTrace(), A.m[0][0] + A.m[1][1], 2 * na, "Matrix2x2 trace"); LD d2 = A.m[0][0] * A.m[1][1] - A.m[0][1] * A.m[1][0]; near(c, p.getDeterminant(), d2, 2 * na * na, "Matrix2x2 determinant");
    if (std::fabs(d2) > 1e-6L * na * na && std::fabs(d2) > 1e-6L) { Matrix2x2 iv = p.getInverse(); LD k = na * na / std::fabs(d2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) near(c, A.m[i][0] * iv[0][j] + A.m[i][1] * iv[1][j], i == j, 10 * k * k, "Matrix2x2 inverse"); }
}

PBT_PROP(quaternions, 4000000, 40000000, "unit quaternions by axis and angle, also near half turns, near identity, on axes and diagonals; non-trivial: rotation angle above 1e-3") {
    V u; LD a; Quaternion q = quat(c, u, a), r = quat(c); Vector3 x = vec(c); V X = v(x); M R = rod(u, a); const LD S = 20;
    c.note("q=(%.17g,%.17g,%.17g,%.17g) r=(%.17g,%.17g,%.17g,%.17g)", (double)q.x, (double)q.y, (double)q.z, (double)q.w, (double)r.x, (double)r.y, (double)r.z, (double)r.w);
    near(c, mat(q.getMatrix()), R, S, "quaternion -> matrix vs Rodrigues"); near(c, v(q * x), mul(R, X), S * len(X), "quaternion * vector"); near(c, v(q.getMatrix() * x), mul(R, X), S * len(X), "matrix of quaternion * vector");
    near(c, mat((q * r).getMatrix()), mul(R, qm(r)), S, "product of quaternions"); near(c, v((q * r) * x), mul(R, mul(qm(r), X)), S * len(X), "(q*r)*x");
    near(c, v(q.getInverse() * (q * x)), X, S * len(X), "inverse cancels"); Quaternion t = q; t.inverse(); near(c, mat(t.getMatrix()), tr(R), S, "inverse()"); near(c, mat(q.getConjugate().getMatrix()), tr(R), S, "conjugate");
    // conversion matrix -> quaternion round trip (same rotation up to sign), through an independently computed matrix
    Matrix3x3 m(R.m[0][0], R.m[0][1], R.m[0][2], R.m[1][0], R.m[1][1], R.m[1][2], R.m[2][0], R.m[2][1], R.m[2][2]); Quaternion f(m); c.check(f.isFinite(), "quaternion from matrix is not finite"); near(c, f.length(), 1, S, "quaternion from matrix: length"); near(c, std::fabs(static_cast<LD>(f.dot(q))), 1, S, "quaternion from matrix: same rotation"); near(c, mat(f.getMatrix()), R, 100 * S, "matrix -> quaternion -> matrix");
    decimal ang; Vector3 ax; q.getRotationAngleAxis(ang, ax); if (std::fabs(std::sin(a / 2)) > 1e-3L) { near(c, ax.length(), 1, S, "rotation axis length"); M R2 = rod(v(ax), ang); near(c, R2, R, 1e4L * S, "angle/axis describe another rotation"); c.nontrivial(); }
    c.check(q.isUnit() && q.isValid() && q.isFinite() && !Quaternion(q.x, q.y, std::numeric_limits<decimal>::quiet_NaN(), q.w).isValid() && !(q * decimal(1.01)).isUnit(), "isUnit/isValid");
    near(c, q.dot(r), (LD)q.x * r.x + (LD)q.y * r.y + (LD)q.z * r.z + (LD)q.w * r.w, 4, "dot"); decimal k = static_cast<decimal>(c.logReal(1e-3, 1e3)); Quaternion n = q * k; near(c, n.length(), k, 0, "length"); near(c, n.getUnit().dot(q), 1, S, "getUnit"); near(c, mat(n.getMatrix()), R, S, "matrix of a non-unit quaternion"); c.check(q == q && (q == r) == (q.x == r.x && q.y == r.y && q.z == r.z && q.w == r.w), "equality"); c.check((q + r).x == q.x + r.x && (q + r).w == q.w + r.w && (q - r).y == q.y - r.y && (q - r).z == q.z - r.z, "sum and difference"); { Quaternion z = q; z += r; c.check(z == q + r, "+="); z = q; z -= r; c.check(z == q - r, "-="); }
    LD ex = angle(c), ey = angle(c), ez = angle(c); M eu = mul(rod(V{{0, 0, 1}}, (decimal)ez), mul(rod(V{{0, 1, 0}}, (decimal)ey), rod(V{{1, 0, 0}}, (decimal)ex))); near(c, mat(Quaternion::fromEulerAngles(ex, ey, ez).getMatrix()), eu, S, "Euler angles (X then Y then Z)"); near(c, mat(Quaternion::fromEulerAngles(Vector3(ex, ey, ez)).getMatrix()), eu, S, "Euler angles from vector");
}

PBT_PROP(slerp, 3000000, 30000000, "pairs of unit quaternions (also opposite signs, nearly equal) and fractions; non-trivial: rotations differ by more than 0.01 rad") {
    Quaternion q = quat(c), r = quat(c); if (c.chance(0.25)) { LD d = c.logReal(1e-7, 1e-1); V u = axis(c); r = Quaternion(u[0] * std::sin(d / 2), u[1] * std::sin(d / 2), u[2] * std::sin(d / 2), std::cos(d / 2)) * q; if (c.chance(0.3)) r = Quaternion(-r.x, -r.y, -r.z, -r.w); }
    decimal t = static_cast<decimal>(c.real(0, 1)); Quaternion s = Quaternion::slerp(q, r, t);
    LD d = (LD)q.x * r.x + (LD)q.y * r.y + (LD)q.z * r.z + (LD)q.w * r.w; LD th = std::acos(std::min<LD>(1, std::fabs(d)));   // angle on the 3-sphere along the shortest arc
    const LD tol = 6e-6L + (sizeof(decimal) == 8 ? 0 : 1e-3L);
    // near opposite-arc ties (d = 0) both arcs are shortest
    c.check(s.isFinite() && std::fabs((LD)s.length() - 1) < tol, "slerp result is not a unit quaternion: length %.10g", (double)s.length());
    LD dq = std::fabs((LD)s.x * q.x + (LD)s.y * q.y + (LD)s.z * q.z + (LD)s.w * q.w), dr = std::fabs((LD)s.x * r.x + (LD)s.y * r.y + (LD)s.z * r.z + (LD)s.w * r.w);
    LD a1 = std::acos(std::min<LD>(1, dq)), a2 = std::acos(std::min<LD>(1, dr)); const LD at = sizeof(decimal) == 8 ? 4e-3L * (th < 5e-3L ? 1 : 1e-3L) : 5e-3L;
    c.check(std::fabs(a1 - t * th) < at && std::fabs(a2 - (1 - t) * th) < at, "slerp(%g) is at angle %.9Lg / %.9Lg from its ends, expected %.9Lg / %.9Lg", (double)t, a1, a2, t * th, (1 - t) * th);
    Vector3 p = vec(c), p2 = vec(c); Transform T = Transform::interpolateTransforms(Transform(p, q), Transform(p2, r), t); V P = v(p), P2 = v(p2); near(c, v(T.getPosition()), axpy(axpy(P, -t, P), t, P2), len(P) + len(P2), "interpolated position"); c.check(std::fabs((LD)T.getOrientation().dot(s)) > 1 - 1e-5L, "interpolated orientation differs from slerp");
    Quaternion e0 = Quaternion::slerp(q, r, 0), e1 = Quaternion::slerp(q, r, 1); c.check(std::fabs((LD)e0.dot(q)) > 1 - 1e-9L - (sizeof(decimal) == 8 ? 0 : 1e-4L) && std::fabs((LD)e1.dot(r)) > 1 - 1e-9L - (sizeof(decimal) == 8 ? 0 : 1e-4L), "slerp misses its end points");
    if (th > 0.005L) c.nontrivial();
}

PBT_PROP(transforms, 3000000, 30000000, "random transforms, points and products; non-trivial: rotation and translation both non-trivial") {
    Quaternion q = quat(c), r = quat(c); Vector3 p = vec(c), s = vec(c), x = vec(c); Transform A(p, q), B(s, r); M Q = qm(q), R = qm(r); V P = v(p), Sv = v(s), X = v(x); LD sc = 30 * (len(P) + len(Sv) + len(X));
    V bx = axpy(mul(R, X), 1, Sv), abx = axpy(mul(Q, bx), 1, P); near(c, v(A * x), axpy(mul(Q, X), 1, P), sc, "transform * point"); near(c, v((A * B) * x), abx, sc, "(A*B)*x"); near(c, v(A * (B * x)), abx, sc, "A*(B*x)");
    near(c, v(A.getInverse() * (A * x)), X, sc, "inverse transform"); near(c, v((A.getInverse() * A) * x), X, sc, "inverse(A)*A"); near(c, mat((A * B).getOrientation().getMatrix()), mul(Q, R), 30, "orientation of the product");
    near(c, v(Transform(p, q.getMatrix()) * x), axpy(mul(Q, X), 1, P), 100 * sc, "transform from matrix");
    decimal gl[16]; A.getOpenGLMatrix(gl); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) near(c, gl[j * 4 + i], Q.m[i][j], 20, "OpenGL matrix rotation"); near(c, gl[12 + i], P[i], 0, "OpenGL matrix translation"); c.check(gl[i * 4 + 3] == 0, "OpenGL matrix last row"); } c.check(gl[15] == 1, "OpenGL matrix corner");
    Transform G; G.setFromOpenGL(gl); near(c, v(G * x), axpy(mul(Q, X), 1, P), 100 * sc, "setFromOpenGL(getOpenGLMatrix)");
    Transform I = Transform::identity(); c.check(I * x == x && A.isValid() && A == A && (A != B) == !(A == B), "identity, validity, equality"); Transform C = A; C.setToIdentity(); c.check(C == I, "setToIdentity"); C.setPosition(p); C.setOrientation(q); c.check(C == A && C.getPosition() == p && C.getOrientation() == q, "setPosition/setOrientation");
    if (std::fabs(q.w) < 0.9999 && len(P) > 0.01L) c.nontrivial();
}
