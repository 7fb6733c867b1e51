// Reference geometry in double precision, independent of the library: convex solids are the convex hull of a set of
// vertices (the core) enlarged by a radius; concave shapes are lists of triangles.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <vector>
namespace ref {
struct V { double x = 0, y = 0, z = 0; double& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; } double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator-(V a) { return {-a.x, -a.y, -a.z}; }
inline V operator*(double s, V a) { return {s * a.x, s * a.y, s * a.z}; }
inline V operator*(V a, double s) { return s * a; }
inline double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double len(V a) { return std::sqrt(dot(a, a)); }
inline V unit(V a) { double l = len(a); return l > 0 ? (1 / l) * a : V{1, 0, 0}; }
inline V mul(V a, V b) { return {a.x * b.x, a.y * b.y, a.z * b.z}; }
inline V divv(V a, V b) { return {a.x / b.x, a.y / b.y, a.z / b.z}; }
inline bool finite(V a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }

struct M3 { double m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; };
inline V operator*(const M3& a, V v) { return {a.m[0][0] * v.x + a.m[0][1] * v.y + a.m[0][2] * v.z, a.m[1][0] * v.x + a.m[1][1] * v.y + a.m[1][2] * v.z, a.m[2][0] * v.x + a.m[2][1] * v.y + a.m[2][2] * v.z}; }
inline M3 operator*(const M3& a, const M3& b) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[i][j] = 0; for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
inline M3 transpose(const M3& a) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a.m[j][i]; return r; }
struct Q { double x = 0, y = 0, z = 0, w = 1; };
inline Q operator*(Q a, Q b) { V u{a.x, a.y, a.z}, v{b.x, b.y, b.z}; V r = a.w * v + b.w * u + cross(u, v); return {r.x, r.y, r.z, a.w * b.w - dot(u, v)}; }
inline Q qnorm(Q q) { double l = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); return {q.x / l, q.y / l, q.z / l, q.w / l}; }
inline Q conj(Q q) { return {-q.x, -q.y, -q.z, q.w}; }
inline M3 mat(Q q) {
    q = qnorm(q); M3 r; double x = q.x, y = q.y, z = q.z, w = q.w;
    double m[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)}, {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)}, {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = m[i][j]; return r;
}
// angle of the rotation between two orientations
inline double qangle(Q a, Q b) { Q d = qnorm(conj(a) * b); double s = std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z); return 2 * std::atan2(s, std::fabs(d.w)); }
struct X { Q q; V t; M3 R; X() {} X(Q qq, V tt) : q(qnorm(qq)), t(tt), R(mat(qq)) {} V operator*(V p) const { return R * p + t; } V inv(V p) const { return transpose(R) * (p - t); } X operator*(const X& o) const { return X(q * o.q, *this * o.t); } };

struct Poly {
    std::vector<V> v; std::vector<std::array<int, 2>> e; std::vector<std::vector<int>> f; std::vector<V> fn; double r = 0;
    bool solid() const { return f.size() >= 4; }     // the core has a volume
    V center() const { V c; for (auto& p : v) c = c + p; return (1.0 / v.size()) * c; }
    double support(V n) const { double m = -1e300; for (auto& p : v) m = std::max(m, dot(p, n)); return m; }
    double size() const { double s = 0; V c = center(); for (auto& p : v) s = std::max(s, len(p - c)); return s + r; }
};
inline V newell(const std::vector<V>& v, const std::vector<int>& f) { V n; for (size_t i = 0; i < f.size(); i++) { V a = v[f[i]] - v[f[0]], b = v[f[(i + 1) % f.size()]] - v[f[0]]; n = n + cross(a, b); } return n; }
inline void finishFaces(Poly& p) {
    p.fn.clear(); p.e.clear(); std::set<std::array<int, 2>> es;
    for (auto& f : p.f) { p.fn.push_back(unit(newell(p.v, f))); for (size_t i = 0; i < f.size(); i++) { int a = f[i], b = f[(i + 1) % f.size()]; if (a > b) std::swap(a, b); es.insert({a, b}); } }
    p.e.assign(es.begin(), es.end());
}
inline Poly point(double r) { Poly p; p.v = {{0, 0, 0}}; p.r = r; return p; }
inline Poly segment(double h, double r) { Poly p; p.v = {{0, -h / 2, 0}, {0, h / 2, 0}}; p.e = {{0, 1}}; p.r = r; return p; }
inline Poly triangle(V a, V b, V c) { Poly p; p.v = {a, b, c}; p.f = {{0, 1, 2}, {0, 2, 1}}; finishFaces(p); return p; }
inline Poly box(V h) {
    Poly p; for (int i = 0; i < 8; i++) p.v.push_back({i & 1 ? h.x : -h.x, i & 2 ? h.y : -h.y, i & 4 ? h.z : -h.z});
    p.f = {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 2, 3, 1}, {4, 5, 7, 6}}; finishFaces(p); return p;
}
// Brute-force convex hull. Fails (returns false) when the cloud is flat or close to a degenerate configuration.
inline bool hull(const std::vector<V>& pts, Poly& out, double tol = 1e-9, double clear = 1e-4) {
    int n = static_cast<int>(pts.size()); out = Poly(); double sz = 0; V c; for (auto& p : pts) c = c + p; c = (1.0 / n) * c; for (auto& p : pts) sz = std::max(sz, len(p - c)); if (sz <= 0) return false;
    std::set<std::vector<int>> seen; std::vector<std::vector<int>> faces;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) {
        V nn = cross(pts[j] - pts[i], pts[k] - pts[i]); double l = len(nn); if (l < 1e-6 * sz * sz) { if (l > 1e-12 * sz * sz) { } continue; } nn = (1 / l) * nn; int pos = 0, neg = 0; std::vector<int> on; bool near = false;
        for (int m = 0; m < n; m++) { double d = dot(pts[m] - pts[i], nn); if (std::fabs(d) <= tol * sz) on.push_back(m); else { if (std::fabs(d) < clear * sz) near = true; (d > 0 ? pos : neg)++; } }
        if (pos && neg) continue; if (near) return false; if (!pos && !neg) return false;
        if (seen.count(on)) continue; seen.insert(on); if (pos) nn = -nn;
        // order the points of the face, keep only its corners
        V o; for (int m : on) o = o + pts[m]; o = (1.0 / on.size()) * o; V u = unit(pts[on[0]] - o), w = cross(nn, u); std::vector<std::pair<double, int>> an; for (int m : on) an.push_back({std::atan2(dot(pts[m] - o, w), dot(pts[m] - o, u)), m}); std::sort(an.begin(), an.end());
        std::vector<int> f; for (auto& a : an) f.push_back(a.second); bool again = true;
        while (again && f.size() > 3) { again = false; for (size_t a = 0; a < f.size(); a++) { V p0 = pts[f[(a + f.size() - 1) % f.size()]], p1 = pts[f[a]], p2 = pts[f[(a + 1) % f.size()]]; if (dot(cross(p1 - p0, p2 - p1), nn) <= 1e-7 * sz * sz) { f.erase(f.begin() + a); again = true; break; } } }
        faces.push_back(f);
    }
    if (faces.size() < 4) return false;
    std::map<int, int> id; for (auto& f : faces) for (int& m : f) { if (!id.count(m)) { int k = static_cast<int>(id.size()); id[m] = k; out.v.push_back(pts[m]); } m = id[m]; }
    out.f = faces; finishFaces(out); return static_cast<int>(out.v.size()) - static_cast<int>(out.e.size()) + static_cast<int>(out.f.size()) == 2;
}
inline Poly transformed(const Poly& p, const X& x) { Poly o = p; for (auto& v : o.v) v = x * v; for (auto& n : o.fn) n = x.R * n; return o; }
inline Poly scaled(const Poly& p, V s) { Poly o = p; for (auto& v : o.v) v = mul(v, s); finishFaces(o); return o; }

inline V closestSeg(V a, V b, V p) { V d = b - a; double l = dot(d, d); double t = l > 0 ? std::min(1.0, std::max(0.0, dot(p - a, d) / l)) : 0; return a + t * d; }
// closest points of two segments: interior critical point or an end point
inline double segSeg(V a, V b, V x, V y, V& p, V& q) {
    double best = 1e300; auto tryp = [&](V u, V w) { double d = len(u - w); if (d < best) { best = d; p = u; q = w; } };
    tryp(closestSeg(a, b, x), x); tryp(closestSeg(a, b, y), y); tryp(a, closestSeg(x, y, a)); tryp(b, closestSeg(x, y, b));
    V d1 = b - a, d2 = y - x, r = a - x; double A = dot(d1, d1), B = dot(d1, d2), E = dot(d2, d2), C = dot(d1, r), F = dot(d2, r), den = A * E - B * B;
    if (den > 1e-14 * A * E) { double s = (B * F - C * E) / den, t = (A * F - B * C) / den; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) tryp(a + s * d1, x + t * d2); }
    return best;
}
inline V closestTri(V a, V b, V c, V p) {
    V n = cross(b - a, c - a); double l2 = dot(n, n);
    if (l2 > 0) { V q = p - (dot(p - a, n) / l2) * n; if (dot(cross(b - a, q - a), n) >= 0 && dot(cross(c - b, q - b), n) >= 0 && dot(cross(a - c, q - c), n) >= 0) return q; }
    V r = closestSeg(a, b, p); double d = len(r - p); V s = closestSeg(b, c, p); if (len(s - p) < d) { r = s; d = len(s - p); } s = closestSeg(c, a, p); if (len(s - p) < d) r = s; return r;
}
// signed distance of a point to the solid (negative inside); for a flat core the interior only comes from the radius
inline double pointDist(const Poly& P, V p) {
    if (P.v.size() == 1) return len(p - P.v[0]) - P.r;
    if (P.v.size() == 2) return len(p - closestSeg(P.v[0], P.v[1], p)) - P.r;
    double m = -1e300; for (size_t i = 0; i < P.f.size(); i++) m = std::max(m, dot(p - P.v[P.f[i][0]], P.fn[i]));
    if (m <= 0 && P.solid()) return m - P.r;
    double d = 1e300; for (auto& f : P.f) for (size_t k = 1; k + 1 < f.size(); k++) d = std::min(d, len(p - closestTri(P.v[f[0]], P.v[f[k]], P.v[f[k + 1]], p))); return d - P.r;
}
struct Sep { double sd = -1e300; V n; double second = -1e300; bool edge = false; };
// sd > 0: distance of the solids; sd < 0: penetration depth. n points from A to B. second: best of the clearly different axes (penetration only)
inline double sepAlong(const Poly& A, const Poly& B, V n) { return -B.support(-n) - A.support(n); }
inline Sep separation(const Poly& A, const Poly& B) {
    Sep s; std::vector<std::pair<double, V>> all;
    auto ax = [&](V n, bool edge) { double d = sepAlong(A, B, n); all.push_back({d, n}); if (d > s.sd) { s.sd = d; s.n = n; s.edge = edge; } };
    for (auto& n : A.fn) ax(n, false); for (auto& n : B.fn) ax(-n, false);
    for (auto& ea : A.e) { V da = A.v[ea[1]] - A.v[ea[0]]; for (auto& eb : B.e) { V db = B.v[eb[1]] - B.v[eb[0]]; V n = cross(da, db); double l = len(n); if (l < 1e-7 * len(da) * len(db)) continue; n = (1 / l) * n; ax(n, true); ax(-n, true); } }
    if (s.sd <= 0 && !all.empty() && (A.solid() || B.solid())) { for (auto& a : all) if (dot(a.second, s.n) < 0.999) s.second = std::max(s.second, a.first); s.sd -= A.r + B.r; s.second -= A.r + B.r; return s; }
    // disjoint cores (or both flat): nearest features
    double d = 1e300; V pa, pb; auto tr = [&](V p, V q) { double l = len(p - q); if (l < d) { d = l; pa = p; pb = q; } };
    for (auto& p : A.v) for (auto& q : B.v) tr(p, q);
    for (auto& p : A.v) { for (auto& e : B.e) tr(p, closestSeg(B.v[e[0]], B.v[e[1]], p)); for (auto& f : B.f) for (size_t k = 1; k + 1 < f.size(); k++) tr(p, closestTri(B.v[f[0]], B.v[f[k]], B.v[f[k + 1]], p)); }
    for (auto& p : B.v) { for (auto& e : A.e) tr(closestSeg(A.v[e[0]], A.v[e[1]], p), p); for (auto& f : A.f) for (size_t k = 1; k + 1 < f.size(); k++) tr(closestTri(A.v[f[0]], A.v[f[k]], A.v[f[k + 1]], p), p); }
    for (auto& ea : A.e) for (auto& eb : B.e) { V p, q; segSeg(A.v[ea[0]], A.v[ea[1]], B.v[eb[0]], B.v[eb[1]], p, q); tr(p, q); }
    // two flat cores: an edge of one that passes through a triangle of the other
    auto cross2 = [&](const Poly& T, const Poly& E) { if (T.v.size() != 3) return false; V n = T.fn[0]; for (auto& e : E.e) { V p = E.v[e[0]], q = E.v[e[1]]; double a = dot(p - T.v[0], n), b = dot(q - T.v[0], n); if (a * b >= 0) continue; V x = p + (a / (a - b)) * (q - p); if (len(closestTri(T.v[0], T.v[1], T.v[2], x) - x) < 1e-12 * T.size()) return true; } return false; };
    if (s.sd <= 0 && !all.empty() && (cross2(A, B) || cross2(B, A))) { s.sd -= A.r + B.r; s.second = s.sd; return s; }
    s.sd = d - A.r - B.r; s.n = d > 1e-12 ? (1 / d) * (pb - pa) : s.n; s.second = -1e300; return s;
}
// The library treats edge directions with a sine below 0.0032 as parallel and then skips their common normal: the lengths
// by which this can change a separation.
inline double parallelSlack(const Poly& A, const Poly& B) {
    double m = 0; for (auto& ea : A.e) for (auto& eb : B.e) { V da = A.v[ea[1]] - A.v[ea[0]], db = B.v[eb[1]] - B.v[eb[0]]; double la = len(da), lb = len(db), s = len(cross(da, db)) / (la * lb); if (s < 0.0033) m = std::max(m, s * (la + lb)); } return 1.5 * m;
}
struct Hit { int status = -1; double t = 0; V n; bool graze = false; };   // status 1 sure hit, -1 sure miss, 0 too close to call
// Ray o + t d, t in [0, maxT], entering from outside. eps is a length.
inline Hit rayPoly(const Poly& P, V o, V d, double maxT, double eps) {
    Hit h; double L = len(d);
    auto decide = [&](double tin, double slack) {        // slack: length by which the decision "enters the solid" is clear
        if (slack < eps) { h.status = 0; return; } if (tin > maxT + eps / L) { h.status = -1; return; } if (tin > maxT - eps / L) { h.status = 0; return; } h.status = 1; h.t = tin;
    };
    double pd = pointDist(P, o); if (pd < -eps) { h.status = -1; return h; }     // starts inside: no hit
    if (pd < eps) { h.status = 0; return h; }
    if (P.r > 0) {
        // sphere-swept: minimal distance of the ray line to the core, found on the candidates of the quadratics
        auto sphere = [&](V c, double& tin) { V m = o - c; double A = dot(d, d), B = dot(m, d), C = dot(m, m) - P.r * P.r, D = B * B - A * C; if (D < 0) return false; tin = (-B - std::sqrt(D)) / A; return tin > 0; };
        double best = 1e300; V bn; V a = P.v[0], b = P.v.back(); double t;
        for (V c : {a, b}) if (sphere(c, t) && t < best) { best = t; bn = unit(o + t * d - c); }
        if (P.v.size() == 2) { V u = unit(b - a); double hh = len(b - a); V m = o - a; V mp = m - dot(m, u) * u, dp = d - dot(d, u) * u; double A = dot(dp, dp), B = dot(mp, dp), C = dot(mp, mp) - P.r * P.r, D = B * B - A * C; if (A > 0 && D >= 0) { t = (-B - std::sqrt(D)) / A; double s = dot(m + t * d, u); if (t > 0 && s >= 0 && s <= hh && t < best) { best = t; bn = unit(mp + t * dp); } } }
        // clear miss or clear hit: distance of the infinite half-line to the core
        V far = o + (1e4 / L) * d; double dist; V p, q; dist = segSeg(o, far, a, b, p, q);
        if (dist > P.r + eps) return h; if (dist > P.r - eps || best > 1e299) { h.status = 0; return h; }
        h.n = bn; decide(best, P.r - dist); return h;
    }
    // clip by the faces moved outwards (may be hit) and inwards (is hit) by eps
    auto clip = [&](double off, double end, double& t0, V& n) {
        t0 = -1e300; double t1 = end; n = V();
        for (size_t i = 0; i < P.f.size(); i++) { double s = dot(o - P.v[P.f[i][0]], P.fn[i]) - off, v = dot(d, P.fn[i]); if (std::fabs(v) < 1e-14 * L) { if (s > 0) return false; continue; } double t = -s / v; if (v < 0) { if (t > t0) { t0 = t; n = P.fn[i]; } } else t1 = std::min(t1, t); }
        return std::max(t0, 0.0) <= t1;
    };
    double t0; V n; if (!clip(eps, maxT + eps / L, t0, n)) return h;
    h.status = 0; if (!clip(-eps, maxT - eps / L, t0, n)) return h;
    if (!clip(0, maxT, t0, n) || t0 < 0) return h;
    h.n = n; h.t = t0; h.status = 1; return h;
}
// sides: 1 front (against the normal), 2 back, 3 both
inline Hit rayTri(V a, V b, V c, V o, V d, double maxT, double eps, int sides) {
    Hit h; V n = cross(b - a, c - a); double l = len(n); n = (1 / l) * n; double L = len(d), v = dot(d, n), s = dot(o - a, n);
    double m = 1e300; V e[3] = {a, b, c};
    if (std::fabs(v) < std::max(1e-6, std::min(0.02, 3 * eps)) * L) { // nearly parallel: undecided when the ray comes close to the plane
        double s2 = s + maxT * v; if (std::min(std::fabs(s), std::fabs(s2)) < std::max(1e-4, 3 * eps) * (1 + l) || (s > 0) != (s2 > 0)) { h.status = 0; h.graze = true; } return h; }
    double t = -s / v; V x = o + t * d; double k = std::fabs(v) / L; double ex = eps / k;   // error of the hit point in the plane
    for (int i = 0; i < 3; i++) { V en = unit(cross(n, e[(i + 1) % 3] - e[i])); m = std::min(m, dot(x - e[i], en)); }
    if (m < -ex) return h; bool front = v < 0; if (front ? !(sides & 1) : !(sides & 2)) return h;
    double et = ex / L; if (t < -et || t > maxT + et) return h;
    if (m < ex || t < et || t > maxT - et) { h.status = 0; h.t = t; h.graze = k < 1e-3; return h; }
    h.graze = k < 1e-3;
    h.status = 1; h.t = t; h.n = front ? n : -n; return h;
}
}
