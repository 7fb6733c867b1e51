#include <reactphysics3d/reactphysics3d.h>
#include <reactphysics3d/mathematics/mathematics_functions.h>
#include <cmath>
#include <algorithm>
#include "pbt.h"
#include "track.h"
using namespace reactphysics3d;
using pbt::Case;
typedef long double LD;
struct P { LD x, y, z; };
static P p(const Vector3& v) { return {v.x, v.y, v.z}; }
static P operator+(P a, P b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P operator-(P a, P b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static P operator*(LD s, P a) { return {s * a.x, s * a.y, s * a.z}; }
static LD dot(P a, P b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P cross(P a, P b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD len(P a) { return std::sqrt(dot(a, a)); }
static const bool DP = sizeof(decimal) == 8;
static const LD TOL = DP ? 1e-7L : 3e-3L;
static Vector3 pt(Case& c, double r = 10) { if (c.chance(0.25)) return Vector3(c.intIn(-3, 3), c.intIn(-3, 3), c.intIn(-3, 3)); return Vector3(c.real(-r, r), c.real(-r, r), c.real(-r, r)); }
static LD segDist(P a, P b, P q, LD* tt = nullptr) { P ab = b - a; LD l = dot(ab, ab); LD t = l > 0 ? dot(q - a, ab) / l : 0; t = std::min<LD>(1, std::max<LD>(0, t)); if (tt) *tt = t; return len(q - (a + t * ab)); }
// exact distance of two segments: interior critical point or one of the four end points
static LD segSegDist(P a, P b, P x, P y) {
    LD best = std::min(std::min(segDist(a, b, x), segDist(a, b, y)), std::min(segDist(x, y, a), segDist(x, y, b)));
    P d1 = b - a, d2 = y - x, r = a - x; LD A = dot(d1, d1), B = dot(d1, d2), E = dot(d2, d2), C = dot(d1, r), F = dot(d2, r), den = A * E - B * B;
    if (den > 0) { LD s = (B * F - C * E) / den, t = (A * F - B * C) / den; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) best = std::min(best, len((a + s * d1) - (x + t * d2))); }
    return best;
}
#define PN(v) (double)(v).x, (double)(v).y, (double)(v).z

PBT_PROP(point_segment, 7500000, 150000000, "random, degenerate and far segments and points; non-trivial: segment longer than 1e-3 and closest point in the interior") {
    Vector3 a = pt(c), b = c.chance(0.1) ? a : pt(c), q = pt(c); if (c.chance(0.1)) b = a + Vector3(c.unif(-1e-3, 1e-3), c.unif(-1e-3, 1e-3), 0);
    c.note("a=(%.17g,%.17g,%.17g) b=(%.17g,%.17g,%.17g) q=(%.17g,%.17g,%.17g)", PN(a), PN(b), PN(q));
    Vector3 r = computeClosestPointOnSegment(a, b, q); LD t, d = segDist(p(a), p(b), p(q), &t);
    c.check(segDist(p(a), p(b), p(r)) < TOL, "the returned point is not on the segment"); c.check(std::fabs(len(p(r) - p(q)) - d) < TOL, "distance %.12Lg of the returned point, true distance %.12Lg", len(p(r) - p(q)), d);
    LD lab = len(p(b) - p(a));
    decimal ld = computePointToLineDistance(a, b, q); LD want = lab > 1e-12L ? len(cross(p(b) - p(a), p(q) - p(a))) / lab : len(p(q) - p(a)); if (lab > 1e-2L || lab == 0) c.check(std::fabs(ld - want) < TOL * 10, "distance to the line %.12g, expected %.12Lg", (double)ld, want);
    if (t > 0 && t < 1 && lab > 1e-3L) c.nontrivial();
}

PBT_PROP(segment_segment, 15000000, 300000000, "random, parallel, collinear, crossing and degenerate segment pairs; non-trivial: closest points interior to at least one of two proper segments") {
    Vector3 a = pt(c), b = pt(c), x = pt(c), y = pt(c); int k = c.weighted({5, 2, 2, 1, 1, 2});
    if (k == 1) { decimal s = c.real(-2, 2); y = x + (b - a) * s; c.label("parallel"); }                                       // parallel
    else if (k == 2) { decimal s = c.real(-1, 2), t = c.real(-1, 2); x = a + (b - a) * s; y = a + (b - a) * t; c.label("collinear"); }  // collinear
    else if (k == 3) { x = y; if (c.chance(0.3)) a = b; c.label("degenerate"); }
    else if (k == 4) { decimal s = c.real(0, 1), t = c.real(0, 1); Vector3 m = a + (b - a) * s; y = m + (m - x) * t; c.label("crossing"); }
    else if (k == 5) { decimal s = c.real(-2, 2); y = x + (b - a) * s + Vector3(c.unif(-1e-3, 1e-3), c.unif(-1e-3, 1e-3), c.unif(-1e-3, 1e-3)); c.label("nearly parallel"); }
    if (c.chance(0.05)) b = a;
    Vector3 r1, r2; computeClosestPointBetweenTwoSegments(a, b, x, y, r1, r2); LD d = segSegDist(p(a), p(b), p(x), p(y)), g = len(p(r1) - p(r2));
    c.note("a=(%.17g,%.17g,%.17g) b=(%.17g,%.17g,%.17g) x=(%.17g,%.17g,%.17g) y=(%.17g,%.17g,%.17g)", PN(a), PN(b), PN(x), PN(y));
    LD tol = DP ? 2e-6L : 2e-2L;
    c.check(segDist(p(a), p(b), p(r1)) < tol && segDist(p(x), p(y), p(r2)) < tol, "closest points are not on their segments");
    c.check(std::fabs(g - d) < tol, "returned points are %.12Lg apart, segments are %.12Lg apart", g, d);
    LD s, t; segDist(p(a), p(b), p(r2), &s); segDist(p(x), p(y), p(r1), &t); if (!(a == b) && !(x == y) && ((s > 0 && s < 1) || (t > 0 && t < 1))) c.nontrivial();
}

PBT_PROP(triangle, 7500000, 150000000, "random triangles with area above 1e-2 and points in their plane; non-trivial: all") {
    Vector3 a = pt(c), b = pt(c), d = pt(c); LD area = len(cross(p(b) - p(a), p(d) - p(a))); if (area < 0.05L) c.discard();
    decimal u0 = c.real(-2, 3), v0 = c.real(-2, 3); Vector3 q = a * (1 - u0 - v0) + b * u0 + d * v0; decimal u, v, w; computeBarycentricCoordinatesInTriangle(a, b, d, q, u, v, w);
    LD k = std::max<LD>(1, 1e6L / (area * area)); LD tol = TOL * k;
    c.check(std::fabs(u + v + w - 1) < 1e-5, "barycentric coordinates do not sum to one"); c.check(std::fabs(v - u0) < tol && std::fabs(w - v0) < tol && std::fabs(u - (1 - u0 - v0)) < tol, "barycentric coordinates (%.9g,%.9g,%.9g), expected (%.9g,%.9g,%.9g)", (double)u, (double)v, (double)w, (double)(1 - u0 - v0), (double)u0, (double)v0);
    c.nontrivial();
}

PBT_PROP(planes, 7500000, 150000000, "random planes, segments and points; non-trivial: segment crosses the plane") {
    Vector3 n = pt(c, 1); if (len(p(n)) < 0.1L) n = Vector3(0, 1, 0); n.normalize(); Vector3 o = pt(c), a = pt(c), b = pt(c); P N = p(n); LD sa = dot(p(a) - p(o), N), sb = dot(p(b) - p(o), N), den = sb - sa;
    LD dn = dot(p(b) - p(a), N);
    decimal t = computePlaneSegmentIntersection(a, b, n.dot(o), n);
    if (std::fabs(dn) > 2e-4L) c.check(std::fabs(t * dn - (-sa)) < TOL * 10, "plane-segment intersection at %.12g, expected %.12Lg", (double)t, -sa / dn);
    Vector3 par = a + (b - a) - n * n.dot(b - a); if (DP) c.check(computePlaneSegmentIntersection(a, par, n.dot(o), n) == decimal(-1), "a parallel segment must give -1");
    c.check(std::fabs(computePointToPlaneDistance(a, n, o) - sa) < TOL, "point to plane distance"); P pr = p(projectPointOntoPlane(a, n, o)); c.check(std::fabs(dot(pr - p(o), N)) < TOL, "projection is not on the plane"); c.check(len(pr - (p(a) - sa * N)) < TOL, "projection is not orthogonal");
    Vector3 v = pt(c); decimal m = c.real(0, 12); Vector3 cl = clamp(v, m); LD lv = len(p(v)); if (lv <= m) c.check(cl == v, "clamp of a short vector changes it"); else c.check(len(p(cl) - (m / lv) * p(v)) < TOL, "clamped vector");
    decimal lo = c.real(-5, 5), hi = lo + c.real(0, 5), val = c.real(-10, 10); decimal k = clamp(val, lo, hi); c.check(k >= lo && k <= hi && (k == val || (val < lo && k == lo) || (val > hi && k == hi)), "clamp"); { int l = c.intIn(-9, 9), h = l + c.intIn(0, 9), q = c.intIn(-20, 20); int z = clamp(q, l, h); c.check(z == std::min(std::max(q, l), h), "integer clamp"); }
    decimal e = c.real(-3, 3); c.check(min3(val, lo, e) == std::min(val, std::min(lo, e)) && max3(val, lo, e) == std::max(val, std::max(lo, e)), "min3/max3"); c.check(sameSign(val, lo) == (val * lo >= 0), "sameSign");
    // parallel and orthogonal tests far from their tolerance
    if (len(p(v)) > 0.1L) { decimal s = c.chance(0.5) ? decimal(0.5) : decimal(-2); c.check(areParallelVectors(v, v * s), "parallel vectors not recognised"); Vector3 w = v.getOneUnitOrthogonalVector(); c.check(areOrthogonalVectors(v, w) && !areParallelVectors(v, w), "orthogonal vectors not recognised"); c.check(!areOrthogonalVectors(v, w + v * decimal(0.5)), "non-orthogonal vectors called orthogonal"); }
    if (sa * sb < 0 && std::fabs(den) > 0.01L) c.nontrivial();
}

// index arithmetic helpers used by the hashed containers and the pair cache
PBT_PROP(integers, 1500000, 30000000, "integers of all magnitudes around powers of two, pairs of ids; non-trivial: above 2^16") {
    uint64_t n = c.chance(0.5) ? (uint64_t(1) << c.draw(62)) + static_cast<uint64_t>(c.intIn(-2, 2)) : c.draw(uint64_t(1) << c.draw(62)); 
    bool pow2 = false; uint64_t np = 0; for (int i = 0; i < 64; i++) { uint64_t q = uint64_t(1) << i; if (q == n) pow2 = true; if (q >= n && np == 0) np = q; }
    c.check(isPowerOfTwo(n) == pow2, "isPowerOfTwo(%llu)", (unsigned long long)n); if (n >= 1 && n <= (uint64_t(1) << 62)) c.check(nextPowerOfTwo64Bits(n) == np, "nextPowerOfTwo64Bits(%llu) = %llu, expected %llu", (unsigned long long)n, (unsigned long long)nextPowerOfTwo64Bits(n), (unsigned long long)np);
    uint32_t a = static_cast<uint32_t>(c.chance(0.5) ? c.draw(300) : c.draw(0xffffffffu)), b = static_cast<uint32_t>(c.chance(0.5) ? c.draw(300) : c.draw(0xffffffffu)), d = c.chance(0.5) ? a : static_cast<uint32_t>(c.draw(300)), e = c.chance(0.5) ? b : static_cast<uint32_t>(c.draw(300));
    auto id = [](uint32_t x, uint32_t y) { return pairNumbers(std::max(x, y), std::min(x, y)); }; bool same = (std::max(a, b) == std::max(d, e)) && (std::min(a, b) == std::min(d, e)); c.check((id(a, b) == id(d, e)) == same, "pairNumbers is not injective: {%u,%u} and {%u,%u}", a, b, d, e);
    if (n > 65536) c.nontrivial();
}

PBT_PROP(clip_segment, 3000000, 60000000, "segments clipped by up to six planes, some nearly parallel to the segment, also non-unit normals; non-trivial: at least one plane cuts and a proper piece remains") {
    TrackingAllocator al; {
    Array<Vector3> pts(al), ns(al); Vector3 a = pt(c, 5), b = pt(c, 5); int n = c.intIn(1, 6); bool prism = c.chance(0.5);
    for (int i = 0; i < n; i++) {
        Vector3 nn = pt(c, 1); if (len(p(nn)) < 0.1L) nn = Vector3(1, 0, 0); nn.normalize(); Vector3 o = pt(c, 3);
        if (prism) o = nn * decimal(-c.real(0.5, 4));  // plane set containing the origin
        if (c.chance(0.25)) { Vector3 d = b - a; if (len(p(d)) > 0.1L) { nn = d.getOneUnitOrthogonalVector(); if (c.chance(0.5)) nn = -nn; o = a + d * decimal(c.real(0, 1)); if (c.chance(0.7)) { nn += d.getUnit() * decimal(c.logReal(1e-8, 1e-2)); nn.normalize(); } c.label("nearly parallel plane"); } }
        nn *= decimal(c.chance(0.3) ? c.logReal(0.05, 20) : 1); pts.add(o); ns.add(nn); c.note("plane o=(%.17g,%.17g,%.17g) n=(%.17g,%.17g,%.17g)", PN(o), PN(nn));
    }
    c.note("a=(%.17g,%.17g,%.17g) b=(%.17g,%.17g,%.17g)", PN(a), PN(b));
    Array<Vector3> out = clipSegmentWithPlanes(a, b, pts, ns, al);
    // reference: interval of parameters
    P A = p(a), D = p(b) - p(a); LD lo = 0, hi = 1; LD L = len(D); bool cut = false;
    for (int i = 0; i < n; i++) { P N = (1 / len(p(ns[i]))) * p(ns[i]); LD s0 = dot(A - p(pts[i]), N), s1 = dot(A + D - p(pts[i]), N); if (s0 < 0 && s1 < 0) { hi = -1; } else if (s0 < 0) { LD t = s0 / (s0 - s1); if (t > lo) { lo = t; cut = true; } } else if (s1 < 0) { LD t = s0 / (s0 - s1); if (t < hi) { hi = t; cut = true; } } }
    auto sd = [&](P x) { LD m = 1e9L; for (int i = 0; i < n; i++) m = std::min(m, dot(x - p(pts[i]), (1 / len(p(ns[i]))) * p(ns[i]))); return m; };
    LD tol = DP ? 1e-7L : 1e-2L; c.check(out.size() == 0 || out.size() == 2, "clipping returned %llu points", (unsigned long long)out.size());
    for (uint64_t i = 0; i < out.size(); i++) { c.check(segDist(A, A + D, p(out[i])) < tol, "a clipped point is not on the segment"); c.check(sd(p(out[i])) > -tol, "a clipped point is %.3Lg behind a plane", -sd(p(out[i]))); }
    // completeness: every point of the segment clearly in front of all planes must be in the result
    for (int k = 0; k <= 8; k++) { LD t = k / 8.0L; P x = A + t * D; if (sd(x) > tol) { c.check(out.size() == 2, "segment lies inside the planes at parameter %.3Lg but the result is empty", t); c.check(segDist(p(out[0]), p(out[1]), x) < tol, "a point inside all planes (parameter %.3Lg) was clipped away", t); } }
    // end points of the true interval, when it is well conditioned
    if (hi - lo > 1e-3L && L > 0.1L) { LD cond = 1e9L; for (int i = 0; i < n; i++) cond = std::min(cond, std::fabs(dot(D, (1 / len(p(ns[i]))) * p(ns[i])))); if (cond > 1e-3L && (hi - lo) * cond > 20 * tol) { c.check(out.size() == 2, "a piece of length %.3Lg remains but the result is empty", (hi - lo) * L); LD e = tol / cond * 10; c.check(len(p(out[0]) - (A + lo * D)) < e && len(p(out[1]) - (A + hi * D)) < e, "clipped ends differ from the true ones"); } if (cut) c.nontrivial(); }
    } al.verifyEmpty(c, "clipSegmentWithPlanes");
}

PBT_PROP(clip_polygon, 2000000, 40000000, "planar convex polygons clipped by successive planes; non-trivial: cut and at least a triangle remains") {
    TrackingAllocator al; {
    int nv = c.intIn(3, 8); Vector3 nrm = pt(c, 1); if (len(p(nrm)) < 0.1L) nrm = Vector3(0, 1, 0); nrm.normalize(); Vector3 e1 = nrm.getOneUnitOrthogonalVector(), e2 = nrm.cross(e1), o = pt(c, 3); decimal rx = c.real(0.5, 4), ry = c.real(0.5, 4);
    std::vector<double> ang; for (int i = 0; i < nv; i++) ang.push_back(6.283185 * (i + c.real(0, 0.8)) / nv); Array<Vector3> cur(al), nxt(al); std::vector<P> ref;
    for (double t : ang) { Vector3 v = o + e1 * decimal(rx * std::cos(t)) + e2 * decimal(ry * std::sin(t)); cur.add(v); ref.push_back(p(v)); }
    std::vector<P> refBig = ref;
    int np = c.intIn(1, 4); bool cut = false; LD tol = DP ? 1e-7L : 1e-2L; std::vector<P> po, pn;
    for (int i = 0; i < np && cur.size() > 0; i++) {
        Vector3 n = c.chance(0.6) ? (e1 * decimal(c.unif(-1, 1)) + e2 * decimal(c.unif(-1, 1)) + nrm * decimal(c.unif(-0.3, 0.3))) : pt(c, 1); if (len(p(n)) < 0.1L) n = e1; n.normalize(); if (c.chance(0.15)) { n = nrm + e1 * decimal(c.logReal(1e-7, 1e-2)); c.label("nearly parallel plane"); } n *= decimal(c.chance(0.3) ? c.logReal(0.05, 20) : 1); Vector3 q = o + e1 * decimal(c.real(-2, 2)) + e2 * decimal(c.real(-2, 2));
        nxt.clear(); c.note("plane q=(%.17g,%.17g,%.17g) n=(%.17g,%.17g,%.17g) from (%.17g,%.17g,%.17g) e1=(%g,%g,%g) nrm=(%g,%g,%g)", PN(q), PN(n), PN(o), PN(e1), PN(nrm)); clipPolygonWithPlane(cur, q, n, nxt); po.push_back(p(q)); pn.push_back((1 / len(p(n))) * p(n));
        // reference Sutherland-Hodgman in long double, with the plane moved by the tolerance to both sides
        auto clip = [&](std::vector<P>& ref, LD shift) { std::vector<P> r2; for (size_t k = 0; k < ref.size(); k++) { P s = ref[(k + ref.size() - 1) % ref.size()], e = ref[k]; LD ds = dot(s - po.back(), pn.back()) + shift, de = dot(e - po.back(), pn.back()) + shift; if (de >= 0) { if (ds < 0) { r2.push_back(s + (ds / (ds - de)) * (e - s)); cut = true; } r2.push_back(e); } else if (ds >= 0) { r2.push_back(s + (ds / (ds - de)) * (e - s)); cut = true; } } ref = r2; };
        clip(ref, -tol); clip(refBig, tol);
        cur = nxt;
    }
    auto sd = [&](P x) { LD m = 1e9L; for (size_t i = 0; i < po.size(); i++) m = std::min(m, dot(x - po[i], pn[i])); return m; };
    for (uint64_t i = 0; i < cur.size(); i++) { c.check(std::fabs(dot(p(cur[i]) - p(o), p(nrm))) < tol, "a clipped vertex left the plane of the polygon"); c.check(sd(p(cur[i])) > -tol, "a clipped vertex is %.3Lg behind a plane", -sd(p(cur[i]))); }
    // area and completeness against the reference polygon
    auto area = [&](const std::vector<P>& v) { P s{0, 0, 0}; for (size_t k = 1; k + 1 < v.size(); k++) s = s + cross(v[k] - v[0], v[k + 1] - v[0]); return dot(s, p(nrm)) / 2; };
    std::vector<P> got; for (uint64_t i = 0; i < cur.size(); i++) got.push_back(p(cur[i])); LD ag = area(got), ar = area(ref), ab = area(refBig), at = DP ? 1e-6L : 2e-3L; c.check(ag > ar - at && ag < ab + at, "area of the clipped polygon is %.9Lg, expected between %.9Lg and %.9Lg", ag, ar, ab);
    if (cut && ar > 1e-3L) c.nontrivial();
    } al.verifyEmpty(c, "clipPolygonWithPlane");
}
