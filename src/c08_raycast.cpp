#include "geo.h"
using namespace gen;

static void checkHit(Case& c, const char* what, const Shape& sh, const Xf& x, const RaycastInfo& info, V o, V d, double maxT, double tol) {
    V p = rf(info.worldPoint), n = rf(info.worldNormal); double t = info.hitFraction; double L = ref::len(d);
    c.check(std::isfinite(t) && ref::finite(p) && ref::finite(n), "%s: hit on a %s with non-finite data", what, KIND[sh.kind]);
    c.check(t >= -tol / L && t <= maxT + tol / L, "%s: hit fraction %.9g outside [0, %.9g] on a %s", what, t, maxT, KIND[sh.kind]);
    c.check(ref::len(p - (o + t * d)) < tol * 10, "%s: the hit point on a %s is %.3g away from the ray at the hit fraction", what, KIND[sh.kind], ref::len(p - (o + t * d)));
    c.check(std::fabs(ref::len(n) - 1) < (DP ? 1e-6 : 1e-3), "%s: the normal on a %s has length %.9g", what, KIND[sh.kind], ref::len(n));
    V lp = x.inv(p); double sd = 1e300; if (sh.convex) sd = ref::pointDist(sh.poly, lp); else for (auto& tr : sh.tris) sd = std::min(sd, ref::len(lp - ref::closestTri(tr[0], tr[1], tr[2], lp)));
    c.check(std::fabs(sd) < tol * 50, "%s: the hit point is %.3g away from the surface of the %s", what, sd, KIND[sh.kind]);
}

PBT_PROP(raycast_shape, 80000, 6000000, "1-2 bodies with 1-2 colliders of every kind after 0-4 moves/resizes, 10 rays each (aimed at the shape, axis-parallel in local or world space, starting inside, short, clipped by maxFraction, all three triangle sides); non-trivial: at least one clear hit and one clear miss") {
    GScene s(c); double range = c.chance(0.7) ? 3 : 40; int nb = c.intIn(1, 2); for (int i = 0; i < nb; i++) { Case::Span sp(c); s.addBody(range); int nc = c.intIn(1, 2); for (int j = 0; j < nc; j++) s.addCollider(s.bodies.back(), 63); }
    int n = 0; while (c.more(n, 1, 4)) s.mutate(range);
    std::vector<int> sides(s.shapes.size(), 1); for (size_t i = 0; i < s.shapes.size(); i++) if (!s.shapes[i].convex) { auto* cs = static_cast<ConcaveShape*>(s.shapes[i].shape); if (c.chance(0.7)) { int k = c.intIn(1, 3); sides[i] = k; cs->setRaycastTestType(k == 1 ? TriangleRaycastSide::FRONT : k == 2 ? TriangleRaycastSide::BACK : TriangleRaycastSide::FRONT_AND_BACK); c.note("raycast side of shape %zu: %d", i, k); } }
    int hits = 0, misses = 0;
    for (int k = 0; k < 10; k++) {
        Case::Span sp(c); GBody& b = s.bodies[c.draw(s.bodies.size() - 1)]; GCollider& g = b.cols[c.draw(b.cols.size() - 1)]; const Shape& sh = s.shapes[g.shape]; Xf w = s.worldX(b, g); V target; double ws = 0;
        auto mix = [&](V v) { double t = c.chance(0.6) ? 0 : c.real(0, 1); target = target + t * v; ws += t; };
        if (sh.convex) { for (auto& v : sh.poly.v) mix(v); if (ws > 0) target = (1 / ws) * target; if (sh.poly.r > 0) target = target + c.real(0, 1.3) * sh.poly.r * dir(c); else if (c.chance(0.3)) target = target + c.real(0, 0.5) * dir(c); } else { auto& tr = sh.tris[c.draw(sh.tris.size() - 1)]; for (auto& v : tr) mix(v); if (ws > 0) target = (1 / ws) * target; else target = (1.0 / 3) * (tr[0] + tr[1] + tr[2]); if (c.chance(0.2)) target = target + c.real(0, 0.5) * dir(c); }
        V dl = dir(c); double back = c.chance(0.15) ? c.real(0, 0.5) * sh.size : sh.size * c.real(1, 4) + 0.5; V from = target - back * dl, to = target + (c.chance(0.7) ? c.real(0, 3) * (sh.size + 0.3) : -c.real(0, 1) * back) * dl; if (DP && c.chance(0.05)) { double far = c.logReal(50, 1000); from = target - far * dl; to = target + far * dl; c.label("long ray"); }
        V wo = w * from, wt = w * to; if (c.chance(0.2)) { int ax = c.intIn(0, 2); V z = w * target; double len = sh.size * 4 + 1; wo = z; wt = z; double sg = c.chance(0.5) ? 1 : -1; wo[ax] -= sg * len; wt[ax] += sg * len; c.label("world axis-parallel ray"); }
        Vector3 O = lib(wo), T = lib(wt); V o = rf(O), d = rf(T) - o; if (ref::len(d) < 0.05) continue; double maxT = c.chance(0.6) ? 1 : c.real(0, 2.5); if (maxT <= 0) continue; maxT = decimal(maxT);
        c.note("ray (%.17g %.17g %.17g)->(%.17g %.17g %.17g) max %.17g", o.x, o.y, o.z, o.x + d.x, o.y + d.y, o.z + d.z, maxT); Ray ray(O, T, decimal(maxT));
        double best = 1e300; bool unclear = false; const GCollider* bestCol = nullptr;
        for (auto& h : b.cols) {
            const Shape& t = s.shapes[h.shape]; Xf x = s.worldX(b, h); double L = ref::len(d); double tol = (DP ? 1e-8 : 2e-4) * (5 + ref::len(o) + L + t.size * 2); V lo = x.inv(o), ld = ref::transpose(x.R) * d;
            ref::Hit ex; bool clearMiss = true; ex.t = 1e300; bool un = false, graze = false;
            if (t.convex) { ex = ref::rayPoly(t.poly, lo, ld, maxT, tol); if (!DP && t.kind == CAPSULE && std::hypot(ld.x, ld.z) < 0.02 * L) { ex.status = 0; graze = true; } un = ex.status == 0; clearMiss = ex.status == -1; }
            else { double close = 1e300; for (auto& tr : t.tris) { ref::Hit r = ref::rayTri(tr[0], tr[1], tr[2], lo, ld, maxT, tol, sides[h.shape]); graze = graze || r.graze; if (r.status == 1) { clearMiss = false; if (r.t < ex.t) ex = r; } else if (r.status == 0) { clearMiss = false; close = std::min(close, r.t); } } if (close < ex.t + tol / L || ex.t > 1e299) un = !clearMiss; ex.status = un ? 0 : clearMiss ? -1 : 1; }
            RaycastInfo info; bool got = h.col->raycast(ray, info);
            if (un) { unclear = true; } else if (clearMiss) { c.check(!got, "ray reported a hit (fraction %.9g) on a %s it does not touch", (double)info.hitFraction, KIND[t.kind]); misses++; }
            else {
                c.check(got, "ray missed a %s that it enters at fraction %.9g of %.9g", KIND[t.kind], ex.t, maxT); hits++;
                V wn = x.R * ex.n; double slope = std::max(1e-3, std::fabs(ref::dot(wn, d)) / L); c.check(std::fabs(info.hitFraction - ex.t) * L < 2 * tol / slope / slope, "hit fraction %.9g on a %s, expected %.9g", (double)info.hitFraction, KIND[t.kind], ex.t);
                V gn = rf(info.worldNormal); double nt = (DP ? 1e-4 : 2e-2) / slope; if (t.kind == SPHERE || t.kind == CAPSULE) nt += tol * 2 / (t.poly.r * slope);
                // at an edge the hit point may belong to either face
                V lp = x.inv(o + ex.t * d); bool edge = false; if (t.convex && t.poly.r == 0) { int on = 0; for (size_t i = 0; i < t.poly.f.size(); i++) if (ref::dot(lp - t.poly.v[t.poly.f[i][0]], t.poly.fn[i]) > -tol * 20 / slope) on++; edge = on > 1; } if (!t.convex) { for (auto& tr : t.tris) { ref::Hit r = ref::rayTri(tr[0], tr[1], tr[2], lo, ld, maxT, tol, sides[h.shape]); if (r.status != -1 && r.t - ex.t > 1e-12 && (r.t - ex.t) * L < tol * 4 / slope) edge = true; } }
                if (!edge) c.check(ref::len(gn - wn) < nt, "normal (%.6g %.6g %.6g) on a %s, expected (%.6g %.6g %.6g)", gn.x, gn.y, gn.z, KIND[t.kind], wn.x, wn.y, wn.z);
                if (ex.t < best) { best = ex.t; bestCol = &h; }
            }
            if (graze) { unclear = true; continue; }
            if (got) { checkHit(c, "Collider::raycast", t, x, info, o, d, maxT, tol); c.check(info.collider == h.col && info.body == b.body, "RaycastInfo names another collider or body"); if (t.kind == TRIMESH) { c.check(info.triangleIndex >= 0 && static_cast<size_t>(info.triangleIndex) < t.tris.size(), "triangle index %d out of range", info.triangleIndex); auto& tr = t.tris[info.triangleIndex]; V lp = x.inv(rf(info.worldPoint)); c.check(ref::len(lp - ref::closestTri(tr[0], tr[1], tr[2], lp)) < tol * 50, "the hit point is not on the triangle named by the triangle index"); } }
        }
        if (!unclear) { RaycastInfo info; bool got = b.body->raycast(ray, info); c.check(got == (bestCol != nullptr), "Body::raycast returned %d, a collider is hit: %d", got, bestCol != nullptr); if (got) { double L = ref::len(d), tol = (DP ? 1e-8 : 2e-4) * (5 + ref::len(o) + L + 50); c.check(std::fabs(info.hitFraction - best) * L < tol * 1e4, "Body::raycast hit fraction %.9g, closest collider hit %.9g", (double)info.hitFraction, best); bool found = false; for (auto& h : b.cols) if (info.collider == h.col) { found = true; checkHit(c, "Body::raycast", s.shapes[h.shape], s.worldX(b, h), info, o, d, maxT, tol); } c.check(found && info.body == b.body, "Body::raycast reports a foreign collider"); } }
    }
    if (hits && misses) c.nontrivial();
    s.close();
}
