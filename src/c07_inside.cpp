#include "geo.h"
using namespace gen;

PBT_PROP(point_inside, 150000, 6000000, "1-2 bodies with 1-3 colliders of every kind after 0-6 moves/resizes, 12 points each around the surfaces; non-trivial: a case with both inside and outside points on a collider that is rotated, scaled or moved") {
    GScene s(c); double range = c.chance(0.7) ? 3 : 50; int nb = c.intIn(1, 2); for (int i = 0; i < nb; i++) { Case::Span sp(c); s.addBody(range); int nc = c.intIn(1, 3); for (int j = 0; j < nc; j++) s.addCollider(s.bodies.back(), c.chance(0.8) ? 15 : 63); }
    int n = 0; while (c.more(n, 1.5, 6)) s.mutate(range);
    if (c.chance(0.2)) { s.world->update(decimal(1e-3)); c.note("step"); }
    int in = 0, out = 0;
    for (int k = 0; k < 12; k++) {
        Case::Span sp(c); GBody& b = s.bodies[c.draw(s.bodies.size() - 1)]; GCollider& g = b.cols[c.draw(b.cols.size() - 1)]; const Shape& sh = s.shapes[g.shape]; Xf w = s.worldX(b, g); V local;
        int mode = c.weighted({3, 2, 1});
        if (sh.convex && mode == 0) {   // near the surface: a point of the core moved along a direction
            V core; double ws = 0; for (auto& v : sh.poly.v) { double t = c.chance(0.5) ? 0 : c.real(0, 1); core = core + t * v; ws += t; } if (ws > 0) core = (1 / ws) * core; else core = sh.poly.v[0]; if (sh.poly.r > 0) local = core + (sh.poly.r * (c.chance(0.5) ? 1 + c.real(-1, 1) * 0.02 : c.real(0, 1.2))) * dir(c); else local = core + (c.chance(0.5) ? c.logReal(1e-5, 0.1) * sh.size : 0.0) * dir(c) ;
        } else if (mode == 1) local = ref::mul(vec(c, 1.2), V{sh.size, sh.size, sh.size}); else { int i = 0; V lo{1e9, 1e9, 1e9}, hi{-1e9, -1e9, -1e9}; sh.eachPoint([&](V p) { for (i = 0; i < 3; i++) { lo[i] = std::min(lo[i], p[i]); hi[i] = std::max(hi[i], p[i]); } }); double r = sh.convex ? sh.poly.r : 0; for (i = 0; i < 3; i++) local[i] = (lo[i] + hi[i]) / 2 + c.real(-1, 1) * ((hi[i] - lo[i]) / 2 + r); }
        Vector3 wp = lib(w * local); V P = rf(wp); c.note("point (%.17g %.17g %.17g)", P.x, P.y, P.z); bool any = false, unclear = false;
        for (auto& h : b.cols) {
            const Shape& t = s.shapes[h.shape]; Xf x = s.worldX(b, h); double tol = (DP ? 1e-9 : 2e-5) * (10 + ref::len(P) + t.size * 4); bool got = h.col->testPointInside(wp); double sd = t.convex ? ref::pointDist(t.poly, x.inv(P)) : 1;
            if (std::fabs(sd) < tol) { unclear = true; continue; } c.check(got == (sd < 0), "testPointInside of a %s is %d for a point %.6g %s the surface", KIND[t.kind], got, std::fabs(sd), sd < 0 ? "inside" : "outside"); if (sd < 0) { any = true; in++; } else out++;
        }
        if (!unclear || any) c.check(b.body->testPointInside(wp) == any, "Body::testPointInside is %d, a collider contains the point: %d", !any, any);
    }
    if (in && out) c.nontrivial();
    s.close();
}
