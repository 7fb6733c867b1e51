#include "geo.h"
using namespace gen;

PBT_PROP(bounds_history, 40000, 2000000, "scenes of 1-3 bodies with 1-3 colliders of every kind, histories of moving, resizing, rescaling, removing colliders, changing body types and stepping under gravity, all bounds compared after each operation; non-trivial: at least 3 operations and a rotated or scaled collider") {
    GScene s(c); int nb = c.intIn(1, 3); double range = c.chance(0.5) ? 3 : 30; bool interesting = false; const double E = DP ? 1e-9 : 2e-4;
    for (int i = 0; i < nb; i++) { Case::Span sp(c); s.addBody(range); GBody& b = s.bodies.back(); int k = c.weighted({2, 1, 1}); if (k) b.body->setType(k == 1 ? BodyType::STATIC : BodyType::KINEMATIC); int nc = c.intIn(c.chance(0.05) ? 0 : 1, 3); for (int j = 0; j < nc; j++) s.addCollider(b, k ? 63 : 15); if (!k && !b.cols.empty() && c.chance(0.5)) b.body->updateMassPropertiesFromColliders(); b.body->setAngularVelocity(lib(vec(c, 3))); }
    auto verify = [&](const char* when) {
        for (auto& b : s.bodies) {
            V blo{1e300, 1e300, 1e300}, bhi{-1e300, -1e300, -1e300};
            for (auto& g : b.cols) {
                const Shape& sh = s.shapes[g.shape]; Xf w = s.worldX(b, g); double tol = E * (10 + ref::len(w.t) + sh.size * 10);
                AABB a = g.col->getWorldAABB(), l = sh.shape->getLocalBounds(), wa = s.world->getWorldAABB(g.col); const bool fresh = !s.stale.count(g.shape);   // the broad phase learns about a resized shape at the next update
                if (fresh) for (int i = 0; i < 3; i++) c.check(wa.getMin()[i] <= a.getMin()[i] + tol && wa.getMax()[i] >= a.getMax()[i] - tol, "%s: PhysicsWorld::getWorldAABB [%g, %g] of a %s does not contain its AABB [%g, %g]", when, (double)wa.getMin()[i], (double)wa.getMax()[i], KIND[sh.kind], (double)a.getMin()[i], (double)a.getMax()[i]);
                double rad = sh.convex ? sh.poly.r : 0;
                sh.eachPoint([&](V p) {
                    V q = w * p; for (int i = 0; i < 3; i++) {
                        c.check(p[i] - rad >= l.getMin()[i] - tol && p[i] + rad <= l.getMax()[i] + tol, "%s: local bounds [%g, %g] of a %s miss the point at %g (axis %d, margin %g)", when, (double)l.getMin()[i], (double)l.getMax()[i], KIND[sh.kind], p[i], i, rad);
                        c.check(q[i] - rad >= a.getMin()[i] - tol && q[i] + rad <= a.getMax()[i] + tol, "%s: world AABB [%g, %g] of a %s misses the point at %g (axis %d, margin %g)", when, (double)a.getMin()[i], (double)a.getMax()[i], KIND[sh.kind], q[i], i, rad);
                    } });
                // not larger than the transformed local bounds
                V lo{1e300, 1e300, 1e300}, hi{-1e300, -1e300, -1e300}; for (int k = 0; k < 8; k++) { V q = w * V{k & 1 ? l.getMax().x : l.getMin().x, k & 2 ? l.getMax().y : l.getMin().y, k & 4 ? l.getMax().z : l.getMin().z}; for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], q[i]); hi[i] = std::max(hi[i], q[i]); } }
                for (int i = 0; i < 3; i++) { c.check(a.getMin()[i] >= lo[i] - tol && a.getMax()[i] <= hi[i] + tol, "%s: world AABB [%g, %g] of a %s is larger than its transformed local bounds [%g, %g] (axis %d)", when, (double)a.getMin()[i], (double)a.getMax()[i], KIND[sh.kind], lo[i], hi[i], i); blo[i] = std::min<double>(blo[i], a.getMin()[i]); bhi[i] = std::max<double>(bhi[i], a.getMax()[i]); }
                // box queries
                V m = vec(c, 1), h{c.real(0.01, 2), c.real(0.01, 2), c.real(0.01, 2)}; V ce; for (int i = 0; i < 3; i++) ce[i] = (lo[i] + hi[i]) / 2 + m[i] * ((hi[i] - lo[i]) / 2 + h[i]) * 1.1; AABB q(lib(ce - h), lib(ce + h)); bool want = true, clear = true; for (int i = 0; i < 3; i++) { double d = std::max<double>(a.getMin()[i] - q.getMax()[i], q.getMin()[i] - a.getMax()[i]); if (d > 0) want = false; if (std::fabs(d) < tol) clear = false; }
                if (clear) c.check(g.col->testAABBOverlap(q) == want, "%s: Collider::testAABBOverlap is %d, the boxes %s", when, !want, want ? "overlap" : "do not overlap");
                if (ref::qangle(w.q, Q()) > 0.1 || sh.scale.x != 1) interesting = true;
            }
            if (b.cols.empty()) continue;
            AABB a = b.body->getAABB(); double tol = E * 100; for (int i = 0; i < 3; i++) c.check(a.getMin()[i] <= blo[i] + tol && a.getMax()[i] >= bhi[i] - tol && a.getMin()[i] >= blo[i] - tol && a.getMax()[i] <= bhi[i] + tol, "%s: body AABB [%g, %g] is not the union [%g, %g] of its %zu colliders (axis %d)", when, (double)a.getMin()[i], (double)a.getMax()[i], blo[i], bhi[i], b.cols.size(), i);
            V ce; double hw = c.real(0.01, 2); for (int i = 0; i < 3; i++) ce[i] = (blo[i] + bhi[i]) / 2 + c.real(-1, 1) * ((bhi[i] - blo[i]) / 2 + hw) * 1.1; AABB q(lib(ce - V{hw, hw, hw}), lib(ce + V{hw, hw, hw})); bool want = true, clear = true; for (int i = 0; i < 3; i++) { double d = std::max(blo[i] - q.getMax()[i], q.getMin()[i] - bhi[i]); if (d > 0) want = false; if (std::fabs(d) < tol) clear = false; } if (clear) c.check(b.body->testAABBOverlap(q) == want, "%s: Body::testAABBOverlap is %d, the boxes %s", when, !want, want ? "overlap" : "do not overlap");
        }
    };
    verify("after creation"); int n = 0;
    while (c.more(n, 6, 25)) {
        if (c.chance(0.6)) { s.mutate(range); verify("after a change"); }
        else if (c.chance(0.7)) { int k = c.intIn(1, 4); for (int i = 0; i < k; i++) { s.world->update(decimal(1.0 / 60)); s.stale.clear(); } c.note("step %d", k); for (auto& b : s.bodies) { V p = rf(b.body->getTransform().getPosition()); if (!ref::finite(p) || ref::len(p) > 1e3) c.discard(); } verify("after a step"); }
        else { GBody& b = s.bodies[c.draw(s.bodies.size() - 1)]; bool conc = false; for (auto& g : b.cols) conc = conc || !s.shapes[g.shape].convex; if (!conc) { b.body->setType(c.pick(std::vector<BodyType>{BodyType::STATIC, BodyType::KINEMATIC, BodyType::DYNAMIC})); c.note("setType"); verify("after setType"); } }
    }
    if (n >= 3 && interesting) c.nontrivial();
    s.close();
}
