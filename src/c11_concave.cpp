#include "pairs.h"
#include "contacts.h"

// Convex shape against a triangle mesh or height field: they overlap when the solid meets one of the triangles.
PBT_PROP(concave_pairs, 15000, 800000, "one convex shape and one triangle mesh or height field, 5 relative placements each (random near the surface, shifted along the axis of the closest triangle to a small signed distance); non-trivial: both a clear overlap and a clear separation") {
    GScene s(c); int cv = c.chance(0.5) ? 0 : 1; for (int i = 0; i < 2; i++) { GBody b; b.body = s.world->createRigidBody(Transform::identity()); s.bodies.push_back(b); int sh = s.addShape(i == cv ? 1 | 2 | 4 | 8 : 16 | 32); GCollider g; g.local = c.chance(0.7) ? Transform::identity() : place(c, 2); g.col = b.body->addCollider(s.shapes[sh].shape, g.local); g.shape = sh; s.bodies[i].cols.push_back(g); noteX(c, "collider", g.local); }
    const Shape &A = s.shapes[cv], &B = s.shapes[1 - cv]; GBody &ba = s.bodies[cv], &bb = s.bodies[1 - cv]; bool yes = false, no = false; double sz = A.size + B.size;
    auto eval = [&](double& sd, double& tol, V& n) {
        Poly pa = ref::transformed(A.poly, s.worldX(ba, ba.cols[0])); Xf x = s.worldX(bb, bb.cols[0]); sd = 1e300; tol = 0; double slack = 0;
        for (auto& t : B.tris) { Poly tri = ref::triangle(x * t[0], x * t[1], x * t[2]); ref::Sep r = ref::separation(pa, tri); slack = std::max(slack, ref::parallelSlack(pa, tri)); if (r.sd < sd) { sd = r.sd; n = r.n; } }
        tol = slack + (DP ? 1e-7 : 1e-2) * (sz + 0.1 * ref::len(rf(ba.body->getTransform().getPosition())) + 0.1 * ref::len(rf(bb.body->getTransform().getPosition())));
    };
    for (int k = 0; k < 5; k++) {
        Case::Span sp(c); Transform tb = k ? bb.body->getTransform() : place(c, c.chance(0.8) ? 2 : 30); const auto& t = B.tris[c.draw(B.tris.size() - 1)]; double u = c.unif(0, 1), v = c.unif(0, 1) * (1 - u); V on = t[0] + u * (t[1] - t[0]) + v * (t[2] - t[0]);
        Transform tw = tb * bb.cols[0].local; Vector3 p = tw * lib(on) + lib(c.unif(0, 1.5) * A.size * dir(c)); Transform ta(p, orient(c)); Transform bt = ta * ba.cols[0].local.getInverse(); bt.setOrientation(bt.getOrientation().getUnit()); if (!k) bb.body->setTransform(tb); ba.body->setTransform(bt);
        double sd, tol; V n; eval(sd, tol, n);
        if (c.chance(0.5)) { double want = (c.chance(0.5) ? 1 : -1) * c.logReal(DP ? 1e-6 : 2e-2, 0.5) * A.size; bt.setPosition(bt.getPosition() + lib((sd - want) * n)); ba.body->setTransform(bt); eval(sd, tol, n); c.label("near touching"); }
        noteX(c, "convex at", ba.body->getTransform()); noteX(c, "concave at", bb.body->getTransform()); c.note("separation %.12g", sd);
        if (std::fabs(sd) < tol) { c.label("undecided"); continue; }
        (sd < 0 ? yes : no) = true; c.label(sd < 0 ? "overlap" : "separated"); expect(c, s.world, s.bodies[0].body, s.bodies[1].body, sd < 0 ? 1 : -1, sd, KIND[s.shapes[0].kind], KIND[s.shapes[1].kind]);
        if (sd > -3 * tol) continue;
        Contacts cc; s.world->testCollision(s.bodies[0].body, s.bodies[1].body, cc); if (cc.pairs.empty()) continue;
        const CPair& q = cc.pairs[0]; bool mesh1 = q.c1 == bb.cols[0].col; Xf xm = s.worldX(bb, bb.cols[0]); Poly pa = ref::transformed(A.poly, s.worldX(ba, ba.cols[0])); double st = tol + 0.0015;
        for (auto& x : q.pts) {
            V pm = mesh1 ? x.p1 : x.p2, po = mesh1 ? x.p2 : x.p1, n = mesh1 ? x.n : -1.0 * x.n;   // n: from the mesh to the convex shape
            c.note("contact n (%.9g %.9g %.9g) depth %.9g on mesh (%.9g %.9g %.9g) on convex (%.9g %.9g %.9g)", n.x, n.y, n.z, x.depth, pm.x, pm.y, pm.z, po.x, po.y, po.z);
            c.check(std::fabs(ref::len(x.n) - 1) < (DP ? 1e-9 : 1e-4), "contact normal of a %s has length %.12g", KIND[A.kind], ref::len(x.n));
            c.check(x.depth > 0 && x.depth < 2 * A.size + st, "contact depth %.9g of a %s of size %.9g", x.depth, KIND[A.kind], A.size);
            c.check(ref::len(pm - po - x.depth * n) < st, "contact points of a %s and a %s differ by %.9g from depth times normal", KIND[A.kind], KIND[B.kind], ref::len(pm - po - x.depth * n));
            double dm = 1e300, dd = 1e300; Poly pt = ref::point(0); pt.v = {pm}; for (auto& t : B.tris) { Poly tri = ref::triangle(xm * t[0], xm * t[1], xm * t[2]); dm = std::min(dm, ref::separation(pt, tri).sd); if (A.kind == SPHERE) dd = std::min(dd, std::fabs(pa.r - x.depth - std::fabs(ref::separation(Poly{pa.v, {}, {}, {}, 0}, tri).sd))); }
            c.check(dm < st + (A.kind == SPHERE ? 0 : 0.5 * A.size), "contact point of a %s is %.9g away from the triangles of the %s", KIND[A.kind], dm, KIND[B.kind]);
            if (A.kind == SPHERE) c.check(dd < st, "contact depth %.9g of a sphere is %.9g off its overlap with any triangle", x.depth, dd);
        }
    }
    if (yes && no) c.nontrivial();
    s.close();
}
