#include "pairs.h"

PBT_PROP(convex_pairs, 60000, 3000000, "two convex shapes of all kinds in one world, 6 relative placements each (free, axis-aligned, shifted along the separating axis to a small signed distance, concentric), the same placement under a common rigid motion; non-trivial: both a clear overlap and a clear separation") {
    GScene s(c); unsigned m = 1 | 2 | 4 | 8; for (int i = 0; i < 2; i++) { GBody b; b.body = s.world->createRigidBody(Transform::identity()); s.bodies.push_back(b); int sh = s.addShape(m); GCollider g; g.local = c.chance(0.7) ? Transform::identity() : place(c, 2); g.col = b.body->addCollider(s.shapes[sh].shape, g.local); g.shape = sh; s.bodies[i].cols.push_back(g); noteX(c, "collider", g.local); }
    const Shape &A = s.shapes[0], &B = s.shapes[1]; const char *ka = KIND[A.kind], *kb = KIND[B.kind]; bool yes = false, no = false; double sz = A.size + B.size;
    for (int k = 0; k < 6; k++) {
        Case::Span sp(c); Transform ta = c.chance(0.3) && k ? s.bodies[0].body->getTransform() : place(c, c.chance(0.8) ? 2 : 30), tb; int mode = c.weighted({3, 4, 1, 2}); V off = c.unif(0, 1.2) * sz * dir(c);
        Quaternion qb = c.chance(0.3) ? ta.getOrientation() : orient(c); if (c.chance(0.15)) { Quaternion e = orient(c); Quaternion small(decimal(e.x * 1e-4), decimal(e.y * 1e-4), decimal(e.z * 1e-4), 1); qb = ta.getOrientation() * small; qb.normalize(); c.label("almost parallel"); }
        if (mode == 2) { off = V(); c.label("concentric"); }
        if (mode == 3) { off = c.real(0, 1) * sz * rf(ta.getOrientation() * lib(V{c.intIn(-1, 1) * 1.0, c.intIn(-1, 1) * 1.0, c.intIn(-1, 1) * 1.0})); }
        tb = Transform(ta.getPosition() + lib(off), qb);
        // the bodies are placed such that the colliders get these transforms
        auto bodyT = [&](const Transform& w, const GCollider& g) { return w * g.local.getInverse(); };
        auto put = [&](const Transform& x, const Transform& y, double& sd, double& tol) { Transform p = bodyT(x, s.bodies[0].cols[0]), q = bodyT(y, s.bodies[1].cols[0]); p.setOrientation(p.getOrientation().getUnit()); q.setOrientation(q.getOrientation().getUnit()); s.bodies[0].body->setTransform(p); s.bodies[1].body->setTransform(q); Poly pa = ref::transformed(A.poly, s.worldX(s.bodies[0], s.bodies[0].cols[0])), pb = ref::transformed(B.poly, s.worldX(s.bodies[1], s.bodies[1].cols[0])); ref::Sep r = ref::separation(pa, pb); sd = r.sd; tol = ref::parallelSlack(pa, pb) + (DP ? 1e-7 : 1e-2) * (sz + 0.1 * ref::len(rf(p.getPosition()))); return r; };
        double sd, tol; ref::Sep r = put(ta, tb, sd, tol);
        if (mode == 1) { double want = (c.chance(0.5) ? 1 : -1) * c.logReal(DP ? 1e-6 : 3e-3, 0.5) * sz * 0.5; V sh = (want - sd) * r.n; tb = Transform(tb.getPosition() + lib(sh), tb.getOrientation()); put(ta, tb, sd, tol); c.label("near touching"); }
        noteX(c, "A at", s.bodies[0].body->getTransform()); noteX(c, "B at", s.bodies[1].body->getTransform()); c.note("separation %.12g", sd);
        if (std::fabs(sd) < tol) { c.label("undecided"); continue; }
        (sd < 0 ? yes : no) = true; c.label(sd < 0 ? "overlap" : "separated"); expect(c, s.world, s.bodies[0].body, s.bodies[1].body, sd < 0 ? 1 : -1, sd, ka, kb);
        if (c.chance(0.3)) {   // common rigid motion
            Transform g = place(c, 5); double sd2; put(g * ta, g * tb, sd2, tol); if (std::fabs(sd2) < tol * 2) continue; c.note("moved by a rigid motion"); expect(c, s.world, s.bodies[0].body, s.bodies[1].body, sd < 0 ? 1 : -1, sd2, ka, kb);
        }
    }
    if (yes && no) c.nontrivial();
    s.close();
}
