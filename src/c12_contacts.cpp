#include "contacts.h"
using namespace gen;

// A capsule (nearly) in the plane of a face of a polyhedron: the face and an edge give the same least overlap and the
// lateral position of the contact is not determined.
static bool capsuleTie(const Poly& cap, const Shape& ca, const Poly& p, const Shape& sp) {
    if (ca.kind != CAPSULE || p.r > 0) return false; (void)sp; V d = ref::unit(cap.v[1] - cap.v[0]);
    for (auto& n : p.fn) if (std::fabs(ref::dot(n, d)) < 5e-3) return true;
    return false;
}
PBT_PROP(convex_contacts, 60000, 2500000, "two overlapping convex shapes of all kinds, 5 relative placements each from touching to concentric; non-trivial: at least one placement with a clear overlap") {
    GScene s(c); unsigned m = 1 | 2 | 4 | 8; for (int i = 0; i < 2; i++) { GBody b; b.body = s.world->createRigidBody(Transform::identity()); s.bodies.push_back(b); int sh = s.addShape(m); GCollider g; g.local = c.chance(0.7) ? Transform::identity() : place(c, 2); g.col = b.body->addCollider(s.shapes[sh].shape, g.local); g.shape = sh; s.bodies[i].cols.push_back(g); noteX(c, "collider", g.local); }
    const Shape &A = s.shapes[0], &B = s.shapes[1]; const char *ka = KIND[A.kind], *kb = KIND[B.kind]; bool any = false; double sz = A.size + B.size;
    for (int k = 0; k < 5; k++) {
        Case::Span sp(c); Transform ta = place(c, c.chance(0.9) ? 2 : 20), tb; int mode = c.weighted({3, 5, 1, 1}); V off = c.unif(0, 1.0) * sz * dir(c); Quaternion qb = c.chance(0.3) ? ta.getOrientation() : orient(c);
        if (mode == 2) { off = V(); c.label("concentric"); } if (mode == 3) off = c.real(0, 1) * sz * rf(ta.getOrientation() * lib(V{c.intIn(-1, 1) * 1.0, c.intIn(-1, 1) * 1.0, c.intIn(-1, 1) * 1.0}));
        tb = Transform(ta.getPosition() + lib(off), qb);
        auto put = [&](GBody& b, const Transform& w) { Transform p = w * b.cols[0].local.getInverse(); p.setOrientation(p.getOrientation().getUnit()); b.body->setTransform(p); };
        put(s.bodies[0], ta); put(s.bodies[1], tb); Poly P[2]; auto polys = [&] { P[0] = ref::transformed(A.poly, s.worldX(s.bodies[0], s.bodies[0].cols[0])); P[1] = ref::transformed(B.poly, s.worldX(s.bodies[1], s.bodies[1].cols[0])); }; polys(); ref::Sep r = ref::separation(P[0], P[1]);
        if (mode == 1) { double want = -c.logReal(DP ? 1e-5 : 1e-2, 0.8) * std::min(A.size, B.size); put(s.bodies[1], Transform(tb.getPosition() + lib((want - r.sd) * r.n), tb.getOrientation())); polys(); r = ref::separation(P[0], P[1]); c.label("shallow"); }
        if (r.sd >= 0) continue;
        noteX(c, "A at", s.bodies[0].body->getTransform()); noteX(c, "B at", s.bodies[1].body->getTransform()); c.note("separation %.12g", r.sd);
        double par = ref::parallelSlack(P[0], P[1]), tol = (DP ? 1e-6 : 2e-2) * (sz + 0.1 * ref::len(rf(ta.getPosition()))) + par;
        Contacts cc; bool swap = c.chance(0.5); if (swap) s.world->testCollision(s.bodies[1].body, s.bodies[0].body, cc); else s.world->testCollision(s.bodies[0].body, s.bodies[1].body, cc);
        if (cc.pairs.empty()) { c.check(r.sd > -tol, "no contact for an overlap of %.9g", -r.sd); continue; }
        const CPair& q = cc.pairs[0]; bool first = q.c1 == s.bodies[0].cols[0].col; const Poly &P1 = first ? P[0] : P[1], &P2 = first ? P[1] : P[0]; c.check(!q.pts.empty(), "a pair without contact points"); c.check(q.b1 == (first ? s.bodies[0] : s.bodies[1]).body && q.b2 == (first ? s.bodies[1] : s.bodies[0]).body, "colliders and bodies of the pair do not match");
        double deepest = -1; V n; for (auto& x : q.pts) if (x.depth > deepest) { deepest = x.depth; n = x.n; }
        double over = -ref::sepAlong(P1, P2, n) + P1.r + P2.r, best = -r.sd;
        bool tie = capsuleTie(P[0], A, P[1], B) || capsuleTie(P[1], B, P[0], A); if (tie) c.label("capsule along a face or edge");
        if (capsuleTie(P[0], A, P[1], B)) par += 0.003 * ref::len(P[0].v[1] - P[0].v[0]); if (capsuleTie(P[1], B, P[0], A)) par += 0.003 * ref::len(P[1].v[1] - P[1].v[0]); tol += par;
        for (auto& x : q.pts) {
            c.note("contact n (%.9g %.9g %.9g) depth %.9g p1 (%.9g %.9g %.9g) p2 (%.9g %.9g %.9g)", x.n.x, x.n.y, x.n.z, x.depth, x.p1.x, x.p1.y, x.p1.z, x.p2.x, x.p2.y, x.p2.z);
            c.check(std::fabs(ref::len(x.n) - 1) < (DP ? 1e-9 : 1e-4), "contact normal of %s and %s has length %.12g", ka, kb, ref::len(x.n));
            double ov = -ref::sepAlong(P1, P2, x.n) + P1.r + P2.r; c.check(x.depth > 0, "contact depth %.9g", x.depth); c.check(x.depth < ov + tol + 0.0015, "contact depth %.9g of %s and %s, the overlap along the normal is %.9g", x.depth, ka, kb, ov);
            double d1 = ref::pointDist(P1, x.p1), d2 = ref::pointDist(P2, x.p2); double st = tol + 0.0015 + 0.005 * best;
            if (over > best + (DP ? 1e-9 : 1e-6) * sz && A.kind >= BOX && B.kind >= BOX) { c.label("a face was preferred to a slightly better axis"); continue; }   // the deepest feature may then lie beside the reference face
            if (A.kind >= BOX && B.kind >= BOX && (A.kind == CONVEX || B.kind == CONVEX) && q.pts.size() == 1) { c.label("single vertex contact of a mesh"); continue; }   // any vertex of a deepest edge or face may be used
            if (!DP && (A.kind <= CAPSULE) != (B.kind <= CAPSULE) && std::fabs(best - P[0].r - P[1].r) < 3e-3 * sz) { c.label("cores nearly touch"); continue; }
            c.check(std::fabs(d1) < st && std::fabs(d2) < st, "contact points of %s and %s are %.9g and %.9g off the surfaces (overlap %.9g)", ka, kb, d1, d2, best);
            V diff = x.p1 - x.p2; double along = ref::dot(diff, x.n); c.check(std::fabs(along - x.depth) < st + 0.002, "contact points of %s and %s are %.9g apart along the normal, the depth is %.9g", ka, kb, along, x.depth);
            if (!tie) c.check(ref::len(diff - along * x.n) < st + 0.002, "contact points of %s and %s differ by (%.9g %.9g %.9g), depth times normal is (%.9g %.9g %.9g)", ka, kb, diff.x, diff.y, diff.z, x.depth * x.n.x, x.depth * x.n.y, x.depth * x.n.z);
        }
        if (best > tol) { any = true;
            c.check(over < best * 1.005 + 0.0015 + tol + (DP ? 0 : 0.25 * sz), "contact normal of %s and %s needs a depth of %.9g, the least is %.9g", ka, kb, over, best);
            bool bb = A.kind >= BOX && B.kind >= BOX, exact = over <= best + (DP ? 1e-9 : 1e-4) * sz; double least = bb ? 0.25 * over - 0.015 : over - 0.0015 - 0.005 * over;   // points closer than 1 cm are merged, more than four are reduced
            if (DP || bb) if ((bb && exact) || A.kind < BOX || B.kind < BOX) c.check(deepest > least - tol, "deepest contact of %s and %s is %.9g, but the overlap along its normal is %.9g", ka, kb, deepest, over);
        }
    }
    if (any) c.nontrivial();
    s.close();
}
