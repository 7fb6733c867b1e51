#include "motion.h"
using namespace gen;

// volume and inertia of the reference solid (unit density mass given)
static double polyVolume(const Poly& p) { double s = 0; for (auto& f : p.f) for (size_t i = 1; i + 1 < f.size(); i++) s += ref::dot(p.v[f[0]], ref::cross(p.v[f[i]], p.v[f[i + 1]])); return std::fabs(s) / 6; }
static V boxInertia(V h, double m) { return {m * (h.y * h.y + h.z * h.z) / 3, m * (h.x * h.x + h.z * h.z) / 3, m * (h.x * h.x + h.y * h.y) / 3}; }
static V halfBox(const Shape& s) { V lo{1e300, 1e300, 1e300}, hi{-1e300, -1e300, -1e300}; s.eachPoint([&](V p) { for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], p[i]); hi[i] = std::max(hi[i], p[i]); } }); return 0.5 * (hi - lo); }
static double volume(const Shape& s) {
    const double PI = 3.14159265358979323846; double r = s.poly.r;
    switch (s.kind) { case SPHERE: return 4 * PI / 3 * r * r * r; case CAPSULE: { double h = ref::len(s.poly.v[0] - s.poly.v[1]); return PI * r * r * h + 4 * PI / 3 * r * r * r; } case BOX: { V h = halfBox(s); return 8 * h.x * h.y * h.z; } case CONVEX: return polyVolume(s.poly); default: { V h = halfBox(s); return 8 * h.x * h.y * h.z; } }
}
static V inertia(const Shape& s, double m) {
    double r = s.poly.r;
    switch (s.kind) {
        case SPHERE: { double i = 0.4 * m * r * r; return {i, i, i}; }
        case CAPSULE: {   // slices perpendicular to the axis: midpoint integration with Richardson extrapolation is not needed, 3-point Gauss is exact for the polynomials
            double h = ref::len(s.poly.v[0] - s.poly.v[1]) / 2, vol = 0, ay = 0, ax = 0; const double g[3] = {-std::sqrt(0.6), 0, std::sqrt(0.6)}, gw[3] = {5.0 / 9, 8.0 / 9, 5.0 / 9};
            auto part = [&](double a, double b, auto rad2) { for (int k = 0; k < 3; k++) { double y = (a + b) / 2 + (b - a) / 2 * g[k], w = (b - a) / 2 * gw[k], q = rad2(y), A = 3.14159265358979323846 * q; vol += w * A; ay += w * A * q / 2; ax += w * A * (q / 4 + y * y); } };
            part(-h, h, [&](double) { return r * r; }); part(h, h + r, [&](double y) { return r * r - (y - h) * (y - h); }); part(-h - r, -h, [&](double y) { return r * r - (y + h) * (y + h); });
            return {m * ax / vol, m * ay / vol, m * ax / vol};
        }
        case BOX: case CONVEX: return boxInertia(halfBox(s), m);
        default: return {m, m, m};
    }
}
static const double E = DP ? 1e-9 : 2e-4;

PBT_PROP(shape_mass, 40000, 2000000, "a shape of any kind with 0-5 changes of size or scale: volume against tetrahedra or closed forms, inertia against slice integration or the bounding box; non-trivial: capsule, convex mesh or a resized shape") {
    TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base);
    { Shape s = shape(c, *pc); int n = c.intIn(0, 5); for (int i = 0; i <= n; i++) { double v = volume(s), m = c.logReal(0.01, 100); double got = s.shape->getVolume(); c.check(std::fabs(got - v) <= E * v * 3, "volume of a %s is %.12g, expected %.12g", KIND[s.kind], got, v);
        V I = inertia(s, m), J = rf(s.shape->getLocalInertiaTensor(decimal(m))); for (int k = 0; k < 3; k++) c.check(std::fabs(I[k] - J[k]) <= E * I[k] * 3, "inertia of a %s about axis %d is %.12g, expected %.12g", KIND[s.kind], k, J[k], I[k]);
        if (s.kind == CONVEX) { double bv = polyVolume(s.base), gv = s.cmesh->getVolume(); c.check(std::fabs(bv - gv) <= E * bv * 3, "volume of the convex mesh is %.12g, expected %.12g", gv, bv); }
        if (s.kind == CAPSULE || s.kind == CONVEX || i) c.nontrivial(); if (i < n) resize(c, s); } }
    pc.reset(); base.verifyEmpty(c, "PhysicsCommon");
}

PBT_PROP(body_mass, 25000, 1000000, "a body with 0-5 colliders of all shapes, densities and local transforms, 5-60 operations: collider changes, resizing, motion, type and state changes, manual settings and all four update functions, which are compared with sums over the reference solids; the response to a force and a torque must use them; non-trivial: an update function with two or more colliders") {
    PhysicsWorld::WorldSettings ws; ws.gravity = Vector3(0, 0, 0); Scene s(c, ws); s.maxCols = 5; s.range = 3; bool nt = false; std::map<Collider*, double> dens; SBody* b = s.createBody(place(c, 3), BodyType::DYNAMIC); RigidBody* r = b->body; SBody* other = c.chance(0.5) ? s.createBody(Transform(Vector3(200, 0, 0), Quaternion::identity()), BodyType::DYNAMIC) : nullptr; if (other) s.addCollider(other);
    double mass = 1; V I{1, 1, 1}, com{0, 0, 0}; auto add = [&]() { SCol* k = s.addCollider(b); dens[k->col] = 1; };
    auto sums = [&](double& m, V& cm) { m = 0; cm = {0, 0, 0}; for (auto& k : b->cols) { double q = dens[k.col] * volume(s.shapes[k.shape]); m += q; cm = cm + q * rf(k.local.getPosition()); } if (m > 0) cm = (1 / m) * cm; };
    auto tensor = [&](V about) { V t{0, 0, 0}; for (auto& k : b->cols) { const Shape& sh = s.shapes[k.shape]; double q = dens[k.col] * volume(sh); V i = inertia(sh, q), o = rf(k.local.getPosition()) - about; ref::M3 R = ref::mat(rf(k.local.getOrientation())); for (int a = 0; a < 3; a++) { double d = 0; for (int j = 0; j < 3; j++) { V ej{double(j == 0), double(j == 1), double(j == 2)}; V Re = R * ej; d += Re[a] * Re[a] * i[j]; } t[a] += d + q * (ref::dot(o, o) - o[a] * o[a]); } } return t; };
    auto scaleOf = [&]() { double z = 1; for (auto& k : b->cols) z = std::max(z, ref::len(rf(k.local.getPosition()))); return z; };
    auto agree = [&](const char* what) {
        double gm = r->getMass(); V gi = rf(r->getLocalInertiaTensor()), gc = rf(r->getLocalCenterOfMass()); double z = scaleOf() + ref::len(com);
        c.check(std::fabs(gm - mass) <= E * mass * 3, "%s: mass is %.12g, expected %.12g", what, gm, mass);
        c.check(ref::len(gc - com) <= E * z, "%s: centre of mass is %.12g %.12g %.12g, expected %.12g %.12g %.12g", what, gc.x, gc.y, gc.z, com.x, com.y, com.z);
        for (int a = 0; a < 3; a++) c.check(std::fabs(gi[a] - I[a]) <= E * (I[a] * 10 + mass * z * z * 0), "%s: inertia about axis %d is %.12g, expected %.12g", what, a, gi[a], I[a]);
        mass = gm; I = gi; com = gc;   // follow the rounding
    };
    int nc = c.intIn(0, 4); for (int i = 0; i < nc; i++) add();
    int n = 0; while (c.more(n, 20, 60)) {
        Case::Span sp(c); Xf X0 = rf(r->getTransform()); V v0 = rf(r->getLinearVelocity()), w0 = rf(r->getAngularVelocity()), c0 = X0 * com; bool dyn = b->type == BodyType::DYNAMIC; int kind = 0; const char* what = "";
        switch (c.weighted({2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 2, 3})) {
            case 0: if (b->cols.size() < 5) { add(); what = "addCollider"; } break;
            case 1: if (!b->cols.empty()) { size_t i = c.draw(b->cols.size() - 1); r->removeCollider(b->cols[i].col); dens.erase(b->cols[i].col); b->cols.erase(b->cols.begin() + i); what = "removeCollider"; } break;
            case 2: if (!b->cols.empty()) { SCol& k = b->cols[c.draw(b->cols.size() - 1)]; Transform t = place(c, 2); k.col->setLocalToBodyTransform(t); k.local = t; what = "setLocalToBodyTransform"; } break;
            case 3: if (!b->cols.empty()) { SCol& k = b->cols[c.draw(b->cols.size() - 1)]; decimal d = decimal(c.chance(0.1) ? 0 : c.logReal(0.01, 100)); if (c.chance(0.5)) k.col->getMaterial().setMassDensity(d); else { Material m = k.col->getMaterial(); m.setMassDensity(d); k.col->setMaterial(m); } dens[k.col] = d; what = "density"; } break;
            case 4: if (!b->cols.empty()) { resize(c, s.shapes[b->cols[c.draw(b->cols.size() - 1)].shape]); what = "resize"; } break;
            case 5: { what = "updateMassFromColliders"; r->updateMassFromColliders(); V x; sums(mass, x); kind = 1; break; }
            case 6: { what = "updateLocalCenterOfMassFromColliders"; r->updateLocalCenterOfMassFromColliders(); double x; sums(x, com); kind = 2; break; }
            case 7: { what = "updateLocalInertiaTensorFromColliders"; r->updateLocalInertiaTensorFromColliders(); I = tensor(com); kind = 1; break; }
            case 8: { what = "updateMassPropertiesFromColliders"; r->updateMassPropertiesFromColliders(); sums(mass, com); I = tensor(com); kind = 3; break; }
            case 9: { what = "setMass"; decimal m = decimal(c.chance(0.1) ? 0 : c.logReal(0.01, 100)); r->setMass(m); mass = m; break; }
            case 10: { what = "setLocalInertiaTensor"; Vector3 v(decimal(c.logReal(0.01, 100)), decimal(c.logReal(0.01, 100)), decimal(c.logReal(0.01, 100))); r->setLocalInertiaTensor(v); I = rf(v); break; }
            case 11: { what = "setLocalCenterOfMass"; Vector3 v = lib(vec(c, 2)); r->setLocalCenterOfMass(v); com = rf(v); kind = 2; break; }
            case 12: { what = "setTransform"; r->setTransform(place(c, 3)); break; }
            case 13: { what = "velocity"; r->setLinearVelocity(lib(vec(c, 3))); r->setAngularVelocity(lib(vec(c, 3))); break; }
            case 14: { what = "type or state"; int k = c.intIn(0, 3); if (k == 0) { b->type = static_cast<BodyType>(c.weighted({1, 1, 4})); r->setType(b->type); } else if (k == 1) r->setIsSleeping(c.chance(0.5)); else if (k == 2) { b->active = c.chance(0.6); r->setIsActive(b->active); } else r->setMass(decimal(-1)); break; }
            case 15: {   // the response to a force and a torque uses these properties
                what = "update"; V f = vec(c, 10), t = vec(c, 10); r->applyWorldForceAtCenterOfMass(lib(f)); r->applyWorldTorque(lib(t)); Motion m0 = state(r); bool en = s.enabled(*b); s.world->update(decimal(0.01)); Motion m1 = state(r); if (r->isSleeping()) break; double dt = decimal(0.01);
                V dv, dw; if (en && dyn) { dv = (mass > 0 ? dt / mass : 0) * f; ref::M3 R = ref::mat(m0.q); dw = dt * (R * ref::mul(V{inv0(I.x), inv0(I.y), inv0(I.z)}, ref::transpose(R) * t)); }
                c.check(ref::len(m1.v - m0.v - dv) <= E * (1 + ref::len(m0.v) + ref::len(dv)) , "a force changes the velocity by %.9g %.9g %.9g, expected %.9g %.9g %.9g", m1.v.x - m0.v.x, m1.v.y - m0.v.y, m1.v.z - m0.v.z, dv.x, dv.y, dv.z);
                c.check(ref::len(m1.w - m0.w - dw) <= E * (1 + ref::len(m0.w) + ref::len(dw)), "a torque changes the angular velocity by %.9g %.9g %.9g, expected %.9g %.9g %.9g", m1.w.x - m0.w.x, m1.w.y - m0.w.y, m1.w.z - m0.w.z, dw.x, dw.y, dw.z); break;
            }
        }
        c.note("%s", what); agree(what);
        if (kind) {   // placement is unchanged, the velocity field of the body too
            if (b->cols.size() >= 2 || kind == 2) nt = true; Xf X1 = rf(r->getTransform()); V v1 = rf(r->getLinearVelocity()), w1 = rf(r->getAngularVelocity()), c1 = X1 * com;
            c.check(ref::len(X1.t - X0.t) == 0 && qdist(X1.q, X0.q) == 0, "%s: the body moved", what); c.check(ref::len(w1 - w0) == 0, "%s: the angular velocity changed", what);
            if (kind == 2 || (kind == 3 && dyn)) { V ve = v0 + ref::cross(w0, c1 - c0); c.check(ref::len(v1 - ve) <= E * (1 + ref::len(v0) + ref::len(w0) * (1 + ref::len(c1) + ref::len(c0))), "%s: the velocity of the centre of mass is %.9g %.9g %.9g, expected %.9g %.9g %.9g", what, v1.x, v1.y, v1.z, ve.x, ve.y, ve.z); }
            if (kind == 1) c.check(ref::len(v1 - v0) == 0, "%s: the velocity changed", what);
        }
    }
    if (nt) c.nontrivial(); s.close();
}
