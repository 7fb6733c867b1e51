#include "motion.h"
#include "geo.h"
#include "contacts.h"
using namespace gen;

namespace {
int every() { const char* s = getenv("EVERY"); return s ? atoi(s) : 20; }
struct Lst : EventListener { Case& c; Lst(Case& c_) : c(c_) {} bool on = false; void onContact(const CollisionCallback::CallbackData& d) override { if (!on) return; for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto p = Contacts::get(d.getContactPair(i)); for (auto& k : p.pts) c.note("   contact %.5f %.5f %.5f / %.5f %.5f %.5f n %.5f %.5f %.5f depth %.6f", k.p1.x, k.p1.y, k.p1.z, k.p2.x, k.p2.y, k.p2.z, k.n.x, k.n.y, k.n.z, k.depth); } } };
// a body made of convex solids, in the frame of the support (gravity along -y)
struct Part { Shape s; Xf X; };
struct RBody { RigidBody* b = nullptr; std::vector<Part> parts; double m = 1; V I; };
// smallest half width of the solid over its face directions
double thin(const Shape& s) { if (s.poly.f.empty()) return s.poly.r; double t = 1e9; for (auto& n : s.poly.fn) t = std::min(t, 0.5 * (s.poly.support(n) + s.poly.support(-n))); return t; }
Shape solid(Case& c, PhysicsCommon& pc, bool hulls) {
    Shape s; switch (c.weighted({2, 2, 4, hulls ? 3 : 0})) {
        case 0: { decimal r = decimal(c.real(0.2, 1)); s.kind = SPHERE; s.shape = pc.createSphereShape(r); s.poly = ref::point(r); c.note("sphere r=%g", double(r)); break; }
        case 1: { decimal r = decimal(c.real(0.15, 0.6)), h = decimal(c.real(0.3, 1.5)); s.kind = CAPSULE; s.shape = pc.createCapsuleShape(r, h); s.poly = ref::segment(h, r); c.note("capsule r=%g h=%g", double(r), double(h)); break; }
        case 2: { Vector3 h = lib({c.real(0.2, 1), c.real(0.2, 1), c.real(0.2, 1)}); s.kind = BOX; s.shape = pc.createBoxShape(h); s.poly = ref::box(rf(h)); c.note("box half (%g %g %g)", double(h.x), double(h.y), double(h.z)); break; }
        default: { s.kind = CONVEX; s.base = polyhedron(c); s.cmesh = makeConvexMesh(c, pc, s.base); double k = c.real(0.35, 0.7); Vector3 sc = lib({k, k, k}); s.shape = pc.createConvexMeshShape(s.cmesh, sc); s.setScale(rf(sc)); if (thin(s) < 0.1) c.discard(); c.note("hull of %zu vertices", s.base.v.size()); if (c.verbose()) for (auto& v : s.poly.v) c.note("  v %.9g %.9g %.9g", v.x, v.y, v.z); break; }
    }
    s.computeSize(); c.label(KIND[s.kind]); return s;
}
struct Mat { double e, mu; };
Mat material(Case& c, bool plain) { return {c.chance(0.4) ? 0 : c.real(0, plain ? 0.5 : 0.8), c.real(plain ? 0.3 : 0, 1)}; }
void setMat(Collider* k, Mat m) { k->getMaterial().setBounciness(decimal(m.e)); k->getMaterial().setFrictionCoefficient(decimal(m.mu)); }
struct Rest {
    Case& c; TrackingAllocator base{0xCD, 0}; std::unique_ptr<PhysicsCommon> pc; PhysicsWorld* world = nullptr; Xf W; double g = 9.81, dt = 1.0 / 60; bool split = true; std::vector<RBody> bodies;
    Rest(Case& c_, bool longRun) : c(c_) {
        pc = std::make_unique<PhysicsCommon>(&base); PhysicsWorld::WorldSettings ws; g = c.chance(0.5) ? 9.81 : c.real(5, 15); ws.isSleepingEnabled = c.chance(0.6); W = Xf(); if (c.chance(0.5)) W = Xf(rf(orient(c)), vec(c, 3)); ws.gravity = lib(W.R * V{0, -g, 0}); world = pc->createPhysicsWorld(ws);
        split = c.chance(0.5); world->setContactsPositionCorrectionTechnique(split ? ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS); dt = longRun || c.chance(0.7) ? 1.0 / 60 : 1.0 / c.real(60, 150); c.note("gravity %g, %s, sleeping %d, dt %g", g, split ? "split impulses" : "Baumgarte", int(ws.isSleepingEnabled), dt);
    }
    Transform lt(const Xf& x) const { Xf y = W * x; return Transform(lib(y.t), Quaternion(decimal(y.q.x), decimal(y.q.y), decimal(y.q.z), decimal(y.q.w)).getUnit()); }
    Xf frame(const RBody& r) const { Xf x = rf(r.b->getTransform()); Q q{-W.q.x, -W.q.y, -W.q.z, W.q.w}; return Xf(q * x.q, W.inv(x.t)); }
    V com(const RBody& r) const { return W.inv(rf(r.b->getTransform() * r.b->getLocalCenterOfMass())); }
    V vel(const RBody& r) const { return ref::transpose(W.R) * rf(r.b->getLinearVelocity()); }
    template <class F> void eachPoint(const RBody& r, F f) const { Xf x = frame(r); for (auto& p : r.parts) { Xf y = x * p.X; for (auto& v : p.s.poly.v) f(y * v, p.s.poly.r); } }
    double lowest(const RBody& r) const { double m = 1e9; eachPoint(r, [&](V p, double rad) { m = std::min(m, p.y - rad); }); return m; }
    double energy(const RBody& r) const { V w = rf(r.b->getAngularVelocity()), l = ref::transpose(ref::mat(rf(r.b->getTransform().getOrientation()))) * w; V v = vel(r); return r.m * g * com(r).y + 0.5 * r.m * ref::dot(v, v) + 0.5 * ref::dot(l, ref::mul(r.I, l)); }
    void finish(RBody& r) { r.m = r.b->getMass(); r.I = rf(r.b->getLocalInertiaTensor()); }
    void support(Shape& s, const Transform& t, Mat m) { RigidBody* b = world->createRigidBody(t); b->setType(BodyType::STATIC); setMat(b->addCollider(s.shape, Transform::identity()), m); }
};
void ground(Case& c, Rest& R, int kind, Mat ms, std::vector<Shape>& keep) {
    Xf I;
    if (kind == 0) { double h = c.real(0.3, 2); keep.push_back(boxShape(*R.pc, {10, h, 10})); R.support(keep.back(), R.lt(Xf(Q{0, 0, 0, 1}, {0, -h, 0})), ms); c.label("on a box"); }
    else if (kind == 1) {
        int nx = c.intIn(2, 8), nz = c.intIn(2, 8); std::vector<V> vs; std::vector<std::array<int, 3>> ts; for (int i = 0; i < nx; i++) for (int j = 0; j < nz; j++) vs.push_back({-10 + 20.0 * i / (nx - 1), 0, -10 + 20.0 * j / (nz - 1)});
        for (int i = 0; i + 1 < nx; i++) for (int j = 0; j + 1 < nz; j++) { int a = i * nz + j, b = a + 1, d = a + nz, e = d + 1; if (c.chance(0.5)) { ts.push_back({a, b, d}); ts.push_back({d, b, e}); } else { ts.push_back({a, b, e}); ts.push_back({a, e, d}); } }
        Shape s; s.kind = TRIMESH; s.convex = false; s.tmesh = makeTriMesh(c, *R.pc, vs, ts); s.shape = R.pc->createConcaveMeshShape(s.tmesh); keep.push_back(s); R.support(keep.back(), R.lt(I), ms); c.label("on a mesh");
    } else { int n = c.intIn(3, 12); std::vector<double> h(n * n, 0); Shape s; s.kind = HEIGHTFIELD; s.convex = false; s.hf = makeHeightField(c, *R.pc, n, n, h); double k = 20.0 / (n - 1); s.shape = R.pc->createHeightFieldShape(s.hf, lib({k, 1, k})); keep.push_back(s); R.support(keep.back(), R.lt(I), ms); c.label("on a height field"); }
}
}

PBT_PROP(drop, 12000, 300000, "a body of one or two convex solids dropped from up to 0.4 m, turned anyhow or resting flat, on a static box, a flat triangle mesh or a flat height field, with generated material, gravity (any direction), time step, sleeping and correction technique; 4-24 simulated seconds: never below the support, no energy gained, at rest on a stable base at the end; non-trivial: it came to rest") {
    Rest R(c, true); int kind = c.weighted({3, 3, 3}); Mat ms = material(c, true); std::vector<Shape> keep; ground(c, R, kind, ms, keep);
    RBody r; int parts = c.chance(0.8) ? 1 : 2; for (int i = 0; i < parts; i++) { Part p; p.s = solid(c, *R.pc, kind == 0); Transform t = i == 0 && c.chance(0.7) ? Transform::identity() : Transform(lib(vec(c, 0.6)), orient(c)); p.X = rf(t); r.parts.push_back(p); } bool flat = c.chance(0.3);
    Xf x(flat ? Q{0, 0, 0, 1} : rf(orient(c)), {c.real(-2, 2), 0, c.real(-2, 2)}); if (flat && c.chance(0.5)) { double a = c.real(0, 3); x = Xf(Q{0, std::sin(a), 0, std::cos(a)}, x.t); } r.b = R.world->createRigidBody(R.lt(x)); Mat mb = material(c, true); for (auto& p : r.parts) { Collider* k = r.b->addCollider(p.s.shape, Transform(lib(p.X.t), Quaternion(decimal(p.X.q.x), decimal(p.X.q.y), decimal(p.X.q.z), decimal(p.X.q.w)))); setMat(k, mb); k->getMaterial().setMassDensity(decimal(c.logReal(0.2, 20))); } r.b->updateMassPropertiesFromColliders(); R.finish(r);
    double h0 = c.chance(0.2) ? 0 : c.real(0, 0.4); x.t.y -= R.lowest(r) - h0; r.b->setTransform(R.lt(x)); r.b->setLinearVelocity(Vector3(0, 0, 0)); if (c.chance(0.3)) r.b->setLinearVelocity(lib(R.W.R * V{c.real(-1, 1), 0, c.real(-1, 1)})); R.bodies.push_back(r);
    double E0 = R.energy(r), th = 1e9, size = 0; for (auto& p : r.parts) { th = std::min(th, thin(p.s)); size = std::max(size, p.s.size + ref::len(p.X.t)); } c.note("mass %g drop %g e %g mu %g smallest half width %g", r.m, h0, std::max(ms.e, mb.e), std::sqrt(ms.mu * mb.mu), th);
    // a capsule lying down touches with one end at a time and sinks until the correction balances that
    double sag = 0; for (auto& p : r.parts) if (p.s.kind == CAPSULE) sag = std::max(sag, 0.8 * p.s.poly.r);
    bool rolls = parts > 1; for (auto& p : r.parts) rolls |= p.s.kind != BOX && (p.s.kind != CONVEX || p.s.poly.v.size() > 7);
    double imp = 0, lastLow = 0, lo = 1e9, hi = -1e9, moved = 0; int sec = int(1 / R.dt), n = (rolls ? 8 : 24) * sec; V v, mark; bool rest = false; Lst L(c); R.world->setEventListener(&L);
    for (int i = 0; i < n && !(rest && i >= 4 * sec); i++) {
        L.on = c.verbose() && i % every() == 0 && i >= (getenv("START") ? atoi(getenv("START")) : 0); if (i % sec == 0) { lo = 1e9; hi = -1e9; moved = 0; mark = R.com(r); }
        imp = std::max(imp, R.dt * (ref::len(R.vel(r)) + R.g * R.dt + size * ref::len(rf(r.b->getAngularVelocity())))); R.world->update(decimal(R.dt));
        double E = R.energy(r); lastLow = R.lowest(r); v = R.vel(r); V p = R.com(r); lo = std::min(lo, p.y); hi = std::max(hi, p.y); moved = std::max(moved, ref::len(p - mark)); if (L.on) c.note("t %.2f low %.5f com %.4f %.4f %.4f v %g %g %g w %g E %g", i * R.dt, lastLow, p.x, p.y, p.z, v.x, v.y, v.z, ref::len(rf(r.b->getAngularVelocity())), (E - E0) / (r.m * R.g)); if (!(std::fabs(p.x) < 8 && std::fabs(p.z) < 8)) { c.label("rolled away"); return; }
        c.check(lastLow > -(2 * imp + 0.03 + sag), "the body sinks %.5f into the support at %.3f s", -lastLow, (i + 1) * R.dt); c.check(E - E0 <= r.m * R.g * 0.02, "the energy of the body rises by %.5f m of height at %.3f s", (E - E0) / (r.m * R.g), (i + 1) * R.dt); if (i % sec == sec - 1) rest = hi - lo < 0.02 && moved < 0.06;
    }
    if (!rest) { c.check(rolls, "the body does not come to rest, in the last second its height varies by %.5f and it moves by %.5f", hi - lo, moved); c.label("rolling"); return; }
    c.nontrivial(); c.check(lastLow > -0.06 - sag && lastLow < 0.03, "at the end the lowest point of the body is at %.5f", lastLow); if (moved > 0.01 || ref::len(v) > 0.02) { c.label("creeping"); return; }
    // stable: the centre of mass is above the hull of the lowest points
    std::vector<V> base; R.eachPoint(r, [&](V p, double rad) { if (p.y - rad < lastLow + 0.05 + sag) base.push_back({p.x, 0, p.z}); }); V q = R.com(r); q.y = 0; double worst = 1e9; for (int k = 0; k < 64; k++) { double a = k * M_PI / 32; V d{std::cos(a), 0, std::sin(a)}; double m = -1e9; for (auto& b : base) m = std::max(m, ref::dot(b - q, d)); worst = std::min(worst, m); }
    c.check(worst > -(0.03 + 0.04 * size), "the body rests although its centre of mass is %.5f outside its base", -worst);
}

PBT_PROP(stack, 6000, 60000, "a pile of 2-4 boxes (masses within a factor of 2 of the lowest, offsets and turns well inside the base, gaps up to 2 cm, friction from 0.4, no bounce up to 0.3) on a static box, flat mesh or height field, 10 simulated seconds with generated gravity direction, correction technique, sleeping and 15-40 velocity iterations: each box stays at its place, no energy gained, still at the end; non-trivial: three boxes or more") {
    Rest R(c, true); int kind = c.weighted({4, 2, 2}); Mat m{c.chance(0.6) ? 0 : c.real(0, 0.3), c.real(0.4, 1)}; std::vector<Shape> keep; ground(c, R, kind, m, keep);
    int n = c.weighted({0, 0, 3, 3, 1}); if (n >= 3) c.nontrivial(); double top = 0, mass0 = 0, half0 = 1e9, cx = c.real(-1, 1), cz = c.real(-1, 1); std::vector<double> expect; std::vector<V> at; V prev{cx, 0, cz}; double turn = c.chance(0.5) ? 0 : c.real(0, 1.5);
    for (int i = 0; i < n; i++) {
        double wx = c.real(0.3, 0.8), wz = c.real(0.3, 0.8), h = c.real(0.15, 0.5); h = std::min(h, 0.8 * std::min(wx, wz)); if (i > 0) { wx = std::min(wx, half0); wz = std::min(wz, half0); } RBody r; Part p; p.s = boxShape(*R.pc, {wx, h, wz}); r.parts.push_back(p); double gap = c.chance(0.5) ? 0 : c.real(0, 0.02), lim = i == 0 ? 0 : 0.2 * std::min(wx, wz) / n; prev = prev + V{c.real(-lim, lim), 0, c.real(-lim, lim)}; if (c.chance(0.3)) turn += c.real(-0.3, 0.3);
        Xf x(Q{0, std::sin(turn / 2), 0, std::cos(turn / 2)}, {prev.x, top + gap + h, prev.z}); r.b = R.world->createRigidBody(R.lt(x)); Collider* k = r.b->addCollider(p.s.shape, Transform::identity()); setMat(k, m); double vol = 8 * wx * h * wz, mass = i == 0 ? c.logReal(0.5, 50) : mass0 * c.logReal(0.5, 2); if (i == 0) mass0 = mass; k->getMaterial().setMassDensity(decimal(mass / vol)); r.b->updateMassPropertiesFromColliders(); R.finish(r); R.bodies.push_back(r); at.push_back(x.t); top += gap + 2 * h; expect.push_back(top - h); half0 = std::min(wx, wz); c.note("box %d half (%g %g %g) mass %g gap %g at (%g %g)", i, wx, h, wz, r.m, gap, x.t.x, x.t.z);
    }
    R.world->setNbIterationsVelocitySolver(uint16(c.intIn(15, 40))); double E0 = 0, M = 0, fall = 0; for (auto& r : R.bodies) { E0 += R.energy(r); M += r.m; } double y = 0; for (int i = 0; i < n; i++) { double h = R.bodies[i].parts[0].s.poly.support({0, 1, 0}); expect[i] = y + h; y += 2 * h; fall = at[i].y - expect[i]; }
    Lst L(c); R.world->setEventListener(&L); int steps = int(10 / R.dt); double last = 0; for (int s = 0; s < steps; s++) { L.on = c.verbose() && s % every() == 0 && s >= (getenv("START") ? atoi(getenv("START")) : 0);
        R.world->update(decimal(R.dt)); double E = 0; for (auto& r : R.bodies) E += R.energy(r); c.check(E - E0 < M * R.g * 0.02, "the energy of the pile rises by %.5f m of height at %.3f s", (E - E0) / (M * R.g), (s + 1) * R.dt);
        if (L.on) for (int i = 0; i < n; i++) { V p = R.com(R.bodies[i]); c.note("t %.2f box %d y %+.5f moved %.5f %.5f w %g", s * R.dt, i, p.y - expect[i], p.x - at[i].x, p.z - at[i].z, ref::len(rf(R.bodies[i].b->getAngularVelocity()))); }
        for (int i = 0; i < n; i++) { V p = R.com(R.bodies[i]), d = p - at[i]; d.y = 0; last = std::max(last, ref::len(d)); c.check(p.y > expect[i] - 0.03 * (i + 1) - 0.03, "box %d of %d sinks %.5f below its place in the pile at %.3f s", i, n, expect[i] - p.y, (s + 1) * R.dt); c.check(p.y < expect[i] + fall + 0.03 + (m.e > 0 ? 0.02 : 0), "box %d of %d rises %.5f above its place in the pile at %.3f s", i, n, p.y - expect[i], (s + 1) * R.dt); c.check(ref::len(d) < 0.1, "box %d of %d moves %.5f sideways at %.3f s", i, n, ref::len(d), (s + 1) * R.dt); }
    }
    for (int i = 0; i < n; i++) { V v = R.vel(R.bodies[i]); c.check(ref::len(v) < 0.2, "box %d of %d still moves at %.5f after 10 s", i, n, ref::len(v)); V up = R.frame(R.bodies[i]).R * V{0, 1, 0}; c.check(up.y > 0.995, "box %d of %d is tilted by %.4f after 10 s", i, n, std::acos(std::min(1.0, up.y))); }
}
