#include "motion.h"
using namespace gen;

struct MB {   // shadow of a body that nothing touches
    RigidBody* body = nullptr; int id = 0; BodyType type = BodyType::DYNAMIC; bool active = true, sleep = false, grav = true, allow = true; double mass = 1, ld = 0, ad = 0; V I{1, 1, 1}, ll{1, 1, 1}, al{1, 1, 1}, F, T, cl, v, w, com, pos; Q q{0, 0, 0, 1}; double fs = 1, ts = 1;
    void place(const Transform& t) { pos = rf(t.getPosition()); q = rf(t.getOrientation()); com = rf(t) * cl; }
    void resync() { Motion m = state(body); v = m.v; w = m.w; pos = m.pos; q = m.q; com = m.com; }
};

PBT_PROP(free_motion, 15000, 600000, "1-4 bodies (colliders that accept nobody, or no colliders), 20-120 operations: every force, torque and reset function, velocities, damping, locks, mass, inertia, centre of mass, gravity, type, activation, sleeping and placement, with updates of 1-100 ms in between; a shadow model accumulates and integrates; non-trivial: an update moves a dynamic body under a force or torque") {
    PhysicsWorld::WorldSettings ws; ws.gravity = lib(c.chance(0.2) ? V{0, 0, 0} : vec(c, 12)); ws.isSleepingEnabled = c.chance(0.3); if (c.chance(0.5)) { ws.defaultTimeBeforeSleep = decimal(c.real(0.02, 0.3)); ws.defaultSleepLinearVelocity = decimal(0.5); ws.defaultSleepAngularVelocity = decimal(0.5); }
    TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); PhysicsWorld* world = pc->createPhysicsWorld(ws); std::vector<MB> B; V g = rf(ws.gravity); bool gOn = true, nt = false; std::vector<Shape> shapes; int nextId = 0;
    const double E = DP ? 1e-11 : 2e-5;
    auto create = [&]() { MB m; Transform t = place(c, 3); m.id = nextId++; m.body = world->createRigidBody(t); noteX(c, "create body", t); if (c.chance(0.3)) { m.type = static_cast<BodyType>(c.intIn(0, 1)); m.body->setType(m.type); } m.place(t); int k = c.intIn(0, 2); for (int i = 0; i < k; i++) { shapes.push_back(shape(c, *pc, 15)); Collider* q = m.body->addCollider(shapes.back().shape, place(c, 1)); q->setCollideWithMaskBits(0); } m.allow = true; B.push_back(m); };
    auto close = [&](V a, V b, double s) { return ref::len(a - b) <= E * (s + ref::len(b)); };
    auto agree = [&](MB& m, const char* what) {   // getters against the shadow
        Motion s = state(m.body); double ps = 3 + ref::len(m.cl);
        c.check(close(s.v, m.v, 1), "%s: body %d has linear velocity %.9g %.9g %.9g, expected %.9g %.9g %.9g", what, m.id, s.v.x, s.v.y, s.v.z, m.v.x, m.v.y, m.v.z);
        c.check(close(s.w, m.w, 1), "%s: body %d has angular velocity %.9g %.9g %.9g, expected %.9g %.9g %.9g", what, m.id, s.w.x, s.w.y, s.w.z, m.w.x, m.w.y, m.w.z);
        c.check(close(s.pos, m.pos, ps), "%s: body %d is at %.9g %.9g %.9g, expected %.9g %.9g %.9g", what, m.id, s.pos.x, s.pos.y, s.pos.z, m.pos.x, m.pos.y, m.pos.z);
        c.check(qdist(s.q, m.q) < (DP ? 1e-11 : 1e-5), "%s: body %d has orientation %.9g %.9g %.9g %.9g, expected %.9g %.9g %.9g %.9g", what, m.id, s.q.x, s.q.y, s.q.z, s.q.w, m.q.x, m.q.y, m.q.z, m.q.w);
        c.check(close(s.com, m.com, ps), "%s: centre of mass of body %d is not where its transform puts it", what, m.id);
        V F = rf(m.body->getForce()), T = rf(m.body->getTorque());
        c.check(ref::len(F - m.F) <= E * m.fs, "%s: body %d has accumulated force %.9g %.9g %.9g, expected %.9g %.9g %.9g", what, m.id, F.x, F.y, F.z, m.F.x, m.F.y, m.F.z);
        c.check(ref::len(T - m.T) <= E * m.ts, "%s: body %d has accumulated torque %.9g %.9g %.9g, expected %.9g %.9g %.9g", what, m.id, T.x, T.y, T.z, m.T.x, m.T.y, m.T.z);
        c.check(m.body->isActive() == m.active && m.body->getType() == m.type && m.body->isGravityEnabled() == m.grav, "%s: body %d has another type or flag than was set", what, m.id);
    };
    auto comMoved = [&](MB& m, V o, const char* what) { V e = m.v + ref::cross(m.w, m.com - o), v = rf(m.body->getLinearVelocity()); c.check(ref::len(v - e) <= 10 * E * (1 + ref::len(m.v) + ref::len(m.w) * (1 + ref::len(m.com) + ref::len(o))), "%s: body %d has linear velocity %.9g %.9g %.9g, expected %.9g %.9g %.9g", what, m.id, v.x, v.y, v.z, e.x, e.y, e.z); m.v = v; };
    auto clearF = [&](MB& m) { m.F = m.T = V{0, 0, 0}; m.fs = m.ts = 1; };
    auto step = [&]() {
        double dt0 = c.logReal(0.001, 0.1); decimal dt = decimal(dt0); double h = dt; std::vector<MB> want = B; c.note("update(%.17g)", h);
        for (auto& m : want) {
            bool en = m.active && m.type != BodyType::STATIC && !m.body->isSleeping(); bool dyn = m.type == BodyType::DYNAMIC; m.sleep = m.body->isSleeping();
            if (en) {
                double im = dyn && m.mass > 0 ? 1 / m.mass : 0; V ii = dyn ? V{inv0(m.I.x), inv0(m.I.y), inv0(m.I.z)} : V{0, 0, 0}; ref::M3 R = ref::mat(m.q);
                m.v = m.v + h * im * ref::mul(m.ll, m.F); m.w = m.w + h * ref::mul(m.al, R * ref::mul(ii, ref::transpose(R) * m.T));
                if (gOn && m.grav && im > 0) m.v = m.v + h * ref::mul(m.ll, g);
                m.v = (1 / (1 + m.ld * h)) * m.v; m.w = (1 / (1 + m.ad * h)) * m.w; m.com = m.com + h * m.v;
                Q d = Q{0.5 * h * m.w.x, 0.5 * h * m.w.y, 0.5 * h * m.w.z, 0} * m.q; m.q = ref::qnorm({m.q.x + d.x, m.q.y + d.y, m.q.z + d.z, m.q.w + d.w}); m.pos = m.com - ref::mat(m.q) * m.cl;
                if (dyn && (ref::len(m.F) > 0 || ref::len(m.T) > 0)) nt = true;
            }
        }
        world->update(dt);
        for (size_t i = 0; i < B.size(); i++) {
            MB& m = want[i]; bool slept = m.active && m.type != BodyType::STATIC && !m.sleep && m.body->isSleeping(); if (slept) { m.v = m.w = V{0, 0, 0}; c.label("fell asleep"); c.check(world->isSleepingEnabled() && m.body->isAllowedToSleep(), "body %d fell asleep although it may not", m.id); }
            if (m.sleep && m.active) c.check(m.body->isSleeping(), "body %d woke up by itself", m.id);
            double fs = m.fs, ts = m.ts; (void)fs; (void)ts; 
            // large accelerations: compare velocities relative to the changes
            double sv = 1 + h * (m.mass > 0 ? B[i].fs / m.mass : 0), sw = 1 + h * B[i].ts * std::max({inv0(m.I.x), inv0(m.I.y), inv0(m.I.z)});
            Motion s = state(m.body); c.check(ref::len(s.v - m.v) <= E * (sv + ref::len(m.v)), "after update(%g): body %d has linear velocity %.9g %.9g %.9g, expected %.9g %.9g %.9g", h, m.id, s.v.x, s.v.y, s.v.z, m.v.x, m.v.y, m.v.z);
            c.check(ref::len(s.w - m.w) <= E * (sw + ref::len(m.w)), "after update(%g): body %d has angular velocity %.9g %.9g %.9g, expected %.9g %.9g %.9g", h, m.id, s.w.x, s.w.y, s.w.z, m.w.x, m.w.y, m.w.z);
            double ps = 3 + ref::len(m.cl) * (1 + h * sw) + h * sv; c.check(ref::len(s.pos - m.pos) <= E * (ps + ref::len(m.pos)), "after update(%g): body %d (type %d) is at %.9g %.9g %.9g, expected %.9g %.9g %.9g", h, m.id, static_cast<int>(m.type), s.pos.x, s.pos.y, s.pos.z, m.pos.x, m.pos.y, m.pos.z);
            c.check(qdist(s.q, m.q) <= E * (1 + h * sw) || qdist(s.q, Q{-m.q.x, -m.q.y, -m.q.z, -m.q.w}) <= E * (1 + h * sw), "after update(%g): body %d has orientation %.9g %.9g %.9g %.9g, expected %.9g %.9g %.9g %.9g", h, m.id, s.q.x, s.q.y, s.q.z, s.q.w, m.q.x, m.q.y, m.q.z, m.q.w);
            clearF(m); B[i] = m; B[i].resync(); agree(B[i], "after the update");
        }
    };
    int n0 = c.intIn(1, 4); for (int i = 0; i < n0; i++) create();
    int n = 0; while (c.more(n, 50, 130)) {
        Case::Span sp(c); if (c.chance(0.35)) { step(); continue; }
        MB& m = B[c.draw(B.size() - 1)]; RigidBody* b = m.body; bool dyn = m.type == BodyType::DYNAMIC; auto fo = [&]() { return lib(c.chance(0.1) ? V{0, 0, 0} : vec(c, c.logReal(0.1, 100))); }; auto pt = [&]() { return lib(c.chance(0.1) ? V{0, 0, 0} : vec(c, 3)); };
        auto addF = [&](V f, V p) { if (!dyn) return; m.F = m.F + f; V t = ref::cross(p - m.com, f); m.T = m.T + t; m.fs += ref::len(f); m.ts += ref::len(t) + ref::len(f) * (ref::len(p) + ref::len(m.com)); }; auto addT = [&](V t) { if (!dyn) return; m.T = m.T + t; m.ts += ref::len(t); };
        ref::M3 R = ref::mat(m.q); Xf X = rf(b->getTransform()); const char* what = "";
        switch (c.weighted({3, 3, 3, 3, 3, 3, 3, 3, 1, 1, 3, 3, 2, 2, 2, 2, 2, 2, 3, 2, 1, 2, 2, 1, 1, 2, 1, 1})) {
            case 0: { auto f = fo(); what = "applyLocalForceAtCenterOfMass"; b->applyLocalForceAtCenterOfMass(f); addF(R * rf(f), m.com); break; }
            case 1: { auto f = fo(); what = "applyWorldForceAtCenterOfMass"; b->applyWorldForceAtCenterOfMass(f); addF(rf(f), m.com); break; }
            case 2: { auto f = fo(), p = pt(); what = "applyLocalForceAtLocalPosition"; b->applyLocalForceAtLocalPosition(f, p); addF(R * rf(f), X * rf(p)); break; }
            case 3: { auto f = fo(), p = pt(); what = "applyWorldForceAtLocalPosition"; b->applyWorldForceAtLocalPosition(f, p); addF(rf(f), X * rf(p)); break; }
            case 4: { auto f = fo(), p = pt(); what = "applyLocalForceAtWorldPosition"; b->applyLocalForceAtWorldPosition(f, p); addF(R * rf(f), rf(p)); break; }
            case 5: { auto f = fo(), p = pt(); what = "applyWorldForceAtWorldPosition"; b->applyWorldForceAtWorldPosition(f, p); addF(rf(f), rf(p)); break; }
            case 6: { auto t = fo(); what = "applyWorldTorque"; b->applyWorldTorque(t); addT(rf(t)); break; }
            case 7: { auto t = fo(); what = "applyLocalTorque"; b->applyLocalTorque(t); addT(R * rf(t)); break; }
            case 8: what = "resetForce"; b->resetForce(); m.F = {0, 0, 0}; break;
            case 9: what = "resetTorque"; b->resetTorque(); m.T = {0, 0, 0}; break;
            case 10: { auto v = pt(); what = "setLinearVelocity"; b->setLinearVelocity(v); if (m.type != BodyType::STATIC) m.v = rf(v); break; }
            case 11: { auto v = pt(); what = "setAngularVelocity"; b->setAngularVelocity(v); if (m.type != BodyType::STATIC) m.w = rf(v); break; }
            case 12: { decimal d = decimal(c.chance(0.3) ? 0 : c.real(0, 5)); what = "setLinearDamping"; b->setLinearDamping(d); m.ld = d; break; }
            case 13: { decimal d = decimal(c.chance(0.3) ? 0 : c.real(0, 5)); what = "setAngularDamping"; b->setAngularDamping(d); m.ad = d; break; }
            case 14: { V k{c.chance(0.5) ? 1.0 : 0.0, c.chance(0.5) ? 1.0 : 0.0, c.chance(0.5) ? 1.0 : 0.0}; what = "setLinearLockAxisFactor"; b->setLinearLockAxisFactor(lib(k)); m.ll = k; break; }
            case 15: { V k{c.chance(0.5) ? 1.0 : 0.0, c.chance(0.5) ? 1.0 : 0.0, c.chance(0.5) ? 1.0 : 0.0}; what = "setAngularLockAxisFactor"; b->setAngularLockAxisFactor(lib(k)); m.al = k; break; }
            case 16: { decimal q = decimal(c.chance(0.1) ? 0 : c.logReal(0.05, 50)); what = "setMass"; b->setMass(q); m.mass = q; break; }
            case 17: { Vector3 q(decimal(c.chance(0.1) ? 0 : c.logReal(0.05, 20)), decimal(c.chance(0.1) ? 0 : c.logReal(0.05, 20)), decimal(c.chance(0.1) ? 0 : c.logReal(0.05, 20))); what = "setLocalInertiaTensor"; b->setLocalInertiaTensor(q); m.I = rf(q); break; }
            case 18: { bool on = c.chance(0.6); what = "enableGravity"; b->enableGravity(on); m.grav = on; break; }
            case 19: { auto p = pt(); what = "setLocalCenterOfMass"; b->setLocalCenterOfMass(p); V o = m.com; m.cl = rf(p); m.com = X * m.cl; comMoved(m, o, what); break; }
            case 20: { bool on = c.chance(0.7); what = "setIsGravityEnabled"; world->setIsGravityEnabled(on); gOn = on; break; }
            case 21: { auto v = lib(vec(c, 12)); what = "setGravity"; world->setGravity(v); g = rf(v); break; }
            case 22: { auto ty = static_cast<BodyType>(c.weighted({1, 2, 5})); what = "setType"; b->setType(ty); if (ty != m.type) { clearF(m); if (ty == BodyType::STATIC) m.v = m.w = V{0, 0, 0}; m.type = ty; } break; }
            case 23: { bool on = c.chance(0.6); what = "setIsActive"; bool was = b->isSleeping(); b->setIsActive(on); if (!on && m.active && m.type != BodyType::STATIC && !was) { m.v = m.w = V{0, 0, 0}; clearF(m); } m.active = on; break; }
            case 24: { bool on = c.chance(0.5); what = "setIsSleeping"; bool was = b->isSleeping(); b->setIsSleeping(on); if (on && m.active && m.type != BodyType::STATIC && !was) { m.v = m.w = V{0, 0, 0}; clearF(m); } break; }
            case 25: { Transform t = place(c, 3); what = "setTransform"; b->setTransform(t); m.place(t); Motion s = state(b); m.v = s.v; break; }
            case 26: if (B.size() < 6) { create(); what = "create"; } else { world->destroyRigidBody(b); B.erase(B.begin() + (&m - &B[0])); what = "destroy"; if (B.empty()) create(); } break;
            case 27: { int k = c.intIn(0, 3); Vector3 com = b->getLocalCenterOfMass(); V o = m.com; bool ok = b->getNbColliders() > 0; if (!ok) break; if (k == 0) { what = "updateMassFromColliders"; b->updateMassFromColliders(); m.mass = b->getMass(); } else if (k == 1) { what = "updateLocalInertiaTensorFromColliders"; b->updateLocalInertiaTensorFromColliders(); m.I = rf(b->getLocalInertiaTensor()); }
                else { if (k == 2) { what = "updateLocalCenterOfMassFromColliders"; b->updateLocalCenterOfMassFromColliders(); } else { what = "updateMassPropertiesFromColliders"; b->updateMassPropertiesFromColliders(); m.mass = b->getMass(); m.I = rf(b->getLocalInertiaTensor()); } m.cl = rf(b->getLocalCenterOfMass()); m.com = X * m.cl; if (m.type == BodyType::DYNAMIC) comMoved(m, o, what); else m.v = rf(b->getLinearVelocity()); } (void)com; break; }
        }
        c.note("%s body %d", what, m.id); for (auto& k : B) agree(k, what);
    }
    if (nt) c.nontrivial(); shapes.clear(); pc.reset(); base.verifyEmpty(c, "PhysicsCommon");
}
