#include "motion.h"
using namespace gen;

static bool allowedPair(const Scene& s, const SBody& a, const SCol& x, const SBody& b, const SCol& y) {
    return a.active && b.active && x.sim && y.sim && !x.trigger && !y.trigger && Scene::filtersAccept(x, y) && !s.noCollision(a.id, b.id);
}
struct Rest { double quiet = 0, sure = 0; bool slept = false; };   // time since the body was last seen fast (at least), and the same counted cautiously

PBT_PROP(sleeping, 8000, 300000, "a world of up to 7 bodies over a static floor (or without gravity), high sleep thresholds and short waiting times, 10-60 operations with bursts of up to 40 updates; reference separations and joints give the linked groups, observed velocities the waiting times; every falling asleep, staying asleep and waking up is judged; non-trivial: a body fell asleep by itself and another one, or the same, was woken later") {
    PhysicsWorld::WorldSettings ws; bool grav = c.chance(0.7); if (!grav) ws.gravity = Vector3(0, 0, 0); ws.defaultTimeBeforeSleep = static_cast<float>(c.real(0.03, 0.3)); ws.defaultSleepLinearVelocity = decimal(c.real(0.05, 0.5)); ws.defaultSleepAngularVelocity = decimal(c.real(0.05, 0.8)); ws.defaultBounciness = decimal(c.chance(0.8) ? 0 : 0.5); ws.isSleepingEnabled = c.chance(0.9);
    Scene s(c, ws); s.range = c.real(0.8, 2); s.maxBodies = 7; s.maxSpeed = c.chance(0.5) ? 0.5 : 4; s.dynamicMask = 15; s.dtMin = 0.005; s.dtMax = 0.04; s.typeW[0] = 1; s.typeW[1] = 1; s.typeW[2] = 6;
    s.weights({{CREATE_BODY, 5}, {DESTROY_BODY, 5}, {ADD_COLLIDER, 1}, {REMOVE_COLLIDER, 3}, {SET_TRANSFORM, 4}, {SET_TYPE, 1}, {SET_ACTIVE, 2}, {SET_SLEEPING, 5}, {FILTER, 1}, {TRIGGER, 1}, {SIMFLAG, 1}, {VELOCITY, 5}, {FORCE, 5}, {CREATE_JOINT, 3}, {DESTROY_JOINT, 3}, {ALLOW_SLEEP, 3}, {MASS, 2}});
    std::map<int, Rest> R; std::set<std::pair<int, int>> known;   // sleeping body, body it touched while the contact was tested
    bool fell = false, woken = false, nt = false; const double EPS = DP ? 1e-9 : 2e-4;
    if (grav) { SBody* f = s.createBody(Transform(Vector3(0, decimal(-s.range - 0.5), 0), Quaternion::identity()), BodyType::STATIC); s.shapes.push_back(boxShape(*s.pc, V{20, 0.5, 20})); s.addCollider(f, static_cast<int>(s.shapes.size()) - 1, Transform::identity()); }
    int n0 = c.intIn(1, 4); for (int i = 0; i < n0; i++) s.apply(CREATE_BODY);
    for (auto& b : s.bodies) if (b->type == BodyType::DYNAMIC && c.chance(0.6)) { b->body->setLinearDamping(decimal(c.real(0.5, 5))); b->body->setAngularDamping(decimal(c.real(0.5, 5))); }
    auto counts = [&](const SBody& b) { return b.active && b.type != BodyType::STATIC; };
    auto step = [&]() {
        Case::Span sp(c); std::map<int, std::set<int>> sure, near; std::set<int> hasReason; std::map<int, bool> asleep; std::map<int, Motion> before, want; std::set<int> touched;
        decimal dt = decimal(c.real(s.dtMin, s.dtMax)); s.sameDt = true; s.fixedDt = dt; double T = s.world->getTimeBeforeSleep(); bool instant = T <= 2 * dt;
        s.eachPair([&](SBody& a, SCol& x, SBody& b, SCol& y) { double sd, tol; if (!s.separation(a, x, b, y, sd, tol) || sd > tol) return; touched.insert(a.id); touched.insert(b.id); if (!allowedPair(s, a, x, b, y)) return; near[a.id].insert(b.id); near[b.id].insert(a.id); if (sd < -tol - 1e-3 && (a.type == BodyType::DYNAMIC || b.type == BodyType::DYNAMIC)) { sure[a.id].insert(b.id); sure[b.id].insert(a.id); } });
        for (auto& j : s.joints) { near[j->b1].insert(j->b2); near[j->b2].insert(j->b1); sure[j->b1].insert(j->b2); sure[j->b2].insert(j->b1); touched.insert(j->b1); touched.insert(j->b2); }
        for (auto& b : s.bodies) { asleep[b->id] = b->body->isSleeping(); before[b->id] = state(b->body); want[b->id] = freeMotion(s.world, b->body, dt, rf(b->body->getForce()), rf(b->body->getTorque()), s.enabled(*b)); }
        // closure: what an awake body may wake up through contacts and joints (not through static bodies)
        std::set<int> reach; std::vector<int> st; for (auto& b : s.bodies) if (counts(*b) && !asleep[b->id]) { reach.insert(b->id); st.push_back(b->id); }
        while (!st.empty()) { int i = st.back(); st.pop_back(); for (int o : near[i]) { SBody* ob = s.byId(o); if (ob->type != BodyType::STATIC && reach.insert(o).second) st.push_back(o); } }
        auto stillTouch = [&](int i, int k) { bool r = false; SBody *p = s.byId(i), *q = s.byId(k); for (auto& x : p->cols) for (auto& y : q->cols) { double sd, tol; if (allowedPair(s, *p, x, *q, y) && s.separation(*p, x, *q, y, sd, tol) && sd < -tol) r = true; } return r; };
        s.step(); double vl = s.world->getSleepLinearVelocity(), vw = s.world->getSleepAngularVelocity(); double minSure = 1e300; int awake = 0;
        for (auto& b : s.bodies) {
            Motion m = state(b->body); Rest& r = R[b->id]; bool was = asleep[b->id], is = b->body->isSleeping();
            if (!counts(*b)) { double q = r.quiet + dt; r = Rest(); if (b->type == BodyType::STATIC) r.quiet = q; if (b->type == BodyType::STATIC) c.check(!is, "static body #%d sleeps", b->id); continue; }
            if (is) c.check(ref::len(m.v) == 0 && ref::len(m.w) == 0, "body #%d sleeps with velocity (%g %g %g)", b->id, m.v.x, m.v.y, m.v.z);
            if (was && is && !instant) c.check(ref::len(m.pos - before[b->id].pos) == 0 && qdist(m.q, before[b->id].q) == 0, "sleeping body #%d moved by %.3g", b->id, ref::len(m.pos - before[b->id].pos));
            if (was && !is) { c.check(reach.count(b->id), "body #%d woke up although nothing awake is linked to it", b->id); woken = woken || fell; if (r.slept) nt = true; r = Rest(); c.label("woken by a neighbour"); }
            if (was && is && !instant) for (int o : sure[b->id]) { SBody* ob = s.byId(o); if (counts(*ob) && !asleep[o] && counts(*b)) c.fail("body #%d stays asleep although the awake body #%d is linked to it", b->id, o); }
            if (!was && is) {   // it fell asleep
                fell = true; r.slept = true; c.label("fell asleep"); c.check(s.world->isSleepingEnabled(), "body #%d fell asleep in a world with sleeping disabled", b->id); c.check(b->body->isAllowedToSleep(), "body #%d fell asleep although it is not allowed to", b->id);
                c.check(r.quiet + dt >= T * (1 - 1e-5) - 1e-6, "body #%d fell asleep after %.6g s below the thresholds, %.6g s are required", b->id, r.quiet + dt, T);
                for (int o : sure[b->id]) { SBody* ob = s.byId(o); if (!counts(*ob) || asleep[o]) continue; c.check(ob->body->isSleeping(), "body #%d fell asleep although body #%d, which is linked to it, stays awake", b->id, o); c.label("fell asleep in a group"); }
                for (int o : sure[b->id]) { if (!stillTouch(b->id, o)) continue; bool live = false; for (auto& j : s.joints) live = live || (j->b1 == b->id && j->b2 == o) || (j->b2 == b->id && j->b1 == o); if (!live) known.insert({b->id, o}); }
                r.quiet = r.sure = 0;
            }
            if (!is) {
                awake++; bool fast = ref::len(m.v) > vl * (1 + 1e-6) || ref::len(m.w) > vw * (1 + 1e-6), slow = ref::len(m.v) < vl * (1 - 1e-6) && ref::len(m.w) < vw * (1 - 1e-6); r.quiet = fast ? 0 : r.quiet + dt; r.sure = slow && b->body->isAllowedToSleep() && s.world->isSleepingEnabled() && !was ? r.sure + dt : 0; minSure = std::min(minSure, r.sure); r.slept = r.slept && was;
                if (!was && !touched.count(b->id)) { double e = deviation(m, want[b->id], dt, false); c.check(e < EPS, "the awake free body #%d deviates from free motion by %.3g", b->id, e); }
            }
        }
        for (auto& j : s.joints) if (!s.byId(j->b1)->active || !s.byId(j->b2)->active) { R[j->b1].sure = R[j->b2].sure = minSure = 0; }   // links to inactive bodies are left open
        if (awake) c.check(minSure < T * (1 + 1e-5) + 1e-6, "all %d awake bodies stayed below the thresholds for %.6g s (%.6g s required) and none fell asleep", awake, minSure, T);
        for (auto it = known.begin(); it != known.end();) { SBody *a = s.byId(it->first), *b = s.byId(it->second); auto moved = [&](SBody* x) { Motion m = state(x->body); return ref::len(m.pos - before[x->id].pos) != 0 || qdist(m.q, before[x->id].q) != 0; }; if (!a || !b || !a->body->isSleeping() || ((moved(a) || moved(b)) && !stillTouch(a->id, b->id))) it = known.erase(it); else ++it; }
    };
    auto mustWake = [&](SBody* b, const char* why) { if (counts(*b)) { c.check(!b->body->isSleeping(), "body #%d sleeps after %s", b->id, why); } };
    int n = 0; while (c.more(n, 25, 60)) {
        int k = c.weighted({6, 8, 1, 1, 1});
        if (k == 0) { int m = c.intIn(1, 40); for (int i = 0; i < m; i++) step(); continue; }
        Case::Span sp(c);
        if (k == 2) { bool on = c.chance(0.6); c.note("enableSleeping(%d)", on); s.world->enableSleeping(on); if (!on) for (auto& b : s.bodies) mustWake(b.get(), "sleeping was disabled in the world"); for (auto& r : R) r.second.sure = 0; continue; }
        if (k == 3) { s.world->setTimeBeforeSleep(decimal(c.real(0.03, 0.3))); s.world->setSleepLinearVelocity(decimal(c.real(0.05, 0.5))); s.world->setSleepAngularVelocity(decimal(c.real(0.05, 0.8))); c.note("new thresholds"); for (auto& r : R) r.second.sure = 0; continue; }
        if (k == 4) {   // a joint setting gets another value
            if (s.joints.empty()) continue; SJoint& j = *s.joints[c.draw(s.joints.size() - 1)]; int t = c.intIn(0, 5); c.note("joint setting %d of @%d", t, j.id); bool done = false;
            auto set = [&](auto* h, auto lower, auto upper, auto lowerG, auto upperG, auto maxS, auto maxG) { done = true; switch (t) { case 0: h->enableLimit(!h->isLimitEnabled()); break; case 1: h->enableMotor(!h->isMotorEnabled()); break; case 2: (h->*lower)((h->*lowerG)() * decimal(0.5) - decimal(0.01)); break; case 3: (h->*upper)((h->*upperG)() * decimal(0.5) + decimal(0.01)); break; case 4: if (h->isMotorEnabled()) h->setMotorSpeed(h->getMotorSpeed() + 1); else done = false; break; default: if (h->isMotorEnabled()) (h->*maxS)((h->*maxG)() + 1); else done = false; } };
            if (j.type == JointType::HINGEJOINT) set(static_cast<HingeJoint*>(j.joint), &HingeJoint::setMinAngleLimit, &HingeJoint::setMaxAngleLimit, &HingeJoint::getMinAngleLimit, &HingeJoint::getMaxAngleLimit, &HingeJoint::setMaxMotorTorque, &HingeJoint::getMaxMotorTorque); else if (j.type == JointType::SLIDERJOINT) set(static_cast<SliderJoint*>(j.joint), &SliderJoint::setMinTranslationLimit, &SliderJoint::setMaxTranslationLimit, &SliderJoint::getMinTranslationLimit, &SliderJoint::getMaxTranslationLimit, &SliderJoint::setMaxMotorForce, &SliderJoint::getMaxMotorForce);
            else if (j.type == JointType::BALLSOCKETJOINT) { auto* h = static_cast<BallAndSocketJoint*>(j.joint); h->enableConeLimit(!h->isConeLimitEnabled()); done = true; }
            if (done) { mustWake(s.byId(j.b1), "a setting of its joint was changed"); mustWake(s.byId(j.b2), "a setting of its joint was changed"); } for (auto& r : R) r.second.sure = 0; continue;
        }
        // wakers of the destroyed body or collider
        std::map<int, bool> was, act; for (auto& b : s.bodies) { was[b->id] = b->body->isSleeping(); act[b->id] = b->active; } auto kn = known; std::set<std::pair<int, int>> linked; for (auto& j : s.joints) linked.insert({j->b1, j->b2}); std::map<int, size_t> ncols; for (auto& b : s.bodies) ncols[b->id] = b->cols.size(); size_t nj = s.joints.size();
        std::map<int, SBody*> ids; Op o = s.op(); SBody* b = s.lastBody; if (o == NOPS) continue;
        for (auto& r : R) r.second.sure = 0;   // cautious: whatever was changed restarts the wait for the liveness check
        for (auto& e : R) { SBody* x = s.byId(e.first); if (x && was[e.first] && !x->body->isSleeping()) { woken = woken || fell; nt = nt || e.second.slept; e.second = Rest(); } if (x && !was[e.first] && x->body->isSleeping()) e.second = Rest(); }
        switch (o) {
            case FORCE: break;
            case VELOCITY: if (b->body->getLinearVelocity().lengthSquare() > 0 || b->body->getAngularVelocity().lengthSquare() > 0) mustWake(b, "its velocity was set"); break;
            case SET_TRANSFORM: mustWake(b, "setTransform"); break;
            case ALLOW_SLEEP: if (!b->body->isAllowedToSleep()) mustWake(b, "setIsAllowedToSleep(false)"); break;
            case SET_ACTIVE: if (counts(*b) && !act[b->id] && b->active) mustWake(b, "activation"); break;
            case DESTROY_JOINT: for (auto& l : linked) { bool still = false; for (auto& j : s.joints) still = still || (j->b1 == l.first && j->b2 == l.second); if (!still) { if (SBody* x = s.byId(l.first)) mustWake(x, "its joint was destroyed"); if (SBody* x = s.byId(l.second)) mustWake(x, "its joint was destroyed"); } } break;
            case DESTROY_BODY: { for (auto& e : was) if (!s.byId(e.first)) { for (auto& k2 : kn) if (k2.second == e.first && s.byId(k2.first)) { mustWake(s.byId(k2.first), "a body that touched it was destroyed"); c.label("support destroyed"); } for (auto& l : linked) if (l.first == e.first || l.second == e.first) { SBody* x = s.byId(l.first == e.first ? l.second : l.first); if (x) mustWake(x, "the body it was jointed to was destroyed"); } } break; }
            case REMOVE_COLLIDER: for (auto& k2 : kn) if (k2.second == b->id && ncols[b->id] == 1 && s.byId(k2.first)) { mustWake(s.byId(k2.first), "the only collider of a body that touched it was removed"); c.label("support collider removed"); } break;
            default: break;
        }
        (void)nj; if (b) for (auto it = known.begin(); it != known.end();) if (it->first == b->id || it->second == b->id) it = known.erase(it); else ++it;
        if (o == CREATE_JOINT || o == DESTROY_JOINT || o == DESTROY_BODY) for (auto it = known.begin(); it != known.end();) { SBody* x = s.byId(it->first); if (!x || !s.byId(it->second) || !x->body->isSleeping() || s.noCollision(it->first, it->second)) it = known.erase(it); else ++it; }
    }
    (void)woken; if (nt) c.nontrivial(); s.close();
}

// every force function wakes a sleeping body up, and the body then moves like one that never slept
PBT_PROP(wake_by_force, 4000, 200000, "a free body (sometimes with colliders) is put to sleep or falls asleep, then one of the eight force and torque functions or a velocity is applied, and 1-10 updates follow; it must be awake at once and move as the reference integrator says; non-trivial: always") {
    PhysicsWorld::WorldSettings ws; ws.gravity = Vector3(0, 0, 0); ws.defaultTimeBeforeSleep = 0.05f; Scene s(c, ws); s.mask = s.dynamicMask = 15; SBody* b = s.createBody(place(c, 2), c.chance(0.9) ? BodyType::DYNAMIC : BodyType::KINEMATIC); if (c.chance(0.6)) s.addCollider(b); if (!b->cols.empty() && c.chance(0.5)) b->body->updateMassPropertiesFromColliders();
    bool natural = c.chance(0.5); if (natural) for (int i = 0; i < 4; i++) s.world->update(decimal(0.02)); else b->body->setIsSleeping(true); c.check(b->body->isSleeping(), "a body at rest for 0.08 s is awake (time before sleep 0.05 s)");
    Vector3 f = lib(vec(c, 20)), p = lib(vec(c, 1)); int t = c.intIn(0, 9); c.note("force kind %d", t); RigidBody* r = b->body; bool dyn = b->type == BodyType::DYNAMIC;
    switch (t) { case 0: r->applyLocalForceAtCenterOfMass(f); break; case 1: r->applyWorldForceAtCenterOfMass(f); break; case 2: r->applyLocalForceAtLocalPosition(f, p); break; case 3: r->applyWorldForceAtLocalPosition(f, p); break; case 4: r->applyLocalForceAtWorldPosition(f, r->getTransform() * p); break; case 5: r->applyWorldForceAtWorldPosition(f, r->getTransform() * p); break; case 6: r->applyWorldTorque(f); break; case 7: r->applyLocalTorque(f); break; case 8: r->setLinearVelocity(f); break; default: r->setAngularVelocity(f); }
    if (dyn || t >= 8) c.check(f.lengthSquare() == 0 || !r->isSleeping(), "force function %d does not wake the body up", t); else c.check(r->isSleeping(), "a force wakes up a kinematic body"); c.nontrivial(); s.sameDt = true;
    int n = c.intIn(1, 10); for (int i = 0; i < n; i++) { bool en = s.enabled(*b); s.fixedDt = decimal(c.real(0.002, 0.05)); Motion w = freeMotion(s.world, r, s.fixedDt, rf(r->getForce()), rf(r->getTorque()), en); s.step(); bool sl = r->isSleeping(); double e = deviation(state(r), w, s.fixedDt, sl); c.check(e < (DP ? 1e-9 : 2e-4), "after waking up the body deviates from free motion by %.3g", e); }
    s.close();
}
