#include "motion.h"
using namespace gen;

static bool allowedPair(const Scene& s, const SBody& a, const SCol& x, const SBody& b, const SCol& y) {
    return a.active && b.active && x.sim && y.sim && !x.trigger && !y.trigger && Scene::filtersAccept(x, y) && !s.noCollision(a.id, b.id) && (a.type == BodyType::DYNAMIC || b.type == BodyType::DYNAMIC);
}
static bool movable(const SBody& b) { V l = rf(b.body->getLinearLockAxisFactor()); return b.active && b.type == BodyType::DYNAMIC && b.body->getMass() > 0 && l.x == 1 && l.y == 1 && l.z == 1; }

PBT_PROP(who_reacts, 7000, 400000, "a world of up to 6 bodies (mostly overlapping) and 15-100 operations, about half of them updates; before every update the reference separation of all collider pairs and the filters, flags, types and joints decide who may react; a body without such a partner (and without joints) must move exactly as the reference integrator says, a body with one clear, new contact partner must not; non-trivial: an update in which touching colliders must not react or a single pair must") {
    PhysicsWorld::WorldSettings ws; if (c.chance(0.6)) ws.gravity = Vector3(0, 0, 0); if (c.chance(0.2)) ws.isSleepingEnabled = false; Scene s(c, ws); s.range = c.real(0.8, 3); s.maxBodies = 6; s.maxSpeed = 3; s.dynamicMask = c.chance(0.8) ? 15 : 63; s.dtMin = 0.004; s.dtMax = 0.05;
    s.weights({{CREATE_BODY, 4}, {DESTROY_BODY, 2}, {ADD_COLLIDER, 2}, {REMOVE_COLLIDER, 2}, {SET_TRANSFORM, 6}, {SET_LOCAL, 2}, {RESIZE, 1}, {SET_TYPE, 2}, {SET_ACTIVE, 2}, {SET_SLEEPING, 3}, {FILTER, 5}, {TRIGGER, 4}, {SIMFLAG, 4}, {QUERYFLAG, 1}, {VELOCITY, 6}, {FORCE, 2}, {CREATE_JOINT, 1}, {DESTROY_JOINT, 2}, {MATERIAL, 1}, {WORLD, 1}, {MASS, 2}});
    bool nt = false; const double EPS = DP ? 1e-9 : 2e-4; std::set<std::pair<Collider*, Collider*>> before;   // pairs that were close in the last update: their contacts may come from the previous separating axis, with a depth far below the overlap
    auto step = [&]() {
        Case::Span sp(c); struct P { int n = 0; SBody* o = nullptr; SCol *k = nullptr, *ok = nullptr; double sd = 0; bool maybe = false, silent = false; }; std::map<SBody*, P> part; std::set<std::pair<Collider*, Collider*>> now;
        s.eachPair([&](SBody& a, SCol& x, SBody& b, SCol& y) {
            double sd, tol; if (!s.separation(a, x, b, y, sd, tol) || sd > tol) return; now.insert(std::minmax(x.col, y.col)); bool al = allowedPair(s, a, x, b, y); P &p = part[&a], &q = part[&b];
            if (!al) { if (sd < -tol && a.active && b.active) p.silent = q.silent = true; return; } if (sd > -tol) { p.maybe = q.maybe = true; return; }
            p.n++; q.n++; p.o = &b; q.o = &a; p.k = q.ok = &x; p.ok = q.k = &y; p.sd = q.sd = sd;
        });
        std::set<int> jointed; for (auto& j : s.joints) { jointed.insert(j->b1); jointed.insert(j->b2); }
        decimal dt = decimal(c.real(s.dtMin, s.dtMax)); s.sameDt = true; s.fixedDt = dt; std::map<SBody*, Motion> want; std::map<SBody*, bool> en;
        for (auto& b : s.bodies) { bool e = s.enabled(*b); en[b.get()] = e; want[b.get()] = freeMotion(s.world, b->body, dt, rf(b->body->getForce()), rf(b->body->getTorque()), e); }
        struct Pair { SBody *a, *b; }; std::vector<Pair> must;
        for (auto& b : s.bodies) {
            P& p = part[b.get()]; if (p.n != 1 || p.maybe || !p.o || p.o->id > b->id) continue; P& q = part[p.o]; if (q.n != 1 || q.maybe || jointed.count(b->id) || jointed.count(p.o->id)) continue;
            if (!(en[b.get()] || en[p.o]) || !(movable(*b) || movable(*p.o))) continue; const Shape &A = s.shapes[p.k->shape], &B = s.shapes[p.ok->shape]; if (!A.convex || !B.convex) continue; if (p.sd > -0.05 || !s.split || before.count(std::minmax(p.k->col, p.ok->col))) continue; must.push_back({b.get(), p.o});
        }
        s.step(); before = now;
        for (auto& b : s.bodies) {
            P& p = part[b.get()]; Motion m = state(b->body), w = want[b.get()]; bool slept = en[b.get()] && b->body->isSleeping(); double e = deviation(m, w, dt, slept);
            if (b->type != BodyType::DYNAMIC) {   // never affected by contacts or joints
                if (b->type == BodyType::KINEMATIC && !en[b.get()] && !b->body->isSleeping() && b->active) continue;   // woken up in this update
                c.check(e < EPS, "%s body #%d deviates from its own motion by %.3g", b->type == BodyType::STATIC ? "static" : "kinematic", b->id, e); continue;
            }
            if (jointed.count(b->id) || p.n || p.maybe) continue;
            if (p.silent) { nt = true; c.label("touching without response"); }
            if (slept) c.check(ref::len(m.v) == 0 && ref::len(m.w) == 0, "body #%d sleeps with a velocity", b->id);
            if (!en[b.get()]) c.check(b->body->isSleeping() || !b->active, "body #%d was woken up without any reason", b->id);
            c.check(e < EPS, "body #%d, which nothing may push, deviates from free motion by %.3g (position %.9g %.9g %.9g, expected %.9g %.9g %.9g; velocity %.9g %.9g %.9g, expected %.9g %.9g %.9g)", b->id, e, m.pos.x, m.pos.y, m.pos.z, w.pos.x, w.pos.y, w.pos.z, m.v.x, m.v.y, m.v.z, w.v.x, w.v.y, w.v.z);
        }
        for (auto& q : must) { nt = true; c.label("must react"); double e = 0; for (SBody* b : {q.a, q.b}) { Motion w = en[b] ? want[b] : freeMotion(s.world, b->body, 0, {0, 0, 0}, {0, 0, 0}); if (!en[b]) w = want[b]; e = std::max(e, deviation(state(b->body), w, dt, true)); }
            c.check(e > (DP ? 1e-8 : 1e-5), "bodies #%d and #%d overlap by %.6g and may collide, but move as if the other were absent (deviation %.3g)", q.a->id, q.b->id, -part[q.a].sd, e); }
    };
    int n0 = c.intIn(2, 4); for (int i = 0; i < n0; i++) s.apply(CREATE_BODY);
    int n = 0; while (c.more(n, 40, 100)) { if (c.chance(0.45)) { step(); continue; } s.op(); }
    if (nt) c.nontrivial(); s.close();
}

// The same bodies with and without colliders: a pair that must not react has no influence at all (joint that disables collisions, triggers, masks, flags).
PBT_PROP(as_if_absent, 4000, 200000, "two or three overlapping bodies whose pairs may not react (a joint without collision, triggers, non-simulation colliders or masks, chosen per pair or collider), moved for 5-40 updates, and the same bodies without colliders in a second world; positions, velocities and sleeping must be equal; non-trivial: some pair overlaps in some update") {
    PhysicsWorld::WorldSettings ws; if (c.chance(0.4)) ws.gravity = Vector3(0, 0, 0); if (c.chance(0.5)) { ws.defaultTimeBeforeSleep = decimal(c.real(0.02, 0.2)); ws.defaultSleepLinearVelocity = decimal(0.4); ws.defaultSleepAngularVelocity = decimal(0.4); }
    Scene s(c, ws), z(c, ws); s.maxCols = 2; int n = c.intIn(2, 3); s.range = c.real(0.3, 1.5); std::vector<SBody*> a, b; int mode = c.intIn(0, 3); bool hub = mode == 0; s.mask = 15;
    for (int i = 0; i < n; i++) { Transform t = place(c, s.range); BodyType ty = static_cast<BodyType>(c.weighted({1, 2, 7})); if (hub && i == 0) ty = BodyType::DYNAMIC; a.push_back(s.createBody(t, ty)); b.push_back(z.createBody(t, ty)); int m = c.intIn(1, 2); for (int k = 0; k < m; k++) s.addCollider(a.back());
        for (auto& k : a.back()->cols) { if (mode == 1) { k.col->setIsTrigger(true); k.trigger = true; } else if (mode == 2) k.col->setIsSimulationCollider(false); else if (mode == 3) { k.col->setCollisionCategoryBits(static_cast<unsigned short>(1u << i)); k.col->setCollideWithMaskBits(c.chance(0.5) ? 0xFFFF : static_cast<unsigned short>(0xFFFF & ~((1u << i) - 1))); } }
        if (mode == 3) for (auto& k : a.back()->cols) k.col->setCollideWithMaskBits(static_cast<unsigned short>(~((i % 2) ? 7u : (i == 0 ? 6u : 1u)))); 
        V v = vec(c, 2), w = vec(c, 2); for (SBody* p : {a.back(), b.back()}) { p->body->setLinearVelocity(lib(v)); p->body->setAngularVelocity(lib(w)); } }
    if (mode == 3) for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < i; j++) for (auto& x : a[i]->cols) for (auto& y : a[j]->cols) if ((x.col->getCollideWithMaskBits() & y.col->getCollisionCategoryBits()) && (y.col->getCollideWithMaskBits() & x.col->getCollisionCategoryBits())) c.discard();
    // joints between all pairs (mode 0) or between some of them
    auto joint = [&](int i, int j, bool coll) { V p = 0.5 * (rf(a[i]->body->getTransform()).t + rf(a[j]->body->getTransform()).t), ax = dir(c); int k = c.intIn(0, 3); for (int q = 0; q < 2; q++) { Scene& S = q ? z : s; RigidBody *x = (q ? b : a)[i]->body, *y = (q ? b : a)[j]->body; auto mk = [&](JointInfo& in) { in.isCollisionEnabled = coll; S.world->createJoint(in); }; if (k == 0) { BallAndSocketJointInfo in(x, y, lib(p)); mk(in); } else if (k == 1) { FixedJointInfo in(x, y, lib(p)); mk(in); } else if (k == 2) { HingeJointInfo in(x, y, lib(p), lib(ax)); mk(in); } else { SliderJointInfo in(x, y, lib(p), lib(ax)); mk(in); } } c.note("joint %d between %d and %d", k, i, j); };
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (hub) joint(i, j, false); else if (c.chance(0.2)) joint(i, j, c.chance(0.5));
    bool over = false; int k = 0; c.note("mode %d", mode); static const char* M[] = {"joints", "triggers", "not simulated", "masks"}; c.label(M[mode]);
    while (c.more(k, 15, 40)) {
        Case::Span sp(c); decimal dt = decimal(c.real(0.004, 0.04)); if (c.chance(0.2)) { int i = c.intIn(0, n - 1); V f = vec(c, 20), p = vec(c, 1); a[i]->body->applyWorldForceAtLocalPosition(lib(f), lib(p)); b[i]->body->applyWorldForceAtLocalPosition(lib(f), lib(p)); }
        s.eachPair([&](SBody& p, SCol& x, SBody& q, SCol& y) { double sd, tol; if (!over && s.separation(p, x, q, y, sd, tol) && sd < -tol) over = true; });
        s.world->update(dt); z.world->update(dt);
        for (int i = 0; i < n; i++) { Motion p = state(a[i]->body), q = state(b[i]->body); c.check(a[i]->body->isSleeping() == b[i]->body->isSleeping(), "body %d is %s although it would be %s without the colliders", i, a[i]->body->isSleeping() ? "asleep" : "awake", b[i]->body->isSleeping() ? "asleep" : "awake"); double e = deviation(p, q, dt, false); c.check(e < (DP ? 1e-9 : 1e-3), "body %d deviates by %.3g from its motion without the colliders", i, e); }
    }
    if (over) c.nontrivial(); s.close(); z.close();
}
