#include "scene.h"
using namespace gen;
typedef std::vector<double> Vals;
static Vals vv(const Vector3& v) { return {v.x, v.y, v.z}; }
static Vals xx(const Transform& t) { auto q = t.getOrientation(); return {t.getPosition().x, t.getPosition().y, t.getPosition().z, q.x, q.y, q.z, q.w}; }
// the settings of one object: what its getters must return until somebody sets it
struct Shadow { std::map<std::string, Vals> v; };
static void same(Case& c, const char* what, int id, const char* name, const Vals& got, const Vals& want, double tol = 0) {
    for (size_t i = 0; i < want.size(); i++) { double e = tol * (1 + std::fabs(want[i])); if (!(std::fabs(got[i] - want[i]) <= e)) c.fail("%s of %s %d is %.17g, but %.17g was set (component %zu)", name, what, id, got[i], want[i], i); }
}
static Shadow ofBody(RigidBody* b) { Shadow s; s.v["mass"] = {b->getMass()}; s.v["inertia"] = vv(b->getLocalInertiaTensor()); s.v["centre of mass"] = vv(b->getLocalCenterOfMass()); s.v["linear damping"] = {b->getLinearDamping()}; s.v["angular damping"] = {b->getAngularDamping()}; s.v["linear lock"] = vv(b->getLinearLockAxisFactor()); s.v["angular lock"] = vv(b->getAngularLockAxisFactor()); s.v["gravity flag"] = {(double)b->isGravityEnabled()}; s.v["sleep permission"] = {(double)b->isAllowedToSleep()}; s.v["user data"] = {(double)(uintptr_t)b->getUserData()}; s.v["debug flag"] = {(double)b->isDebugEnabled()}; s.v["type"] = {(double)b->getType()}; s.v["activity"] = {(double)b->isActive()}; return s; }
static Shadow ofCol(Collider* k) { Shadow s; s.v["local transform"] = xx(k->getLocalToBodyTransform()); s.v["category"] = {(double)k->getCollisionCategoryBits()}; s.v["mask"] = {(double)k->getCollideWithMaskBits()}; s.v["trigger flag"] = {(double)k->getIsTrigger()}; s.v["simulation flag"] = {(double)k->getIsSimulationCollider()}; s.v["query flag"] = {(double)k->getIsWorldQueryCollider()}; s.v["user data"] = {(double)(uintptr_t)k->getUserData()}; s.v["friction"] = {k->getMaterial().getFrictionCoefficient()}; s.v["bounciness"] = {k->getMaterial().getBounciness()}; s.v["density"] = {k->getMaterial().getMassDensity()}; return s; }
static Shadow ofJoint(const SJoint& j) { Shadow s; s.v["collision flag"] = {(double)j.joint->isCollisionEnabled()};
    if (j.type == JointType::HINGEJOINT) { auto* h = static_cast<HingeJoint*>(j.joint); s.v["limit flag"] = {(double)h->isLimitEnabled()}; s.v["motor flag"] = {(double)h->isMotorEnabled()}; s.v["lower limit"] = {h->getMinAngleLimit()}; s.v["upper limit"] = {h->getMaxAngleLimit()}; s.v["motor speed"] = {h->getMotorSpeed()}; s.v["motor maximum"] = {h->getMaxMotorTorque()}; }
    else if (j.type == JointType::SLIDERJOINT) { auto* h = static_cast<SliderJoint*>(j.joint); s.v["limit flag"] = {(double)h->isLimitEnabled()}; s.v["motor flag"] = {(double)h->isMotorEnabled()}; s.v["lower limit"] = {h->getMinTranslationLimit()}; s.v["upper limit"] = {h->getMaxTranslationLimit()}; s.v["motor speed"] = {h->getMotorSpeed()}; s.v["motor maximum"] = {h->getMaxMotorForce()}; }
    else if (j.type == JointType::BALLSOCKETJOINT) { auto* h = static_cast<BallAndSocketJoint*>(j.joint); s.v["cone flag"] = {(double)h->isConeLimitEnabled()}; s.v["cone angle"] = {h->getConeLimitHalfAngle()}; }
    return s; }
static const DebugRenderer::DebugItem ITEMS[] = {DebugRenderer::DebugItem::COLLIDER_AABB, DebugRenderer::DebugItem::COLLIDER_BROADPHASE_AABB, DebugRenderer::DebugItem::COLLISION_SHAPE, DebugRenderer::DebugItem::CONTACT_POINT, DebugRenderer::DebugItem::CONTACT_NORMAL, DebugRenderer::DebugItem::COLLISION_SHAPE_NORMAL};
static Shadow ofWorld(PhysicsWorld* w) { Shadow s; s.v["gravity"] = vv(w->getGravity()); s.v["gravity flag"] = {(double)w->isGravityEnabled()}; s.v["sleeping flag"] = {(double)w->isSleepingEnabled()}; s.v["sleep linear velocity"] = {w->getSleepLinearVelocity()}; s.v["sleep angular velocity"] = {w->getSleepAngularVelocity()}; s.v["time before sleep"] = {w->getTimeBeforeSleep()}; s.v["velocity iterations"] = {(double)w->getNbIterationsVelocitySolver()}; s.v["position iterations"] = {(double)w->getNbIterationsPositionSolver()}; s.v["debug flag"] = {(double)w->getIsDebugRenderingEnabled()}; DebugRenderer& d = w->getDebugRenderer(); for (auto i : ITEMS) s.v["debug items"].push_back(d.getIsDebugItemDisplayed(i)); s.v["contact radius"] = {d.getContactPointSphereRadius()}; s.v["normal length"] = {d.getContactNormalLength()}; return s; }
static Shadow ofShape(const Shape& h) { Shadow s; switch (h.kind) { case SPHERE: s.v["radius"] = {static_cast<SphereShape*>(h.shape)->getRadius()}; break; case CAPSULE: s.v["radius"] = {static_cast<CapsuleShape*>(h.shape)->getRadius()}; s.v["height"] = {static_cast<CapsuleShape*>(h.shape)->getHeight()}; break; case BOX: s.v["half extents"] = vv(static_cast<BoxShape*>(h.shape)->getHalfExtents()); break; case CONVEX: s.v["scale"] = vv(static_cast<ConvexMeshShape*>(h.shape)->getScale()); break; case TRIMESH: s.v["scale"] = vv(static_cast<ConcaveShape*>(h.shape)->getScale()); break; default: s.v["scale"] = vv(static_cast<ConcaveShape*>(h.shape)->getScale()); } return s; }
struct Home {   // one world and the shadows of all its objects
    Scene s; Shadow world; std::map<int, Shadow> bodies, joints; std::map<Collider*, Shadow> cols; std::map<int, Shadow> shapes; std::string name; bool first = true;
    Home(Case& c, const PhysicsWorld::WorldSettings& ws, PhysicsCommon* pc) : s(c, ws, pc) {}
};

PBT_PROP(settings, 30000, 900000, "1-2 worlds with random settings, 20-120 operations: every setter of bodies, colliders, materials, joints, shapes, the world and the debug renderer, mixed with creation, destruction, activation, sleeping, type changes and updates; after each operation every getter of every living object is compared with the last value set (or the documented default); non-trivial: an object was destroyed, deactivated or put to sleep while others with non-default settings existed") {
    TrackingAllocator base(static_cast<unsigned char>(c.draw(255)), 0); auto pc = std::make_unique<PhysicsCommon>(&base); std::vector<std::unique_ptr<Home>> W; bool nt = false; int sets = 0; int user = 1;
    auto num = [&](double lo, double hi) { return decimal(c.real(lo, hi)); };
    auto createWorld = [&]() {
        PhysicsWorld::WorldSettings ws; Shadow d; bool dflt = c.chance(0.2); if (!dflt) { ws.worldName = "w" + std::to_string(c.draw(99)); ws.gravity = lib(vec(c, 10)); ws.defaultFrictionCoefficient = num(0, 2); ws.defaultBounciness = num(0, 1); ws.isSleepingEnabled = c.chance(0.5); ws.defaultVelocitySolverNbIterations = static_cast<uint16>(c.intIn(1, 12)); ws.defaultPositionSolverNbIterations = static_cast<uint16>(c.intIn(1, 8)); ws.defaultTimeBeforeSleep = static_cast<float>(c.real(0, 2)); ws.defaultSleepLinearVelocity = num(0, 0.6); ws.defaultSleepAngularVelocity = num(0, 0.6); }
        W.push_back(std::make_unique<Home>(c, ws, pc.get())); Home& h = *W.back(); h.name = ws.worldName; d.v["gravity"] = dflt ? Vals{0, decimal(-9.81), 0} : vv(ws.gravity); d.v["gravity flag"] = {1}; d.v["sleeping flag"] = {dflt ? 1 : (double)ws.isSleepingEnabled}; d.v["sleep linear velocity"] = {dflt ? decimal(0.02) : ws.defaultSleepLinearVelocity}; d.v["sleep angular velocity"] = {ws.defaultSleepAngularVelocity}; d.v["time before sleep"] = {dflt ? 1.0f : ws.defaultTimeBeforeSleep}; d.v["velocity iterations"] = {dflt ? 6.0 : ws.defaultVelocitySolverNbIterations}; d.v["position iterations"] = {dflt ? 3.0 : ws.defaultPositionSolverNbIterations}; d.v["debug flag"] = {0}; d.v["debug items"] = Vals(6, 0.0); d.v["contact radius"] = {h.s.world->getDebugRenderer().getContactPointSphereRadius()}; d.v["normal length"] = {h.s.world->getDebugRenderer().getContactNormalLength()}; h.world = d; h.joints.clear();
        h.bodies[-1].v["friction"] = {ws.defaultFrictionCoefficient}; h.bodies[-1].v["bounciness"] = {ws.defaultBounciness};
        Scene& s = h.s; s.maxBodies = 10; s.dtMin = 0.005; s.dtMax = 0.04; s.weights({{CREATE_BODY, 8}, {DESTROY_BODY, 4}, {ADD_COLLIDER, 4}, {REMOVE_COLLIDER, 4}, {SET_TRANSFORM, 3}, {SET_LOCAL, 3}, {SET_TYPE, 4}, {SET_ACTIVE, 5}, {SET_SLEEPING, 5}, {FILTER, 5}, {TRIGGER, 3}, {SIMFLAG, 3}, {QUERYFLAG, 3}, {VELOCITY, 3}, {FORCE, 2}, {CREATE_JOINT, 8}, {DESTROY_JOINT, 4}, {STEP, 8}});
    };
    auto agree = [&](const char* what) { for (auto& hp : W) {
        Home& h = *hp; Scene& s = h.s; (void)what; c.check(s.world->getName() == h.name || h.name.empty(), "the name of a world changed"); Shadow g = ofWorld(s.world); for (auto& e : h.world.v) same(c, "world", 0, e.first.c_str(), g.v[e.first], e.second);
        for (auto& b : s.bodies) { Shadow w = ofBody(b->body); for (auto& e : h.bodies[b->id].v) same(c, "body", b->id, e.first.c_str(), w.v[e.first], e.second); c.check(b->body->getType() == b->type && b->body->isActive() == b->active, "type or activity of body %d is not what was set", b->id);
            for (auto& k : b->cols) { Shadow q = ofCol(k.col); for (auto& e : h.cols[k.col].v) if (e.first != "id") same(c, "a collider of body", b->id, e.first.c_str(), q.v[e.first], e.second, e.first == "friction" ? (DP ? 1e-13 : 1e-5) : 0); same(c, "a collider of body", b->id, "flags", {(double)k.col->getCollisionCategoryBits(), (double)k.col->getCollideWithMaskBits(), (double)k.col->getIsTrigger(), (double)k.col->getIsSimulationCollider(), (double)k.col->getIsWorldQueryCollider()}, {(double)k.cat, (double)k.mask, (double)k.trigger, (double)k.sim, (double)k.query}); same(c, "a collider of body", b->id, "local transform", xx(k.col->getLocalToBodyTransform()), xx(k.local)); } }
        for (auto& j : s.joints) { Shadow w = ofJoint(*j); for (auto& e : h.joints[j->id].v) same(c, "joint", j->id, e.first.c_str(), w.v[e.first], e.second); }
        for (auto& e : h.shapes) { Shadow w = ofShape(s.shapes[e.first]); for (auto& x : e.second.v) same(c, "shape", e.first, x.first.c_str(), w.v[x.first], x.second); }
    } };
    // new objects start with the documented defaults
    auto adopt = [&](Home& h) {
        Scene& s = h.s; std::map<int, Shadow> nb, nj; nb[-1] = h.bodies[-1]; std::map<Collider*, Shadow> nc;
        for (auto& b : s.bodies) { if (h.bodies.count(b->id)) nb[b->id] = h.bodies[b->id]; else { Shadow& d = nb[b->id]; d.v["mass"] = {1}; d.v["inertia"] = {1, 1, 1}; d.v["centre of mass"] = {0, 0, 0}; d.v["linear damping"] = {0}; d.v["angular damping"] = {0}; d.v["linear lock"] = {1, 1, 1}; d.v["angular lock"] = {1, 1, 1}; d.v["gravity flag"] = {1}; d.v["sleep permission"] = {1}; d.v["user data"] = {0}; d.v["debug flag"] = {0}; if (b->type == BodyType::DYNAMIC) c.check(b->body->getType() == BodyType::DYNAMIC && !b->body->isSleeping() && b->body->isActive(), "a new body is not dynamic, awake and active"); }
            for (auto& k : b->cols) if (h.cols.count(k.col) && h.cols[k.col].v["id"][0] == b->id) nc[k.col] = h.cols[k.col]; else { Shadow& d = nc[k.col]; d.v["user data"] = {0}; d.v["friction"] = h.bodies[-1].v["friction"]; d.v["bounciness"] = h.bodies[-1].v["bounciness"]; d.v["density"] = {1}; d.v["id"] = {(double)b->id}; } }
        for (auto& j : s.joints) if (h.joints.count(j->id)) nj[j->id] = h.joints[j->id]; else { Shadow& d = nj[j->id]; d.v["collision flag"] = {(double)j->collide}; if (!j->init.empty()) { d.v["limit flag"] = {j->init[0]}; d.v["motor flag"] = {j->init[1]}; d.v["lower limit"] = {j->init[2]}; d.v["upper limit"] = {j->init[3]}; d.v["motor speed"] = {j->init[4]}; d.v["motor maximum"] = {j->init[5]}; } else if (j->type == JointType::BALLSOCKETJOINT) d.v["cone flag"] = {0}; }
        h.bodies = nb; h.joints = nj; h.cols = nc;
        for (size_t i = 0; i < s.shapes.size(); i++) if (!h.shapes.count(static_cast<int>(i))) h.shapes[static_cast<int>(i)] = ofShape(s.shapes[i]);
    };
    auto onOff = [&]() { return c.chance(0.5); };
    createWorld(); if (c.chance(0.3)) createWorld(); agree("creation"); int n = 0; while (c.more(n, 60, 130)) {
        Case::Span sp(c); Home& h = *W[c.draw(W.size() - 1)]; Scene& s = h.s; int kind = c.weighted({50, 20, 12, 12, 8, 5});
        if (kind == 0 || s.bodies.empty()) {
            // a removed collider's address may be reused by the next one: forget it first
            Op o = s.op(); if ((o == DESTROY_BODY || o == REMOVE_COLLIDER || o == DESTROY_JOINT || o == SET_ACTIVE || o == SET_SLEEPING || o == SET_TYPE) && sets > 2 && s.bodies.size() > 1) nt = true; adopt(h); agree(o == NOPS ? "nothing" : OPNAME[o]); continue;
        }
        sets++; SBody* b = s.anyBody(); RigidBody* r = b->body; Shadow& d = h.bodies[b->id];
        if (kind == 1) { int t = c.intIn(0, 12); c.note("set body property %d of #%d", t, b->id); switch (t) {
            case 0: { decimal x = decimal(c.logReal(0.01, 100)); r->setMass(x); d.v["mass"] = {x}; break; } case 1: { Vector3 x(decimal(c.logReal(0.01, 100)), decimal(c.logReal(0.01, 100)), decimal(c.logReal(0.01, 100))); r->setLocalInertiaTensor(x); d.v["inertia"] = vv(x); break; } case 2: { Vector3 x = lib(vec(c, 1)); r->setLocalCenterOfMass(x); d.v["centre of mass"] = vv(x); break; }
            case 3: { decimal x = num(0, 3); r->setLinearDamping(x); d.v["linear damping"] = {x}; break; } case 4: { decimal x = num(0, 3); r->setAngularDamping(x); d.v["angular damping"] = {x}; break; } case 5: { Vector3 x((decimal)onOff(), (decimal)onOff(), (decimal)onOff()); r->setLinearLockAxisFactor(x); d.v["linear lock"] = vv(x); break; } case 6: { Vector3 x((decimal)onOff(), (decimal)onOff(), (decimal)onOff()); r->setAngularLockAxisFactor(x); d.v["angular lock"] = vv(x); break; }
            case 7: { bool x = onOff(); r->enableGravity(x); d.v["gravity flag"] = {(double)x}; break; } case 8: { bool x = onOff(); r->setIsAllowedToSleep(x); d.v["sleep permission"] = {(double)x}; break; } case 9: { uintptr_t x = static_cast<uintptr_t>(user++); r->setUserData(reinterpret_cast<void*>(x)); d.v["user data"] = {(double)x}; break; } case 10: { bool x = onOff(); r->setIsDebugEnabled(x); d.v["debug flag"] = {(double)x}; break; }
            default: if (!b->cols.empty()) { r->updateMassPropertiesFromColliders(); d.v["mass"] = {r->getMass()}; d.v["inertia"] = vv(r->getLocalInertiaTensor()); d.v["centre of mass"] = vv(r->getLocalCenterOfMass()); } } }
        else if (kind == 2) { SBody* kb = nullptr; SCol* k = s.anyCol(kb); if (!k) continue; Shadow& q = h.cols[k->col]; Material& m = k->col->getMaterial(); int t = c.intIn(0, 4); c.note("set collider property %d of #%d", t, kb->id); switch (t) {
            case 0: { uintptr_t x = static_cast<uintptr_t>(user++); k->col->setUserData(reinterpret_cast<void*>(x)); q.v["user data"] = {(double)x}; break; } case 1: { decimal x = num(0, 3); m.setFrictionCoefficient(x); q.v["friction"] = {x}; break; } case 2: { decimal x = num(0, 1); m.setBounciness(x); q.v["bounciness"] = {x}; break; } case 3: { decimal x = decimal(c.logReal(0.01, 10)); m.setMassDensity(x); q.v["density"] = {x}; break; }
            default: { SBody* ob = nullptr; SCol* o = s.anyCol(ob); Material copy = o->col->getMaterial(); decimal x = num(0, 1); copy.setBounciness(x); k->col->setMaterial(copy); q.v["bounciness"] = {x}; Vals fr = h.cols[o->col].v["friction"], de = h.cols[o->col].v["density"]; q.v["friction"] = fr; q.v["density"] = de; } } }
        else if (kind == 3) { if (s.joints.empty()) continue; SJoint& j = *s.joints[c.draw(s.joints.size() - 1)]; Shadow& q = h.joints[j.id]; int t = c.intIn(0, 5); c.note("set joint property %d of @%d", t, j.id); bool on = onOff(); decimal lo = num(-2, 0), hi = num(0, 2), sp2 = num(-5, 5), mx = num(0, 50);
            auto set = [&](auto* x, auto lower, auto upper, auto maxi) { switch (t) { case 0: x->enableLimit(on); q.v["limit flag"] = {(double)on}; break; case 1: x->enableMotor(on); q.v["motor flag"] = {(double)on}; break; case 2: (x->*lower)(lo); q.v["lower limit"] = {lo}; break; case 3: (x->*upper)(hi); q.v["upper limit"] = {hi}; break; case 4: x->setMotorSpeed(sp2); q.v["motor speed"] = {sp2}; break; default: (x->*maxi)(mx); q.v["motor maximum"] = {mx}; } };
            if (j.type == JointType::HINGEJOINT) set(static_cast<HingeJoint*>(j.joint), &HingeJoint::setMinAngleLimit, &HingeJoint::setMaxAngleLimit, &HingeJoint::setMaxMotorTorque); else if (j.type == JointType::SLIDERJOINT) set(static_cast<SliderJoint*>(j.joint), &SliderJoint::setMinTranslationLimit, &SliderJoint::setMaxTranslationLimit, &SliderJoint::setMaxMotorForce); else if (j.type == JointType::BALLSOCKETJOINT) { auto* x = static_cast<BallAndSocketJoint*>(j.joint); if (t < 3) { x->enableConeLimit(on); q.v["cone flag"] = {(double)on}; } else { decimal a = num(0.05, 3); x->setConeLimitHalfAngle(a); q.v["cone angle"] = {a}; } } }
        else if (kind == 4) { int t = c.intIn(0, 11); c.note("set world property %d", t); PhysicsWorld* w = s.world; Shadow& q = h.world; switch (t) { case 0: { Vector3 g = lib(vec(c, 10)); w->setGravity(g); q.v["gravity"] = vv(g); break; } case 1: { bool x = onOff(); w->setIsGravityEnabled(x); q.v["gravity flag"] = {(double)x}; break; } case 2: { bool x = onOff(); w->enableSleeping(x); q.v["sleeping flag"] = {(double)x}; break; } case 3: { decimal x = num(0, 1); w->setSleepLinearVelocity(x); q.v["sleep linear velocity"] = {x}; break; } case 4: { decimal x = num(0, 1); w->setSleepAngularVelocity(x); q.v["sleep angular velocity"] = {x}; break; } case 5: { decimal x = num(0, 1); w->setTimeBeforeSleep(x); q.v["time before sleep"] = {x}; break; } case 6: { int x = c.intIn(1, 12); w->setNbIterationsVelocitySolver(static_cast<uint16>(x)); q.v["velocity iterations"] = {(double)x}; break; } case 7: { int x = c.intIn(1, 12); w->setNbIterationsPositionSolver(static_cast<uint32>(x)); q.v["position iterations"] = {(double)x}; break; } case 8: { bool x = onOff(); w->setIsDebugRenderingEnabled(x); q.v["debug flag"] = {(double)x}; break; } case 9: { int i = c.intIn(0, 5); bool x = onOff(); w->getDebugRenderer().setIsDebugItemDisplayed(ITEMS[i], x); q.v["debug items"][i] = x; break; } case 10: { decimal x = num(0.01, 1); w->getDebugRenderer().setContactPointSphereRadius(x); q.v["contact radius"] = {x}; break; } default: { decimal x = num(0.01, 1); w->getDebugRenderer().setContactNormalLength(x); q.v["normal length"] = {x}; } } }
        else { if (s.shapes.empty()) continue; int i = static_cast<int>(c.draw(s.shapes.size() - 1)); resize(c, s.shapes[i]); c.note("resize shape %d", i); const Shape& z = s.shapes[i]; Shadow w; if (z.kind == SPHERE) w.v["radius"] = {z.poly.r}; else w = ofShape(z); h.shapes[i] = w; }
        agree("a setter");
    }
    if (nt) c.nontrivial(); W.clear(); pc.reset(); base.verifyEmpty(c, "PhysicsCommon");
}
