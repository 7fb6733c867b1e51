// Random worlds driven through the public API, mirrored by a plain model of what exists and how it is set.
#pragma once
#include "gen.h"
namespace gen {
struct SCol { Collider* col = nullptr; int shape = 0; Transform local; unsigned short cat = 1, mask = 0xFFFF; bool trigger = false, sim = true, query = true; };
struct SBody { int id = 0; RigidBody* body = nullptr; std::vector<SCol> cols; BodyType type = BodyType::DYNAMIC; bool active = true; };
struct SJoint { int id = 0; Joint* joint = nullptr; int b1 = 0, b2 = 0; bool collide = true; JointType type = JointType::BALLSOCKETJOINT; std::vector<double> init; };
inline std::vector<double> infoValues(const BallAndSocketJointInfo&) { return {}; }
inline std::vector<double> infoValues(const FixedJointInfo&) { return {}; }
inline std::vector<double> infoValues(const HingeJointInfo& i) { return {(double)i.isLimitEnabled, (double)i.isMotorEnabled, i.minAngleLimit, i.maxAngleLimit, i.motorSpeed, i.maxMotorTorque}; }
inline std::vector<double> infoValues(const SliderJointInfo& i) { return {(double)i.isLimitEnabled, (double)i.isMotorEnabled, i.minTranslationLimit, i.maxTranslationLimit, i.motorSpeed, i.maxMotorForce}; }
enum Op { CREATE_BODY, DESTROY_BODY, ADD_COLLIDER, REMOVE_COLLIDER, SET_TRANSFORM, SET_LOCAL, RESIZE, SET_TYPE, SET_ACTIVE, SET_SLEEPING, FILTER, TRIGGER, SIMFLAG, QUERYFLAG, VELOCITY, FORCE, CREATE_JOINT, DESTROY_JOINT, STEP, MATERIAL, MASS, WORLD, JOINT_SET, ALLOW_SLEEP, DESTROY_SHAPE, NOPS };
static const char* OPNAME[] = {"create body", "destroy body", "add collider", "remove collider", "setTransform", "setLocalToBodyTransform", "resize shape", "setType", "setIsActive", "setIsSleeping", "filter", "trigger", "simulation flag", "query flag", "velocity", "force", "create joint", "destroy joint", "step", "material", "mass", "world setting", "joint setting", "allow sleep", "destroy shape"};
struct Scene {
    Case& c; TrackingAllocator base; std::unique_ptr<PhysicsCommon> own; PhysicsCommon* pc = nullptr; PhysicsWorld* world = nullptr;
    std::vector<Shape> shapes; std::vector<std::unique_ptr<SBody>> bodies; std::vector<std::unique_ptr<SJoint>> joints; int nextId = 0;
    // configuration
    double range = 2.5; unsigned mask = 63; int maxBodies = 8, maxCols = 3, maxJoints = 5; double maxSpeed = 5; int w[NOPS] = {}; int dynamicMask = 15; bool shareShapes = true; double dtMin = 1.0 / 120, dtMax = 1.0 / 20; bool sameDt = false; int typeW[3] = {2, 1, 5}; bool split = true;
    Op last = NOPS; SBody* lastBody = nullptr; int steps = 0; int opsDone[NOPS] = {};
    explicit Scene(Case& cc, const PhysicsWorld::WorldSettings& ws = PhysicsWorld::WorldSettings(), unsigned char fill = 0xCD, size_t off = 0) : c(cc), base(fill, off) { own.reset(new PhysicsCommon(&base)); pc = own.get(); world = pc->createPhysicsWorld(ws); }
    // a further world in an existing PhysicsCommon
    Scene(Case& cc, const PhysicsWorld::WorldSettings& ws, PhysicsCommon* shared) : c(cc), pc(shared) { world = pc->createPhysicsWorld(ws); }
    void close() { bodies.clear(); joints.clear(); shapes.clear(); pc = nullptr; own.reset(); base.verifyEmpty(c, "PhysicsCommon"); }
    SBody* find(const Body* b) { for (auto& p : bodies) if (p->body == b) return p.get(); return nullptr; }
    SBody* byId(int id) { for (auto& p : bodies) if (p->id == id) return p.get(); return nullptr; }
    SCol* find(const Collider* col) { for (auto& p : bodies) for (auto& k : p->cols) if (k.col == col) return &k; return nullptr; }
    Xf worldX(const SBody& b, const SCol& k) const { return rf(b.body->getTransform()) * rf(k.local); }
    bool noCollision(int a, int b) const { for (auto& j : joints) if (!j->collide && ((j->b1 == a && j->b2 == b) || (j->b1 == b && j->b2 == a))) return true; return false; }
    static bool filtersAccept(const SCol& a, const SCol& b) { return (a.mask & b.cat) != 0 && (a.cat & b.mask) != 0; }
    // signed separation of two colliders at their current placement (undecided when below tol); false: far apart or both concave
    bool separation(const SBody& a, const SCol& x, const SBody& b, const SCol& y, double& sd, double& tol) const {
        const Shape &A = shapes[x.shape], &B = shapes[y.shape]; if (!A.convex && !B.convex) return false; Xf xa = worldX(a, x), xb = worldX(b, y); if (ref::len(xa.t - xb.t) > (A.size + B.size) * 1.01 + 0.1) return false;
        sd = 1e300; tol = (DP ? 1e-7 : 1e-2) * (A.size + B.size + 0.1 * ref::len(xa.t));
        if (A.convex && B.convex) { Poly p = ref::transformed(A.poly, xa), q = ref::transformed(B.poly, xb); sd = ref::separation(p, q).sd; tol += ref::parallelSlack(p, q); return true; }
        const Shape &C = A.convex ? A : B, &M = A.convex ? B : A; Xf xc = A.convex ? xa : xb, xm = A.convex ? xb : xa; Poly p = ref::transformed(C.poly, xc); double slack = 0; for (auto& t : M.tris) { Poly q = ref::triangle(xm * t[0], xm * t[1], xm * t[2]); sd = std::min(sd, ref::separation(p, q).sd); slack = std::max(slack, ref::parallelSlack(p, q)); } tol += slack; return true;
    }
    template <class F> void eachPair(F f) { for (size_t i = 0; i < bodies.size(); i++) for (size_t j = 0; j < i; j++) for (auto& x : bodies[i]->cols) for (auto& y : bodies[j]->cols) f(*bodies[i], x, *bodies[j], y); }
    std::string name(const Collider* q) { for (auto& p : bodies) for (size_t i = 0; i < p->cols.size(); i++) if (p->cols[i].col == q) return "#" + std::to_string(p->id) + "/" + std::to_string(i) + " (" + KIND[shapes[p->cols[i].shape].kind] + ")"; return "dead collider"; }
    bool enabled(const SBody& b) const { return b.active && b.type != BodyType::STATIC && !b.body->isSleeping(); }
    Vector3 v3(double r) { return c.chance(0.2) ? Vector3::zero() : lib(vec(c, r)); }
    SBody* anyBody() { return bodies.empty() ? nullptr : bodies[c.draw(bodies.size() - 1)].get(); }
    SCol* anyCol(SBody*& b) { std::vector<std::pair<SBody*, size_t>> v; for (auto& p : bodies) for (size_t i = 0; i < p->cols.size(); i++) v.push_back({p.get(), i}); if (v.empty()) return nullptr; auto& k = v[c.draw(v.size() - 1)]; b = k.first; return &b->cols[k.second]; }
    unsigned short bits() { return static_cast<unsigned short>(c.chance(0.3) ? 0xFFFF : c.draw(7)); }
    Transform localT() { return c.chance(0.5) ? Transform::identity() : place(c, 1); }

    SBody* createBody(const Transform& t, BodyType type) {
        auto b = std::make_unique<SBody>(); b->id = nextId++; b->body = world->createRigidBody(t); b->type = type; if (type != BodyType::DYNAMIC) b->body->setType(type); noteX(c, "create body", t); c.note("  #%d type %d", b->id, static_cast<int>(type)); bodies.push_back(std::move(b)); return bodies.back().get();
    }
    SCol* addCollider(SBody* b) {
        unsigned m = b->type == BodyType::STATIC ? mask : (mask & dynamicMask); if (!m) m = mask; std::vector<int> ok; for (size_t i = 0; i < shapes.size(); i++) if (shapes[i].shape && (m & (1u << shapes[i].kind))) ok.push_back(static_cast<int>(i));
        int s; if (shareShapes && !ok.empty() && c.chance(0.5)) s = c.pick(ok); else { shapes.push_back(shape(c, *pc, m)); s = static_cast<int>(shapes.size()) - 1; }
        return addCollider(b, s, localT());
    }
    SCol* addCollider(SBody* b, int s, const Transform& t) { SCol k; k.shape = s; k.local = t; k.col = b->body->addCollider(shapes[s].shape, t); b->cols.push_back(k); c.note("  collider %zu of #%d: shape %d (%s)", b->cols.size() - 1, b->id, s, KIND[shapes[s].kind]); noteX(c, "   local", t); return &b->cols.back(); }
    void destroyBody(SBody* b) {
        c.note("destroy body #%d", b->id); for (size_t i = 0; i < joints.size();) if (joints[i]->b1 == b->id || joints[i]->b2 == b->id) joints.erase(joints.begin() + i); else i++;
        world->destroyRigidBody(b->body); for (size_t i = 0; i < bodies.size(); i++) if (bodies[i].get() == b) { bodies.erase(bodies.begin() + i); break; }
    }
    V unitAxis() { return dir(c); }
    SJoint* createJoint(SBody* a, SBody* b) {
        auto j = std::make_unique<SJoint>(); j->id = nextId++; j->b1 = a->id; j->b2 = b->id; j->collide = c.chance(0.5); int k = c.intIn(0, 3); bool local = c.chance(0.4); Vector3 pw = decimal(0.5) * (a->body->getTransform().getPosition() + b->body->getTransform().getPosition()); Vector3 la = a->body->getTransform().getInverse() * pw, lb = b->body->getTransform().getInverse() * pw; Vector3 ax = lib(unitAxis()); ax.normalize();
        Vector3 axa = a->body->getTransform().getOrientation().getInverse() * ax, axb = b->body->getTransform().getOrientation().getInverse() * ax;
        JointsPositionCorrectionTechnique tech = c.chance(0.7) ? JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL : JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS; int lm = c.weighted({2, 1, 1}); decimal mn = decimal(-c.real(0, 2)), mx = decimal(c.real(0, 2)), sp = decimal(c.real(-2, 2)), mf = decimal(c.real(0, 20));
        auto finish = [&](auto& i) { j->init = infoValues(i); i.isCollisionEnabled = j->collide; i.positionCorrectionTechnique = tech; j->joint = world->createJoint(i); };
        if (k == 0) { j->type = JointType::BALLSOCKETJOINT; if (local) { BallAndSocketJointInfo i(a->body, b->body, la, lb); finish(i); } else { BallAndSocketJointInfo i(a->body, b->body, pw); finish(i); } }
        else if (k == 1) { j->type = JointType::FIXEDJOINT; if (local) { FixedJointInfo i(a->body, b->body, la, lb); finish(i); } else { FixedJointInfo i(a->body, b->body, pw); finish(i); } }
        else if (k == 2) { j->type = JointType::HINGEJOINT; if (local) { if (lm == 0) { HingeJointInfo i(a->body, b->body, la, lb, axa, axb); finish(i); } else if (lm == 1) { HingeJointInfo i(a->body, b->body, la, lb, axa, axb, mn, mx); finish(i); } else { HingeJointInfo i(a->body, b->body, la, lb, axa, axb, mn, mx, sp, mf); finish(i); } } else { if (lm == 0) { HingeJointInfo i(a->body, b->body, pw, ax); finish(i); } else if (lm == 1) { HingeJointInfo i(a->body, b->body, pw, ax, mn, mx); finish(i); } else { HingeJointInfo i(a->body, b->body, pw, ax, mn, mx, sp, mf); finish(i); } } }
        else { j->type = JointType::SLIDERJOINT; if (local) { if (lm == 0) { SliderJointInfo i(a->body, b->body, la, lb, axa); finish(i); } else if (lm == 1) { SliderJointInfo i(a->body, b->body, la, lb, axa, mn, mx); finish(i); } else { SliderJointInfo i(a->body, b->body, la, lb, axa, mn, mx, sp, mf); finish(i); } } else { if (lm == 0) { SliderJointInfo i(a->body, b->body, pw, ax); finish(i); } else if (lm == 1) { SliderJointInfo i(a->body, b->body, pw, ax, mn, mx); finish(i); } else { SliderJointInfo i(a->body, b->body, pw, ax, mn, mx, sp, mf); finish(i); } } }
        c.note("create joint @%d type %d between #%d and #%d collision %d", j->id, k, a->id, b->id, j->collide); c.label("joint"); joints.push_back(std::move(j)); return joints.back().get();
    }
    void destroyJoint(size_t i) { c.note("destroy joint @%d", joints[i]->id); world->destroyJoint(joints[i]->joint); joints.erase(joints.begin() + i); }
    decimal fixedDt = decimal(1.0 / 60);
    void step() { diverged(); decimal dt = sameDt ? fixedDt : decimal(c.real(dtMin, dtMax)); c.note("step %.17g", static_cast<double>(dt)); if (c.verbose() && getenv("PBT_STATE")) for (auto& b : bodies) { auto v = b->body->getLinearVelocity(), a = b->body->getAngularVelocity(), p = b->body->getTransform().getPosition(); c.note("   #%d p %g %g %g v %g %g %g w %g %g %g", b->id, (double)p.x, (double)p.y, (double)p.z, (double)v.x, (double)v.y, (double)v.z, (double)a.x, (double)a.y, (double)a.z); } world->update(dt); steps++; sanity(); }
    // A joint whose bodies were teleported far apart may diverge: outside of what the solver promises, such a history ends here
    void diverged() { if (!opsDone[CREATE_JOINT]) return; for (auto& b : bodies) if (b->body->getLinearVelocity().length() > 200 || b->body->getAngularVelocity().length() > 500 || b->body->getTransform().getPosition().length() > 1e4) c.discard(); }
    // the state stays finite
    void sanity() { for (auto& b : bodies) { auto& t = b->body->getTransform(); if (!ref::finite(rf(t.getPosition())) || !std::isfinite(t.getOrientation().lengthSquare()) || !ref::finite(rf(b->body->getLinearVelocity())) || !ref::finite(rf(b->body->getAngularVelocity()))) c.fail("state of body #%d is not finite", b->id); } }
    bool shapeUsed(int s) const { for (auto& b : bodies) for (auto& k : b->cols) if (k.shape == s) return true; return false; }
    void destroyShape(int s) {
        Shape& h = shapes[s]; c.note("destroy shape %d", s); switch (h.kind) { case SPHERE: pc->destroySphereShape(static_cast<SphereShape*>(h.shape)); break; case CAPSULE: pc->destroyCapsuleShape(static_cast<CapsuleShape*>(h.shape)); break; case BOX: pc->destroyBoxShape(static_cast<BoxShape*>(h.shape)); break;
            case CONVEX: pc->destroyConvexMeshShape(static_cast<ConvexMeshShape*>(h.shape)); if (c.chance(0.7)) pc->destroyConvexMesh(h.cmesh); break; case TRIMESH: pc->destroyConcaveMeshShape(static_cast<ConcaveMeshShape*>(h.shape)); if (c.chance(0.7)) pc->destroyTriangleMesh(h.tmesh); break; default: pc->destroyHeightFieldShape(static_cast<HeightFieldShape*>(h.shape)); if (c.chance(0.7)) pc->destroyHeightField(h.hf); break; }
        h.shape = nullptr;
    }
    // one operation chosen with weights w[]; returns what was done (NOPS: nothing possible)
    Op op() {
        Case::Span sp(c); int total = 0; for (int x : w) total += x; int r = static_cast<int>(c.draw(static_cast<uint64_t>(total - 1))); int o = 0; while (r >= w[o]) r -= w[o++];
        last = static_cast<Op>(o); lastBody = nullptr; bool done = apply(last); if (done) { opsDone[o]++; c.label(OPNAME[o]); return last; } return last = NOPS;
    }
    bool apply(Op o) {
        SBody* b = nullptr; SCol* k = nullptr;
        switch (o) {
            case CREATE_BODY: { if (static_cast<int>(bodies.size()) >= maxBodies) return false; int t = c.weighted({typeW[2], typeW[0], typeW[1]}); b = createBody(place(c, range), t == 0 ? BodyType::DYNAMIC : t == 1 ? BodyType::STATIC : BodyType::KINEMATIC); int n = c.intIn(0, 2) + (c.chance(0.8) ? 1 : 0); if (n > maxCols) n = maxCols; for (int i = 0; i < n; i++) addCollider(b); lastBody = b; return true; }
            case DESTROY_BODY: if (!(b = anyBody())) return false; destroyBody(b); return true;
            case ADD_COLLIDER: if (!(b = anyBody()) || static_cast<int>(b->cols.size()) >= maxCols) return false; addCollider(b); lastBody = b; return true;
            case REMOVE_COLLIDER: { if (!(k = anyCol(b))) return false; c.note("remove collider %zu of #%d", static_cast<size_t>(k - &b->cols[0]), b->id); b->body->removeCollider(k->col); b->cols.erase(b->cols.begin() + (k - &b->cols[0])); lastBody = b; return true; }
            case SET_TRANSFORM: { if (!(b = anyBody())) return false; Transform t = c.chance(0.25) ? Transform(b->body->getTransform().getPosition() + v3(0.3), b->body->getTransform().getOrientation()) : place(c, range); noteX(c, "setTransform", t); c.note("  of #%d", b->id); b->body->setTransform(t); lastBody = b; return true; }
            case SET_LOCAL: { if (!(k = anyCol(b))) return false; Transform t = localT(); noteX(c, "setLocalToBodyTransform", t); c.note("  of collider %zu of #%d", static_cast<size_t>(k - &b->cols[0]), b->id); k->col->setLocalToBodyTransform(t); k->local = t; lastBody = b; return true; }
            case RESIZE: { if (!(k = anyCol(b))) return false; c.note("resize shape %d", k->shape); resize(c, shapes[k->shape]); return true; }
            case SET_TYPE: { if (!(b = anyBody())) return false; int t = c.weighted({typeW[2], typeW[0], typeW[1]}); b->type = t == 0 ? BodyType::DYNAMIC : t == 1 ? BodyType::STATIC : BodyType::KINEMATIC; c.note("setType %d of #%d", static_cast<int>(b->type), b->id); b->body->setType(b->type); lastBody = b; return true; }
            case SET_ACTIVE: if (!(b = anyBody())) return false; b->active = c.chance(0.6); c.note("setIsActive %d of #%d", b->active, b->id); b->body->setIsActive(b->active); lastBody = b; return true;
            case SET_SLEEPING: { if (!(b = anyBody())) return false; bool s = c.chance(0.6); c.note("setIsSleeping %d of #%d", s, b->id); b->body->setIsSleeping(s); lastBody = b; return true; }
            case FILTER: { if (!(k = anyCol(b))) return false; if (c.chance(0.5)) { k->cat = bits(); c.note("category %x of collider %zu of #%d", k->cat, static_cast<size_t>(k - &b->cols[0]), b->id); k->col->setCollisionCategoryBits(k->cat); } else { k->mask = bits(); c.note("mask %x of collider %zu of #%d", k->mask, static_cast<size_t>(k - &b->cols[0]), b->id); k->col->setCollideWithMaskBits(k->mask); } lastBody = b; return true; }
            case TRIGGER: { if (!(k = anyCol(b))) return false; bool s = c.chance(0.5); c.note("setIsTrigger %d of collider %zu of #%d", s, static_cast<size_t>(k - &b->cols[0]), b->id); k->col->setIsTrigger(s); k->trigger = s; if (s) k->sim = false; lastBody = b; return true; }
            case SIMFLAG: { if (!(k = anyCol(b))) return false; bool s = c.chance(0.6); c.note("setIsSimulationCollider %d of collider %zu of #%d", s, static_cast<size_t>(k - &b->cols[0]), b->id); k->col->setIsSimulationCollider(s); k->sim = s; if (s) k->trigger = false; lastBody = b; return true; }
            case QUERYFLAG: { if (!(k = anyCol(b))) return false; k->query = c.chance(0.6); c.note("setIsWorldQueryCollider %d of collider %zu of #%d", k->query, static_cast<size_t>(k - &b->cols[0]), b->id); k->col->setIsWorldQueryCollider(k->query); lastBody = b; return true; }
            case VELOCITY: { if (!(b = anyBody())) return false; Vector3 v = v3(maxSpeed); if (c.chance(0.5)) { c.note("setLinearVelocity (%g %g %g) of #%d", (double)v.x, (double)v.y, (double)v.z, b->id); b->body->setLinearVelocity(v); } else { c.note("setAngularVelocity (%g %g %g) of #%d", (double)v.x, (double)v.y, (double)v.z, b->id); b->body->setAngularVelocity(v); } lastBody = b; return true; }
            case FORCE: { if (!(b = anyBody())) return false; Vector3 f = v3(20), p = v3(1); int t = c.intIn(0, 9); c.note("force kind %d (%g %g %g) at (%g %g %g) on #%d", t, (double)f.x, (double)f.y, (double)f.z, (double)p.x, (double)p.y, (double)p.z, b->id);
                switch (t) { case 0: b->body->applyLocalForceAtCenterOfMass(f); break; case 1: b->body->applyWorldForceAtCenterOfMass(f); break; case 2: b->body->applyLocalForceAtLocalPosition(f, p); break; case 3: b->body->applyWorldForceAtLocalPosition(f, p); break; case 4: b->body->applyLocalForceAtWorldPosition(f, b->body->getTransform().getPosition() + p); break; case 5: b->body->applyWorldForceAtWorldPosition(f, b->body->getTransform().getPosition() + p); break; case 6: b->body->applyWorldTorque(f); break; case 7: b->body->applyLocalTorque(f); break; case 8: b->body->resetForce(); break; default: b->body->resetTorque(); }
                lastBody = b; return true; }
            case CREATE_JOINT: { if (bodies.size() < 2 || static_cast<int>(joints.size()) >= maxJoints) return false; size_t i = c.draw(bodies.size() - 1), j = c.draw(bodies.size() - 2); if (j >= i) j++; createJoint(bodies[i].get(), bodies[j].get()); return true; }
            case DESTROY_JOINT: if (joints.empty()) return false; destroyJoint(c.draw(joints.size() - 1)); return true;
            case STEP: step(); return true;
            case MATERIAL: { if (!(k = anyCol(b))) return false; Material& m = k->col->getMaterial(); int t = c.intIn(0, 2); if (t == 0) m.setBounciness(decimal(c.real(0, 1))); else if (t == 1) m.setFrictionCoefficient(decimal(c.real(0, 2))); else m.setMassDensity(decimal(c.real(0.2, 5))); c.note("material %d of collider of #%d", t, b->id); lastBody = b; return true; }
            case MASS: { if (!(b = anyBody())) return false; int t = c.intIn(0, 8); c.note("mass property %d of #%d", t, b->id); switch (t) { case 0: b->body->setMass(decimal(c.real(0.2, 10))); break; case 1: b->body->setLocalInertiaTensor(Vector3(decimal(c.real(0.2, 5)), decimal(c.real(0.2, 5)), decimal(c.real(0.2, 5)))); break; case 2: if (!b->cols.empty()) b->body->updateMassPropertiesFromColliders(); break; case 3: b->body->setLinearDamping(decimal(c.real(0, 1))); break; case 4: b->body->setAngularDamping(decimal(c.real(0, 1))); break; case 5: b->body->enableGravity(c.chance(0.5)); break; case 6: b->body->setLinearLockAxisFactor(Vector3(decimal(c.intIn(0, 1)), decimal(c.intIn(0, 1)), decimal(c.intIn(0, 1)))); break; case 7: b->body->setAngularLockAxisFactor(Vector3(decimal(c.intIn(0, 1)), decimal(c.intIn(0, 1)), decimal(c.intIn(0, 1)))); break; default: b->body->setLocalCenterOfMass(v3(0.5)); } lastBody = b; return true; }
            case WORLD: { int t = c.intIn(0, 6); c.note("world setting %d", t); switch (t) { case 0: world->setGravity(v3(10)); break; case 1: world->setIsGravityEnabled(c.chance(0.5)); break; case 2: world->enableSleeping(c.chance(0.7)); break; case 3: world->setNbIterationsVelocitySolver(static_cast<uint16>(c.intIn(1, 10))); break; case 4: world->setNbIterationsPositionSolver(static_cast<uint32>(c.intIn(1, 6))); break; case 5: world->setTimeBeforeSleep(decimal(c.real(0, 0.5))); break; default: split = !c.chance(0.5); world->setContactsPositionCorrectionTechnique(split ? ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS); } return true; }
            case JOINT_SET: { if (joints.empty()) return false; SJoint& j = *joints[c.draw(joints.size() - 1)]; int t = c.intIn(0, 5); c.note("joint setting %d of @%d", t, j.id); decimal lo = decimal(-c.real(0, 2)), hi = decimal(c.real(0, 2)), z = decimal(c.real(-3, 3)); bool on = c.chance(0.6);
                if (j.type == JointType::HINGEJOINT) { auto* h = static_cast<HingeJoint*>(j.joint); switch (t) { case 0: h->enableLimit(on); break; case 1: h->enableMotor(on); break; case 2: h->setMinAngleLimit(lo); break; case 3: h->setMaxAngleLimit(hi); break; case 4: h->setMotorSpeed(z); break; default: h->setMaxMotorTorque(hi * 10); } }
                else if (j.type == JointType::SLIDERJOINT) { auto* h = static_cast<SliderJoint*>(j.joint); switch (t) { case 0: h->enableLimit(on); break; case 1: h->enableMotor(on); break; case 2: h->setMinTranslationLimit(lo); break; case 3: h->setMaxTranslationLimit(hi); break; case 4: h->setMotorSpeed(z); break; default: h->setMaxMotorForce(hi * 10); } }
                else if (j.type == JointType::BALLSOCKETJOINT) { auto* h = static_cast<BallAndSocketJoint*>(j.joint); if (t < 3) h->enableConeLimit(on); else h->setConeLimitHalfAngle(decimal(c.real(0.05, 3))); }
                return true; }
            case ALLOW_SLEEP: { if (!(b = anyBody())) return false; bool s = c.chance(0.5); c.note("setIsAllowedToSleep %d of #%d", s, b->id); b->body->setIsAllowedToSleep(s); lastBody = b; return true; }
            case DESTROY_SHAPE: { std::vector<int> ok; for (size_t i = 0; i < shapes.size(); i++) if (shapes[i].shape && !shapeUsed(static_cast<int>(i))) ok.push_back(static_cast<int>(i)); if (ok.empty()) return false; destroyShape(c.pick(ok)); return true; }
            default: return false;
        }
    }
    void weights(std::initializer_list<std::pair<Op, int>> l) { for (auto& p : l) w[p.first] = p.second; }
};
}
