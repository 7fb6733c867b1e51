#include "observe.h"
using namespace gen;

// every registry of the library against the mirror of what exists
static void registries(Case& c, Scene& s) {
    const PhysicsWorld* w = s.world; c.check(w->getNbRigidBodies() == s.bodies.size(), "the world lists %u bodies, %zu exist", w->getNbRigidBodies(), s.bodies.size());
    std::set<const RigidBody*> seen; std::set<uint32> ids, cids;
    for (uint32 i = 0; i < w->getNbRigidBodies(); i++) { auto* b = w->getRigidBody(i); c.check(s.find(b) != nullptr, "the world lists a body that does not exist"); c.check(seen.insert(b).second, "the world lists a body twice"); }
    for (auto& b : s.bodies) {
        RigidBody* r = b->body; c.check(r->getNbColliders() == b->cols.size(), "body #%d has %u colliders, expected %zu", b->id, r->getNbColliders(), b->cols.size()); c.check(ids.insert(r->getEntity().id).second, "two bodies share an entity"); c.check(r->getUserData() == nullptr || r->getUserData() == b.get(), "user data of body #%d changed", b->id); c.check(r->getType() == b->type && r->isActive() == b->active, "type or activity of body #%d changed", b->id);
        for (size_t i = 0; i < b->cols.size(); i++) {
            SCol& k = b->cols[i]; const RigidBody* cr = r; c.check(r->getCollider(static_cast<uint32>(i)) == k.col && cr->getCollider(static_cast<uint32>(i)) == k.col, "collider %zu of body #%d is another one", i, b->id); c.check(k.col->getBody() == r, "collider %zu of body #%d names another body", i, b->id); c.check(k.col->getCollisionShape() == s.shapes[k.shape].shape, "collider %zu of body #%d has another shape", i, b->id);
            c.check(ref::len(rf(k.col->getLocalToBodyTransform()).t - rf(k.local).t) == 0, "collider %zu of body #%d has another local transform", i, b->id); c.check(cids.insert(k.col->getEntity().id).second, "two colliders share an entity"); c.check(k.col->getCollisionCategoryBits() == k.cat && k.col->getCollideWithMaskBits() == k.mask && k.col->getIsTrigger() == k.trigger && k.col->getIsSimulationCollider() == k.sim && k.col->getIsWorldQueryCollider() == k.query, "flags of collider %zu of body #%d changed", i, b->id);
            Xf x = s.worldX(*b, k); c.check(ref::len(rf(k.col->getLocalToWorldTransform()).t - x.t) <= (DP ? 1e-12 : 1e-4) * (1 + ref::len(x.t)), "collider %zu of body #%d is not placed with its body", i, b->id);
        }
    }
    std::set<uint32> jids; for (auto& j : s.joints) { c.check(j->joint->getBody1() == s.byId(j->b1)->body && j->joint->getBody2() == s.byId(j->b2)->body, "joint @%d links other bodies", j->id); c.check(j->joint->getType() == j->type && j->joint->isCollisionEnabled() == j->collide, "type or flag of joint @%d changed", j->id); c.check(jids.insert(j->joint->getEntity().id).second, "two joints share an entity"); }
}
struct Talk : EventListener {   // touches everything that the callbacks hand out
    Case& c; std::vector<std::unique_ptr<Scene>>& all; Scene* s; size_t n = 0; Talk(Case& cc, std::vector<std::unique_ptr<Scene>>& a, Scene* sc) : c(cc), all(a), s(sc) {}
    void onContact(const CollisionCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto q = d.getContactPair(i); c.check(s->find(q.getCollider1()) && s->find(q.getCollider2()) && s->find(q.getBody1()) && s->find(q.getBody2()), "a contact event names something that does not exist"); n++; for (uint32 k = 0; k < q.getNbContactPoints(); k++) { auto p = q.getContactPoint(k); c.check(std::isfinite(p.getPenetrationDepth()) && ref::finite(rf(p.getWorldNormal())) && ref::finite(rf(p.getLocalPointOnCollider1())), "a contact event with data that is not finite"); } } }
    void onTrigger(const OverlapCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto q = d.getOverlappingPair(i); c.check(s->find(q.getCollider1()) && s->find(q.getCollider2()) && s->find(q.getBody1()) && s->find(q.getBody2()), "a trigger event names something that does not exist"); n++; } }
};
static void setAll(Scene& s, bool big) { s.dtMin = 0.005; s.dtMax = 0.06; s.weights({{CREATE_BODY, big ? 30 : 8}, {DESTROY_BODY, big ? 8 : 5}, {ADD_COLLIDER, 6}, {REMOVE_COLLIDER, 5}, {SET_TRANSFORM, 3}, {SET_LOCAL, 2}, {RESIZE, 2}, {SET_TYPE, 4}, {SET_ACTIVE, 4}, {SET_SLEEPING, 4}, {FILTER, 2}, {TRIGGER, 3}, {SIMFLAG, 2}, {QUERYFLAG, 1}, {VELOCITY, 3}, {FORCE, 3}, {CREATE_JOINT, big ? 25 : 7}, {DESTROY_JOINT, big ? 6 : 4}, {STEP, 16}, {MATERIAL, 1}, {MASS, 2}, {WORLD, 2}, {JOINT_SET, 2}, {ALLOW_SLEEP, 1}, {DESTROY_SHAPE, 4}}); if (big) { s.maxBodies = 45; s.maxJoints = 40; s.maxCols = 2; s.mask = s.dynamicMask = 1; s.range = 6; } }

PBT_PROP(lifecycle, 16000, 600000, "1-3 worlds in one PhysicsCommon, 20-120 operations of all 25 kinds (create, change, step, query, destroy bodies, colliders, joints, shapes, meshes and worlds; one case in eight with up to 45 bodies and 40 joints), with event listeners and debug rendering; after every operation all registries are compared with the mirror; built so that sanitizers see every single block of the library; non-trivial: something was destroyed while other objects referred to it or stood beside it") {
    TrackingAllocator base(static_cast<unsigned char>(c.draw(255)), 0); auto pc = std::make_unique<PhysicsCommon>(&base); std::vector<std::unique_ptr<Scene>> W; std::vector<std::unique_ptr<Talk>> L; bool nt = false; bool big = c.chance(0.12);
    auto create = [&]() { PhysicsWorld::WorldSettings ws; if (c.chance(0.3)) ws.gravity = Vector3(0, 0, 0); ws.isSleepingEnabled = c.chance(0.8); if (c.chance(0.5)) { ws.defaultTimeBeforeSleep = decimal(c.real(0, 0.2)); ws.defaultSleepLinearVelocity = decimal(0.5); ws.defaultSleepAngularVelocity = decimal(0.5); } W.push_back(std::make_unique<Scene>(c, ws, pc.get())); setAll(*W.back(), big); L.push_back(std::make_unique<Talk>(c, W, W.back().get())); if (c.chance(0.7)) W.back()->world->setEventListener(L.back().get()); c.note("create world %zu", W.size() - 1); if (c.chance(0.15)) { W.back()->world->setIsDebugRenderingEnabled(true); W.back()->world->getDebugRenderer().setIsDebugItemDisplayed(DebugRenderer::DebugItem::CONTACT_POINT, true); W.back()->world->getDebugRenderer().setIsDebugItemDisplayed(DebugRenderer::DebugItem::COLLISION_SHAPE, true); c.label("debug rendering"); } };
    create(); int n = 0; while (c.more(n, big ? 90 : 55, big ? 200 : 120)) {
        if (W.empty() || c.chance(0.02)) { Case::Span sp(c); if (W.size() < 3) create(); continue; }
        size_t wi = c.draw(W.size() - 1); Scene& s = *W[wi];
        if (c.chance(0.012)) { Case::Span sp(c); c.note("destroy world %zu", wi); if (!s.bodies.empty()) nt = true; pc->destroyPhysicsWorld(s.world); W.erase(W.begin() + wi); L.erase(L.begin() + wi); c.label("destroy world"); continue; }
        if (c.chance(0.08)) { Case::Span sp(c); int k = c.intIn(0, 5); c.note("query %d", k); Trace t; query(s, c, t, k); c.label("query"); continue; }
        if (c.chance(0.03)) { Case::Span sp(c); if (SBody* b = s.anyBody()) { b->body->setUserData(b); for (auto& k : b->cols) { k.col->setUserData(b); c.check(k.col->getUserData() == b, "user data of a collider is not returned"); } } continue; }
        if (c.chance(0.03)) { Case::Span sp(c); if (!s.joints.empty()) { auto& j = *s.joints[c.draw(s.joints.size() - 1)]; c.check(!j.joint->to_string().empty(), "to_string of a joint is empty"); } for (auto& sh : s.shapes) if (sh.shape) c.check(!sh.shape->to_string().empty(), "to_string of a shape is empty"); continue; }
        size_t others = s.bodies.size(); Op o = s.op(); c.note("[world %zu] %s", wi, o == NOPS ? "-" : OPNAME[o]); if ((o == DESTROY_BODY || o == REMOVE_COLLIDER || o == DESTROY_JOINT || o == DESTROY_SHAPE) && others > 1) nt = true;
        for (auto& x : W) registries(c, *x);
    }
    if (nt) c.nontrivial();
    // the end: worlds and shapes destroyed one by one, or all left to the PhysicsCommon
    if (c.chance(0.5)) { Case::Span sp(c); while (!W.empty()) { size_t i = c.draw(W.size() - 1); Scene& s = *W[i]; if (c.chance(0.5)) while (!s.bodies.empty()) { s.destroyBody(s.anyBody()); registries(c, s); } pc->destroyPhysicsWorld(s.world); for (auto& b : s.bodies) b->cols.clear(); s.bodies.clear(); for (size_t k = 0; k < s.shapes.size(); k++) if (s.shapes[k].shape && c.chance(0.7)) s.destroyShape(static_cast<int>(k)); W.erase(W.begin() + i); L.erase(L.begin() + i); } }
    W.clear(); L.clear(); pc.reset(); base.verifyEmpty(c, "PhysicsCommon");
}
