#include "observe.h"
using namespace gen;

PBT_PROP(twins, 15000, 600000, "two worlds (other garbage in fresh memory, other addresses, same or another PhysicsCommon, other worlds alive and stepping) are driven by the same choices for 10-80 operations; ray casts, point tests and getters are called on one of them only; after every operation all observable state, every event and every query result must be bit-identical; non-trivial: at least one contact event and five updates") {
    PhysicsWorld::WorldSettings ws; if (c.chance(0.2)) ws.gravity = Vector3(0, 0, 0); if (c.chance(0.3)) ws.defaultTimeBeforeSleep = decimal(c.real(0.02, 0.3));
    Case twin; twin.mTwin = true; std::vector<uint64_t> tape;
    unsigned char f1 = static_cast<unsigned char>(c.draw(255)), f2 = static_cast<unsigned char>(c.draw(255)); int share = c.weighted({3, 1, 1}); size_t off = 16 * c.draw(16); Scene a(c, ws, f1, 0); std::unique_ptr<Scene> bp; std::unique_ptr<Scene> other;
    TrackingAllocator base2(f2, off); std::unique_ptr<PhysicsCommon> pc2; PhysicsCommon* use = a.pc; if (share != 1) { pc2.reset(new PhysicsCommon(&base2)); use = pc2.get(); }
    if (share == 2) {   // memory that was used before: another world lived and died in the second PhysicsCommon
        PhysicsWorld* w = use->createPhysicsWorld(); auto* sh = use->createSphereShape(decimal(1)); for (int i = 0; i < 6; i++) { auto* r = w->createRigidBody(Transform(Vector3(0, decimal(i), 0), Quaternion::identity())); r->addCollider(sh, Transform::identity()); } for (int i = 0; i < 5; i++) w->update(decimal(0.02)); use->destroyPhysicsWorld(w); c.label("used memory");
    }
    PhysicsWorld* third = nullptr; if (c.chance(0.3)) { third = use->createPhysicsWorld(); auto* sh = use->createBoxShape(Vector3(1, 1, 1)); for (int i = 0; i < 4; i++) { auto* r = third->createRigidBody(Transform(Vector3(decimal(0.1 * i), decimal(i), 0), Quaternion::identity())); r->addCollider(sh, Transform::identity()); } c.label("a third world alive"); }
    bp.reset(new Scene(twin, ws, use)); Scene& b = *bp;
    for (Scene* s : {&a, &b}) { s->maxBodies = 7; s->dtMin = 0.005; s->dtMax = 0.05; s->weights({{CREATE_BODY, 5}, {DESTROY_BODY, 2}, {ADD_COLLIDER, 2}, {REMOVE_COLLIDER, 2}, {SET_TRANSFORM, 3}, {SET_LOCAL, 1}, {SET_TYPE, 1}, {SET_ACTIVE, 2}, {SET_SLEEPING, 2}, {FILTER, 1}, {TRIGGER, 2}, {SIMFLAG, 1}, {QUERYFLAG, 1}, {VELOCITY, 4}, {FORCE, 3}, {CREATE_JOINT, 4}, {DESTROY_JOINT, 1}, {JOINT_SET, 2}, {STEP, 26}, {MATERIAL, 2}, {MASS, 3}, {WORLD, 2}, {ALLOW_SLEEP, 1}, {RESIZE, 1}}); }
    double range = c.real(1, 3); a.range = b.range = range; Ears ea, eb; ea.s = &a; eb.s = &b; a.world->setEventListener(&ea); b.world->setEventListener(&eb); size_t events = 0;
    auto both = [&](auto f, const char* what) {
        tape.clear(); c.mRec = &tape; struct Off { Case& c; ~Off() { c.mRec = nullptr; } } offR{c}; f(a, c); c.mRec = nullptr; twin.mTape = &tape; twin.mTapePos = 0; f(b, twin);
        c.check(!twin.mTwinDiverged && twin.mTapePos == tape.size(), "%s: the second world is in another state (it takes other choices)", what);
        compare(c, ea.t, eb.t, "events"); events += ea.t.v.size(); ea.t = Trace(); eb.t = Trace();
        compare(c, look(a, a.fixedDt), look(b, b.fixedDt), what);
    };
    both([](Scene& s, Case&) { for (int i = 0; i < 3; i++) s.apply(CREATE_BODY); }, "creating bodies");
    bool queries = c.chance(0.4); int n = 0; while (c.more(n, 35, 80)) {
        if (queries && c.chance(0.15)) { Case::Span sp(c); Trace ta, tb; int k = c.intIn(0, 5); bool first = true; c.note("query %d on both worlds", k); both([&](Scene& s, Case& cc) { query(s, cc, first ? ta : tb, k); first = false; }, "a query"); compare(c, ta, tb, "query results"); c.label("queries on both", 1); continue; }
        if (c.chance(0.2)) { Case::Span sp(c); Trace t; int k = c.intIn(0, 2); bool second = c.chance(0.5); c.note("query %d on one world", k); tape.clear(); Scene& s = second ? b : a; query(s, c, t, k); (void)look(s, decimal(0.02)); c.label("queries on one"); if (third) third->update(decimal(0.01)); continue; }
        char what[64]; both([](Scene& s, Case&) { s.op(); }, "an operation"); (void)what;
    }
    if (events > 0 && a.steps >= 5) c.nontrivial();
    a.world->setEventListener(nullptr); b.world->setEventListener(nullptr); bp.reset(); if (pc2) { pc2.reset(); base2.verifyEmpty(c, "PhysicsCommon"); } a.close();
}
