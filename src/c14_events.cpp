#include "scene.h"
using namespace gen;

// Model: per collider pair, was it touching when it was last tested? Events of an update must fit.
typedef std::pair<const Collider*, const Collider*> CP;
static CP key(const Collider* a, const Collider* b) { return a < b ? CP(a, b) : CP(b, a); }
enum Ev { START, STAY, EXIT };
static const char* EVNAME[] = {"start", "stay", "exit"};
struct Rec { CP k; Ev e; bool trigger; };
struct Listener : EventListener {
    Scene& s; Case& c; std::vector<Rec> ev; bool inUpdate = false; std::string bad; explicit Listener(Scene& sc) : s(sc), c(sc.c) {}
    void add(Collider* a, Collider* b, Body* x, Body* y, Ev e, bool trig) { if (!inUpdate) bad = "an event was reported outside of update()"; if (!s.find(a) || !s.find(b)) { bad = "an event names a collider that does not exist any more"; return; } if (a->getBody() != x || b->getBody() != y) bad = "an event names a body that does not own the collider"; ev.push_back({key(a, b), e, trig}); }
    void onContact(const CollisionCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto q = d.getContactPair(i); auto t = q.getEventType(); Ev e = t == CollisionCallback::ContactPair::EventType::ContactStart ? START : t == CollisionCallback::ContactPair::EventType::ContactStay ? STAY : EXIT; add(q.getCollider1(), q.getCollider2(), q.getBody1(), q.getBody2(), e, false);
            if (e != EXIT && q.getNbContactPoints() == 0) bad = "a contact start or stay event without contact points"; for (uint32 k = 0; k < q.getNbContactPoints() && e != EXIT; k++) if (!(q.getContactPoint(k).getPenetrationDepth() > 0)) bad = "a contact event with a contact point without depth"; } }
    void onTrigger(const OverlapCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto q = d.getOverlappingPair(i); auto t = q.getEventType(); Ev e = t == OverlapCallback::OverlapPair::EventType::OverlapStart ? START : t == OverlapCallback::OverlapPair::EventType::OverlapStay ? STAY : EXIT; add(q.getCollider1(), q.getCollider2(), q.getBody1(), q.getBody2(), e, true); } }
};
struct Sink : OverlapCallback { void onOverlap(CallbackData&) override {} };
struct CSink : CollisionCallback { void onContact(const CallbackData&) override {} };

PBT_PROP(event_protocol, 9000, 500000, "a world of up to 6 bodies with an event listener, 15-120 operations of which about half are updates (gravity, velocities, teleports, sleeping, filters, triggers, flags, activation, creation and destruction, queries in between); every event of every update is compared with a pair automaton and the reference geometry before the update; non-trivial: at least one full start-stay-exit sequence, or a touching pair across a sleep or property change") {
    PhysicsWorld::WorldSettings ws; if (c.chance(0.4)) ws.gravity = Vector3(0, 0, 0); if (c.chance(0.4)) { ws.defaultTimeBeforeSleep = decimal(c.real(0.02, 0.2)); ws.defaultSleepLinearVelocity = decimal(0.3); ws.defaultSleepAngularVelocity = decimal(0.3); } Scene s(c, ws); s.range = c.real(1, 4); s.maxBodies = 6; s.dynamicMask = c.chance(0.8) ? 15 : 63; s.dtMin = 0.005; s.dtMax = 0.08;
    s.weights({{CREATE_BODY, 4}, {DESTROY_BODY, 2}, {ADD_COLLIDER, 2}, {REMOVE_COLLIDER, 2}, {SET_TRANSFORM, 5}, {SET_LOCAL, 2}, {SET_TYPE, 2}, {SET_ACTIVE, 2}, {SET_SLEEPING, 4}, {FILTER, 3}, {TRIGGER, 3}, {SIMFLAG, 2}, {QUERYFLAG, 1}, {VELOCITY, 5}, {FORCE, 2}, {CREATE_JOINT, 1}, {DESTROY_JOINT, 1}, {MATERIAL, 1}, {WORLD, 1}, {ALLOW_SLEEP, 1}, {MASS, 1}});
    Listener l(s); s.world->setEventListener(&l);
    std::map<CP, bool> prev; std::map<CP, int> starts, exits; bool query = false, across = false; std::set<CP> dropped;
    auto drop = [&](const Collider* k) { for (auto it = prev.begin(); it != prev.end();) if (it->first.first == k || it->first.second == k) { if (it->second) dropped.insert(it->first); it = prev.erase(it); } else ++it; };
    auto step = [&]() {
        Case::Span sp(c); struct W { bool must, may, trig, awake; double sd; }; std::map<CP, W> want;
        s.eachPair([&](SBody& a, SCol& x, SBody& b, SCol& y) {
            CP k = key(x.col, y.col); bool awake = s.enabled(a) || s.enabled(b); double sd = 1, tol = 0; bool close = s.separation(a, x, b, y, sd, tol); bool allowed = a.active && b.active && (x.sim || x.trigger) && (y.sim || y.trigger) && Scene::filtersAccept(x, y) && !s.noCollision(a.id, b.id);
            bool touch = close && allowed && sd < -tol, maybe = close && allowed && std::fabs(sd) <= tol; want[k] = {touch && awake, (touch || maybe) && awake, x.trigger || y.trigger, awake, sd};
        });
        l.ev.clear(); l.inUpdate = true; s.step(); l.inUpdate = false; if (!l.bad.empty()) c.fail("%s", l.bad.c_str());
        std::map<CP, std::vector<Rec>> by; for (auto& r : l.ev) { by[r.k].push_back(r); if (c.verbose()) c.note("  %s %s of %s and %s", r.trigger ? "trigger" : "contact", EVNAME[r.e], s.name(r.k.first).c_str(), s.name(r.k.second).c_str()); }
        for (auto& kv : by) {
            auto nm = s.name(kv.first.first) + " and " + s.name(kv.first.second); c.check(want.count(kv.first), "an event between colliders of one body: %s", nm.c_str()); const W& w = want[kv.first]; bool was = prev.count(kv.first) && prev[kv.first]; auto& v = kv.second;
            if (v.size() == 2 && query) { bool se = (v[0].e == EXIT && v[1].e == START) || (v[0].e == START && v[1].e == EXIT); if (se) { c.label("exit and start in one update"); if (v[0].e == EXIT) std::swap(v[0], v[1]); v.pop_back(); was = false; } }   // the pair was dropped by a query or joint between the updates
            c.check(v.size() == 1, "%zu events in one update for %s", v.size(), nm.c_str()); const Rec& r = v[0];
            c.check(r.e == START ? !was : was || dropped.count(kv.first), "%s event for %s, which %s touching before", EVNAME[r.e], nm.c_str(), was ? "were already" : "were not");
            c.check(r.trigger == w.trig || (query && r.e == EXIT), "%s event for %s was reported through the %s callback", EVNAME[r.e], nm.c_str(), r.trigger ? "trigger" : "contact");
            if (r.e != EXIT) c.check(w.may, "%s event for %s, which do not touch (separation %.9g) or must not react", EVNAME[r.e], nm.c_str(), w.sd); else c.check(!w.must, "exit event for %s, which still touch (separation %.9g)", nm.c_str(), w.sd);
            if (r.e == START) starts[kv.first]++; if (r.e == EXIT) { if (starts[kv.first] > exits[kv.first]) exits[kv.first]++; } if (r.e == STAY && !w.trig) across = across || s.opsDone[SET_SLEEPING] + s.opsDone[FILTER] > 0;
            prev[kv.first] = r.e != EXIT; c.label(r.trigger ? (r.e == START ? "trigger start" : r.e == STAY ? "trigger stay" : "trigger exit") : (r.e == START ? "contact start" : r.e == STAY ? "contact stay" : "contact exit"));
        }
        for (auto& kv : want) if (!by.count(kv.first)) { auto nm = s.name(kv.first.first) + " and " + s.name(kv.first.second); c.check(!kv.second.must, "no event for %s, which touch (separation %.9g) and are awake", nm.c_str(), kv.second.sd); c.check(!(prev.count(kv.first) && prev[kv.first] && kv.second.awake), "no exit or stay event for %s, which touched at the last update (separation now %.9g)", nm.c_str(), kv.second.sd); }
        query = false; dropped.clear();
    };
    int n0 = c.intIn(2, 4); for (int i = 0; i < n0; i++) s.apply(CREATE_BODY);
    int n = 0; while (c.more(n, 50, 120)) {
        if (c.chance(0.5)) { step(); continue; }
        if (c.chance(0.08)) { Case::Span sp(c); int k = c.intIn(0, 2); c.note("query"); query = true; if (k == 0) { Sink x; s.world->testOverlap(x); } else if (k == 1) { CSink x; s.world->testCollision(x); } else if (SBody* b = s.anyBody()) { Sink x; s.world->testOverlap(b->body, x); } continue; }
        std::set<const Collider*> before; for (auto& b : s.bodies) for (auto& k : b->cols) if (b->active) before.insert(k.col);
        Op o = s.op(); if (o == CREATE_JOINT || o == DESTROY_JOINT) query = true;
        for (auto& b : s.bodies) for (auto& k : b->cols) if (b->active) before.erase(k.col);
        for (auto k : before) drop(k);
    }
    bool full = false; for (auto& e : exits) full = full || e.second > 0; if (full || across) c.nontrivial();
    s.world->setEventListener(nullptr); s.close();
}
