#include "scene.h"
#include "pairs.h"

typedef std::pair<const Collider*, const Collider*> CP;
static CP key(const Collider* a, const Collider* b) { return a < b ? CP(a, b) : CP(b, a); }
struct PairRec : OverlapCallback, CollisionCallback {
    Case& c; std::set<CP> got; bool contacts = false; explicit PairRec(Case& cc) : c(cc) {}
    void add(Collider* a, Collider* b, Body* x, Body* y) { c.check(a->getBody() == x && b->getBody() == y, "a reported pair names a body that does not own its collider"); c.check(got.insert(key(a, b)).second, "a pair of colliders was reported twice by one query"); }
    void onOverlap(OverlapCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto q = d.getOverlappingPair(i); add(q.getCollider1(), q.getCollider2(), q.getBody1(), q.getBody2()); } }
    void onContact(const CollisionCallback::CallbackData& d) override { contacts = true; for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto q = d.getContactPair(i); add(q.getCollider1(), q.getCollider2(), q.getBody1(), q.getBody2()); c.check(q.getNbContactPoints() > 0, "a contact pair without contact points"); for (uint32 k = 0; k < q.getNbContactPoints(); k++) c.check(q.getContactPoint(k).getPenetrationDepth() > 0, "a contact point with depth %g", (double)q.getContactPoint(k).getPenetrationDepth()); } }
};

PBT_PROP(queries_agree, 14000, 600000, "a world of up to 7 bodies with convex and concave colliders, 5-45 random operations (create, destroy, move, resize, sleep, activate, change type, filters, flags, joints, steps), at 3-6 moments every query form is compared with the pairs that intersect by reference geometry; non-trivial: a moment with at least two intersecting and one filtered or separated close pair, after 3 or more kinds of changes") {
    PhysicsWorld::WorldSettings ws; if (c.chance(0.5)) ws.gravity = Vector3(0, 0, 0); Scene s(c, ws); s.range = c.real(1, 4); s.maxBodies = 7; s.dynamicMask = c.chance(0.8) ? 15 : 63;
    s.weights({{CREATE_BODY, 8}, {DESTROY_BODY, 2}, {ADD_COLLIDER, 3}, {REMOVE_COLLIDER, 2}, {SET_TRANSFORM, 4}, {SET_LOCAL, 2}, {RESIZE, 1}, {SET_TYPE, 3}, {SET_ACTIVE, 3}, {SET_SLEEPING, 5}, {FILTER, 4}, {TRIGGER, 3}, {SIMFLAG, 2}, {QUERYFLAG, 2}, {VELOCITY, 2}, {CREATE_JOINT, 2}, {DESTROY_JOINT, 2}, {STEP, 7}, {MATERIAL, 1}, {WORLD, 1}, {ALLOW_SLEEP, 1}});
    for (int i = 0; i < 3; i++) s.apply(CREATE_BODY);
    auto verify = [&]() {
        Case::Span sp(c); std::set<CP> yes, maybe, ycol, mcol; int filtered = 0;
        s.eachPair([&](SBody& ra, SCol& x, SBody& rb, SCol& y) {
            SBody *a = &ra, *b = &rb; double sd, tol; if (!s.separation(*a, x, *b, y, sd, tol)) return;
            bool ok = a->active && b->active && x.query && y.query && Scene::filtersAccept(x, y) && !s.noCollision(a->id, b->id); if (!ok) { if (sd < 0) filtered++; return; }
            CP k = key(x.col, y.col); bool trig = x.trigger || y.trigger; if (std::fabs(sd) < tol) { maybe.insert(k); if (!trig) mcol.insert(k); } else if (sd < 0) { yes.insert(k); if (!trig) ycol.insert(k); }
            if (c.verbose()) c.note("  pair #%d/%zu #%d/%zu separation %.9g", a->id, (size_t)(&x - &a->cols[0]), b->id, (size_t)(&y - &b->cols[0]), sd);
        });
        auto bodyOf = [&](const Collider* k) { return k->getBody(); };
        auto name = [&](CP k) { return s.name(k.first) + " and " + s.name(k.second); };
        auto compare = [&](const char* q, const std::set<CP>& got, const std::set<CP>& want, const std::set<CP>& open, const Body* only, const Body* other) {
            auto in = [&](CP k) { return !only || (other ? ((bodyOf(k.first) == only && bodyOf(k.second) == other) || (bodyOf(k.first) == other && bodyOf(k.second) == only)) : bodyOf(k.first) == only || bodyOf(k.second) == only); };
            for (auto& k : want) if (in(k)) c.check(got.count(k), "%s does not report the intersecting colliders %s", q, name(k).c_str());
            for (auto& k : got) { c.check(s.find(k.first) && s.find(k.second), "%s reports a collider that does not exist any more", q); c.check(in(k), "%s reports colliders %s of other bodies", q, name(k).c_str()); c.check(want.count(k) || open.count(k), "%s reports colliders %s, which do not intersect or must not be reported", q, name(k).c_str()); }
        };
        int what = c.intIn(0, 3); bool all4 = c.chance(0.4);
        if (what == 0 || all4) { PairRec r(c); s.world->testOverlap(r); compare("testOverlap(callback)", r.got, yes, maybe, nullptr, nullptr); }
        if (what == 1 || all4) { PairRec r(c); s.world->testCollision(r); compare("testCollision(callback)", r.got, ycol, mcol, nullptr, nullptr); }
        if (what == 2 || all4) for (auto& b : s.bodies) { PairRec r(c), t(c); s.world->testOverlap(b->body, r); compare("testOverlap(body, callback)", r.got, yes, maybe, b->body, nullptr); s.world->testCollision(b->body, t); compare("testCollision(body, callback)", t.got, ycol, mcol, b->body, nullptr); }
        if (what == 3 || all4) for (auto& b : s.bodies) for (auto& d : s.bodies) if (b != d) {
            PairRec t(c); s.world->testCollision(b->body, d->body, t); compare("testCollision(body, body, callback)", t.got, ycol, mcol, b->body, d->body);
            bool o = s.world->testOverlap(b->body, d->body), any = false, may = false; for (auto& k : yes) any |= (k.first->getBody() == b->body && k.second->getBody() == d->body) || (k.first->getBody() == d->body && k.second->getBody() == b->body); for (auto& k : maybe) may |= (k.first->getBody() == b->body && k.second->getBody() == d->body) || (k.first->getBody() == d->body && k.second->getBody() == b->body);
            c.check(o ? any || may : !any, "testOverlap(#%d, #%d) is %d", b->id, d->id, o);
        }
        int kinds = 0; for (int o = 0; o < NOPS; o++) kinds += s.opsDone[o] > 0; if (yes.size() >= 2 && filtered > 0 && kinds >= 3) c.nontrivial(); c.label("moments"); c.label("intersecting pairs", yes.size()); c.label("excluded intersecting pairs", filtered);
    };
    int rounds = c.intIn(2, 5);
    for (int r = 0; r < rounds; r++) { int n = 0; while (c.more(n, 5, 12)) s.op(); if (s.opsDone[RESIZE]) { s.step(); s.opsDone[RESIZE] = 0; }   // bounds of resized shapes are refreshed by the next update
        verify(); }
    s.close();
}
