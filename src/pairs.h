// Query forms on two one-collider bodies.
#pragma once
#include "geo.h"
using namespace gen;

struct OCb : OverlapCallback { std::vector<std::pair<Collider*, Collider*>> p; void onOverlap(CallbackData& d) override { for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto q = d.getOverlappingPair(i); p.push_back({q.getCollider1(), q.getCollider2()}); } } };
struct CCb : CollisionCallback { int pairs = 0, points = 0; void onContact(const CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto q = d.getContactPair(i); pairs++; points += static_cast<int>(q.getNbContactPoints()); } } };

// Checks all query forms for two one-collider bodies; `want` is 1 overlap, -1 no overlap.
static void expect(Case& c, PhysicsWorld* w, RigidBody* a, RigidBody* b, int want, double sd, const char* ka, const char* kb) {
    const bool o = want > 0; int order = c.intIn(0, 3);
    for (int k = 0; k < 2; k++) {
        bool swap = (order & 1) != (k == 1);
        if ((order & 2) != 0 || k == 1) { bool got = swap ? w->testOverlap(b, a) : w->testOverlap(a, b); c.check(got == o, "testOverlap(%s) of a %s and a %s is %d, the separation of the solids is %.9g", swap ? "second, first" : "first, second", ka, kb, got, sd); }
        CCb cc; if (swap) w->testCollision(b, a, cc); else w->testCollision(a, b, cc); c.check((cc.pairs > 0) == o, "testCollision reports %d pairs for a %s and a %s, the separation of the solids is %.9g", cc.pairs, ka, kb, sd); c.check(cc.pairs <= 1, "one pair of colliders reported %d times", cc.pairs); c.check(!o || cc.points > 0, "contact pair without contact points");
    }
    switch (c.intIn(0, 3)) {
        case 0: { OCb cb; w->testOverlap(cb); c.check(cb.p.size() == (o ? 1u : 0u), "testOverlap(callback) reports %zu pairs for a %s and a %s, separation %.9g", cb.p.size(), ka, kb, sd); break; }
        case 1: { OCb cb; w->testOverlap(c.chance(0.5) ? a : b, cb); c.check(cb.p.size() == (o ? 1u : 0u), "testOverlap(body, callback) reports %zu pairs for a %s and a %s, separation %.9g", cb.p.size(), ka, kb, sd); break; }
        case 2: { CCb cb; w->testCollision(c.chance(0.5) ? a : b, cb); c.check(cb.pairs == (o ? 1 : 0), "testCollision(body, callback) reports %d pairs for a %s and a %s, separation %.9g", cb.pairs, ka, kb, sd); break; }
        default: { CCb cb; w->testCollision(cb); c.check(cb.pairs == (o ? 1 : 0), "testCollision(callback) reports %d pairs for a %s and a %s, separation %.9g", cb.pairs, ka, kb, sd); break; }
    }
}

