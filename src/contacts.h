// Contact data of the collision query, collected per collider pair.
#pragma once
#include "geo.h"
namespace gen {
struct CPoint { V n, p1, p2; double depth; };      // world space
struct CPair { Collider *c1, *c2; Body *b1, *b2; std::vector<CPoint> pts; };
struct Contacts : CollisionCallback {
    std::vector<CPair> pairs;
    static CPair get(const ContactPair& q) { CPair p{q.getCollider1(), q.getCollider2(), q.getBody1(), q.getBody2(), {}}; Transform t1 = p.c1->getLocalToWorldTransform(), t2 = p.c2->getLocalToWorldTransform(); for (uint32 k = 0; k < q.getNbContactPoints(); k++) { auto x = q.getContactPoint(k); p.pts.push_back({rf(x.getWorldNormal()), rf(t1 * x.getLocalPointOnCollider1()), rf(t2 * x.getLocalPointOnCollider2()), static_cast<double>(x.getPenetrationDepth())}); } return p; }
    void onContact(const CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) pairs.push_back(get(d.getContactPair(i))); }
};
}
