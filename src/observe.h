// What a user can observe of a world: state, events and query results as lists of values.
#pragma once
#include "scene.h"
namespace gen {
// Everything a user can observe of a world, as a list of exact values.
struct Trace { std::vector<double> v; std::vector<std::string> at; void add(double x, const char* what) { v.push_back(x); at.push_back(what); } void add(const Vector3& x, const char* w) { add(x.x, w); add(x.y, w); add(x.z, w); } };
inline void compare(Case& c, const Trace& a, const Trace& b, const char* what) {
    for (size_t i = 0; i < std::min(a.v.size(), b.v.size()); i++) if (std::memcmp(&a.v[i], &b.v[i], sizeof(double)) != 0) c.fail("%s: %s is %.17g in one world and %.17g in the other (item %zu)", what, a.at[i].c_str(), a.v[i], b.v[i], i);
    c.check(a.v.size() == b.v.size(), "%s: %zu values in one world and %zu in the other", what, a.v.size(), b.v.size());
}
inline double colId(Scene& s, const Collider* q) { for (auto& b : s.bodies) for (size_t i = 0; i < b->cols.size(); i++) if (b->cols[i].col == q) return b->id * 100.0 + static_cast<double>(i); return -1; }
inline void points(Trace& t, const CollisionCallback::ContactPair& q) { for (uint32 k = 0; k < q.getNbContactPoints(); k++) { auto p = q.getContactPoint(k); t.add(p.getWorldNormal(), "a contact normal"); t.add(p.getLocalPointOnCollider1(), "a contact point"); t.add(p.getLocalPointOnCollider2(), "a contact point"); t.add(p.getPenetrationDepth(), "a contact depth"); } }
struct Ears : EventListener {
    Scene* s = nullptr; Trace t;
    void onContact(const CollisionCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto q = d.getContactPair(i); t.add(colId(*s, q.getCollider1()), "the first collider of a contact event"); t.add(colId(*s, q.getCollider2()), "the second collider of a contact event"); t.add(static_cast<double>(q.getEventType()), "a contact event type"); points(t, q); } }
    void onTrigger(const OverlapCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto q = d.getOverlappingPair(i); t.add(colId(*s, q.getCollider1()), "the first collider of a trigger event"); t.add(colId(*s, q.getCollider2()), "the second collider of a trigger event"); t.add(static_cast<double>(q.getEventType()), "a trigger event type"); } }
};
struct CSee : CollisionCallback { Scene& s; Trace& t; CSee(Scene& a, Trace& b) : s(a), t(b) {} void onContact(const CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto q = d.getContactPair(i); t.add(colId(s, q.getCollider1()), "a collider in testCollision"); t.add(colId(s, q.getCollider2()), "a collider in testCollision"); points(t, q); } } };
struct OSee : OverlapCallback { Scene& s; Trace& t; OSee(Scene& a, Trace& b) : s(a), t(b) {} void onOverlap(CallbackData& d) override { for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto q = d.getOverlappingPair(i); t.add(colId(s, q.getCollider1()), "a collider in testOverlap"); t.add(colId(s, q.getCollider2()), "a collider in testOverlap"); } } };
struct RSee : RaycastCallback { Scene& s; Trace& t; decimal ret; RSee(Scene& a, Trace& b, decimal r) : s(a), t(b), ret(r) {} decimal notifyRaycastHit(const RaycastInfo& i) override { t.add(colId(s, i.collider), "a collider hit by a ray"); t.add(i.worldPoint, "a ray hit"); t.add(i.worldNormal, "a ray hit normal"); t.add(i.hitFraction, "a ray fraction"); t.add(i.triangleIndex, "a triangle index"); return ret < 0 ? i.hitFraction : ret; } };
inline Trace look(Scene& s, decimal dt) {
    Trace t; t.add(s.world->getNbRigidBodies(), "the number of bodies");
    for (auto& b : s.bodies) { RigidBody* r = b->body; auto& x = r->getTransform(); auto q = x.getOrientation(); t.add(x.getPosition(), "a position"); t.add(q.x, "an orientation"); t.add(q.y, "an orientation"); t.add(q.z, "an orientation"); t.add(q.w, "an orientation"); t.add(r->getLinearVelocity(), "a linear velocity"); t.add(r->getAngularVelocity(), "an angular velocity"); t.add(r->isSleeping(), "isSleeping"); t.add(r->isActive(), "isActive"); t.add(r->getForce(), "a force"); t.add(r->getTorque(), "a torque"); t.add(r->getMass(), "a mass"); t.add(r->getLocalInertiaTensor(), "an inertia tensor"); t.add(r->getLocalCenterOfMass(), "a centre of mass"); AABB a = r->getAABB(); t.add(a.getMin(), "an AABB"); t.add(a.getMax(), "an AABB");
        for (auto& k : b->cols) { AABB f = s.world->getWorldAABB(k.col); t.add(f.getMin(), "a fat AABB"); t.add(f.getMax(), "a fat AABB"); } }
    for (auto& j : s.joints) { t.add(j->joint->getReactionForce(dt), "a joint reaction force"); t.add(j->joint->getReactionTorque(dt), "a joint reaction torque"); if (j->type == JointType::HINGEJOINT) { t.add(static_cast<HingeJoint*>(j->joint)->getAngle(), "a hinge angle"); t.add(static_cast<HingeJoint*>(j->joint)->getMotorTorque(dt), "a motor torque"); } else if (j->type == JointType::SLIDERJOINT) { t.add(static_cast<SliderJoint*>(j->joint)->getTranslation(), "a slider translation"); t.add(static_cast<SliderJoint*>(j->joint)->getMotorForce(dt), "a motor force"); } }
    return t;
}
inline void query(Scene& s, Case& c, Trace& t, int kind) {   // kinds 0-2 do not touch the narrow phase
    auto any = [&]() { return s.bodies.empty() ? nullptr : s.bodies[c.draw(s.bodies.size() - 1)].get(); };
    switch (kind) {
        case 0: { Vector3 a = lib(vec(c, 4)), b = lib(vec(c, 4)); int m = c.intIn(0, 2); RSee r(s, t, m == 0 ? decimal(1) : m == 1 ? decimal(-1) : decimal(0)); s.world->raycast(Ray(a, b), &r, static_cast<unsigned short>(c.chance(0.5) ? 0xFFFF : c.draw(7))); break; }
        case 1: { Vector3 p = lib(vec(c, 3)); for (auto& b : s.bodies) t.add(b->body->testPointInside(p), "a point test"); break; }
        case 2: { if (SBody* b = any()) { Vector3 a = lib(vec(c, 4)), e = lib(vec(c, 4)); RaycastInfo i; bool h = b->body->raycast(Ray(a, e), i); t.add(h, "a body ray cast"); if (h) t.add(i.worldPoint, "a ray hit"); } break; }
        case 3: { CSee k(s, t); s.world->testCollision(k); break; }
        case 4: { OSee k(s, t); s.world->testOverlap(k); break; }
        default: { SBody *a = any(), *b = any(); if (!a) break; if (c.chance(0.5)) { CSee k(s, t); if (a == b) s.world->testCollision(a->body, k); else s.world->testCollision(a->body, b->body, k); } else { if (a == b) { OSee k(s, t); s.world->testOverlap(a->body, k); } else t.add(s.world->testOverlap(a->body, b->body), "testOverlap"); } }
    }
}
}
