// Reference integration of a free body (semi-implicit Euler) in double precision.
#pragma once
#include "scene.h"
namespace gen {
struct Motion { V v, w, com, pos; Q q; };
// state of the body as it is now
inline Motion state(const RigidBody* b) { Motion m; m.v = rf(b->getLinearVelocity()); m.w = rf(b->getAngularVelocity()); auto& t = b->getTransform(); m.pos = rf(t.getPosition()); m.q = rf(t.getOrientation()); m.com = rf(t) * rf(b->getLocalCenterOfMass()); return m; }
inline double inv0(double x) { return x != 0 ? 1 / x : 0; }
// velocities and placement after one update if nothing touches the body; moves: whether the body is simulated at all
inline Motion freeMotion(const PhysicsWorld* w, const RigidBody* b, double dt, V F, V T, bool moves = true) {
    Motion m = state(b); if (!moves || b->getType() == BodyType::STATIC) return m; bool dyn = b->getType() == BodyType::DYNAMIC; double mass = b->getMass(), im = dyn && mass > 0 ? 1 / mass : 0; V I = rf(b->getLocalInertiaTensor()), ll = rf(b->getLinearLockAxisFactor()), al = rf(b->getAngularLockAxisFactor()); V ii = dyn ? V{inv0(I.x), inv0(I.y), inv0(I.z)} : V{0, 0, 0};
    ref::M3 R = ref::mat(m.q); m.v = m.v + dt * im * ref::mul(ll, F); m.w = m.w + dt * ref::mul(al, R * ref::mul(ii, ref::transpose(R) * T));
    if (w->isGravityEnabled() && b->isGravityEnabled() && im > 0) m.v = m.v + dt * ref::mul(ll, rf(w->getGravity()));
    m.v = (1 / (1 + b->getLinearDamping() * dt)) * m.v; m.w = (1 / (1 + b->getAngularDamping() * dt)) * m.w;
    m.com = m.com + dt * m.v; Q h{0.5 * dt * m.w.x, 0.5 * dt * m.w.y, 0.5 * dt * m.w.z, 0}; Q d = h * m.q; m.q = ref::qnorm({m.q.x + d.x, m.q.y + d.y, m.q.z + d.z, m.q.w + d.w}); m.pos = m.com - ref::mat(m.q) * rf(b->getLocalCenterOfMass()); return m;
}
inline double qdist(Q a, Q b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z) + (a.w - b.w) * (a.w - b.w)); }
// largest relative deviations; position and velocity are weighted against their size
inline double deviation(const Motion& got, const Motion& want, double dt, bool asleep) {
    double pv = 1 + ref::len(want.v), pw = 1 + ref::len(want.w), pp = 1 + ref::len(want.pos) + dt * ref::len(want.v); double e = std::max(ref::len(got.pos - want.pos) / pp, qdist(got.q, want.q));
    if (!asleep) e = std::max(e, std::max(ref::len(got.v - want.v) / pv, ref::len(got.w - want.w) / pw)); return e;
}
}
