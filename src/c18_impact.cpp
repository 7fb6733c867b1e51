#include "motion.h"
#include "contacts.h"
#include <functional>
using namespace gen;

namespace {
struct Listen : EventListener { std::vector<CPair> pairs; void onContact(const CollisionCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto q = d.getContactPair(i); if (q.getEventType() != CollisionCallback::ContactPair::EventType::ContactExit) pairs.push_back(Contacts::get(q)); } } };
struct IBody { RigidBody* b; double m = 1; V I{1, 1, 1}; Motion pre, post; ref::M3 R; bool dyn = true; V v0, w0; };
V angular(const IBody& k, V w) { return k.R * ref::mul(k.I, ref::transpose(k.R) * w); }   // I_world * w with the orientation before the update
double kinetic(const IBody& k, V v, V w) { return 0.5 * k.m * ref::dot(v, v) + 0.5 * ref::dot(w, angular(k, w)); }
void before(Case&, const PhysicsWorld* w, IBody& k, double dt) { k.dyn = k.b->getType() == BodyType::DYNAMIC; k.m = k.b->getMass(); k.I = rf(k.b->getLocalInertiaTensor()); k.pre = state(k.b); k.R = ref::mat(k.pre.q); k.v0 = k.pre.v; k.w0 = k.pre.w; if (k.dyn && w->isGravityEnabled() && k.b->isGravityEnabled()) k.pre.v = k.pre.v + dt * rf(w->getGravity()); }
void massOf(Case& c, RigidBody* b, double size) {
    int k = c.weighted({3, 3, 2}); double m = c.logReal(0.2, 20);
    if (k == 0) { b->updateMassPropertiesFromColliders(); if (!(b->getMass() > 1e-3 && b->getMass() < 1e4)) { b->setMass(decimal(m)); } V I = rf(b->getLocalInertiaTensor()); double lo = 0.02 * b->getMass() * size * size; b->setLocalInertiaTensor(lib(V{std::max(I.x, lo), std::max(I.y, lo), std::max(I.z, lo)})); }
    else { b->setMass(decimal(m)); double s = m * size * size; b->setLocalInertiaTensor(lib(k == 1 ? V{0.4 * s, 0.4 * s, 0.4 * s} : V{c.real(0.1, 1) * s, c.real(0.1, 1) * s, c.real(0.1, 1) * s})); if (c.chance(0.3)) b->setLocalCenterOfMass(lib(vec(c, 0.3 * size))); }
}
}

PBT_PROP(impact, 50000, 3000000, "two bodies (dynamic against dynamic, static or kinematic) with one convex collider each, placed to touch or overlap slightly with generated velocities, masses, inertias, bounciness, friction, gravity and correction technique, 1-12 updates with 2000-4000 velocity iterations; the impulses are recovered from the change of momentum and checked against the impact and friction laws at the reported contact points; non-trivial: an update with a clear normal impulse") {
    PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; ws.gravity = lib(c.chance(0.4) ? V{0, 0, 0} : vec(c, 10)); ws.restitutionVelocityThreshold = decimal(c.chance(0.3) ? 0 : c.real(0.05, 2));
    TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); PhysicsWorld* world = pc->createPhysicsWorld(ws); Listen L; world->setEventListener(&L); int its = c.intIn(2000, 4000); world->setNbIterationsVelocitySolver(static_cast<uint16>(its)); bool split = c.chance(0.75); world->setContactsPositionCorrectionTechnique(split ? ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS);
    std::vector<Shape> S; IBody K[2]; Collider* col[2]; Transform local[2]; double e[2], mu[2]; int other = c.weighted({3, 2, 1}); bool first = c.chance(0.5);
    for (int i = 0; i < 2; i++) { S.push_back(shape(c, *pc, 1 | 2 | 4 | 8)); K[i].b = world->createRigidBody(Transform::identity()); local[i] = c.chance(0.7) ? Transform::identity() : place(c, 1); col[i] = K[i].b->addCollider(S[i].shape, local[i]); massOf(c, K[i].b, S[i].size); e[i] = c.chance(0.4) ? 0 : c.real(0, 1); mu[i] = c.chance(0.25) ? 0 : c.real(0, 1.5); col[i]->getMaterial().setBounciness(decimal(e[i])); col[i]->getMaterial().setFrictionCoefficient(decimal(mu[i])); K[i].b->enableGravity(c.chance(0.8)); }
    if (other) K[first ? 0 : 1].b->setType(other == 1 ? BodyType::STATIC : BodyType::KINEMATIC);
    // placement with a small overlap
    Transform ta = place(c, 2), tb = Transform(ta.getPosition() + lib((S[0].size + S[1].size) * 0.6 * dir(c)), c.chance(0.35) ? ta.getOrientation() : orient(c)); auto put = [&](int i, const Transform& w) { Transform p = w * local[i].getInverse(); p.setOrientation(p.getOrientation().getUnit()); K[i].b->setTransform(p); }; auto poly = [&](int i) { return ref::transformed(S[i].poly, rf(K[i].b->getTransform()) * rf(local[i])); };
    put(0, ta); put(1, tb); ref::Sep r = ref::separation(poly(0), poly(1)); double want = -c.logReal(0.002, 0.1) * std::min(S[0].size, S[1].size); put(1, Transform(tb.getPosition() + lib((want - r.sd) * r.n), tb.getOrientation())); r = ref::separation(poly(0), poly(1)); if (!(r.sd < 0)) c.discard(); V n = r.n;
    for (int i = 0; i < 2; i++) { if (K[i].b->getType() == BodyType::STATIC) continue; V v = (i == 0 ? 1 : -1) * c.logReal(0.1, 10) * n + (c.chance(0.3) ? 0 : c.real(0, 4)) * dir(c); K[i].b->setLinearVelocity(lib(v)); if (c.chance(0.7)) K[i].b->setAngularVelocity(lib(vec(c, 4))); }
    double em = std::max(e[0], e[1]), mm = std::sqrt(mu[0] * mu[1]), thr = ws.restitutionVelocityThreshold; bool nt = false; c.note("A %s B %s, other type %d, bounciness %g friction %g threshold %g, %d iterations, split %d", KIND[S[0].kind], KIND[S[1].kind], other, em, mm, thr, its, split);
    double dt = decimal(c.logReal(0.002, 0.03)); int steps = c.chance(0.4) ? 1 : c.intIn(2, 12);
    for (int s = 0; s < steps; s++) {
        L.pairs.clear(); for (auto& k : K) before(c, world, k, dt);
        world->update(decimal(dt)); for (auto& k : K) k.post = state(k.b);
        double speed = 0; for (auto& k : K) speed = std::max({speed, ref::len(k.pre.v), ref::len(k.post.v), ref::len(k.pre.w) * (S[0].size + S[1].size), ref::len(k.post.w) * (S[0].size + S[1].size)}); speed += 1e-2;
        for (int i = 0; i < 2; i++) if (!K[i].dyn) { c.check(ref::len(K[i].post.v - K[i].v0) == 0 && ref::len(K[i].post.w - K[i].w0) == 0, "the velocity of a body that is not dynamic changes in a contact"); }
        if (L.pairs.empty()) { for (auto& k : K) if (k.dyn) c.check(ref::len(k.post.v - k.pre.v) <= (DP ? 1e-10 : 1e-5) * speed && ref::len(k.post.w - k.pre.w) <= (DP ? 1e-10 : 1e-5) * speed, "a velocity changes without any contact"); continue; }
        c.check(L.pairs.size() == 1, "%zu contact pairs reported for two colliders", L.pairs.size()); const CPair& P = L.pairs[0]; int i1 = P.b1 == K[0].b ? 0 : 1; IBody &A = K[i1], &B = K[1 - i1];
        V N; double spread = 0, depth = 0; for (auto& p : P.pts) { N = N + p.n; depth = std::max(depth, p.depth); } N = ref::unit(N); for (auto& p : P.pts) spread = std::max(spread, ref::len(p.n - N));
        V f1, f2; for (auto& p : P.pts) { f1 = f1 + (1.0 / P.pts.size()) * p.p1; f2 = f2 + (1.0 / P.pts.size()) * p.p2; }
        V J = B.dyn ? B.m * (B.post.v - B.pre.v) : -A.m * (A.post.v - A.pre.v), H1 = A.dyn ? angular(A, A.post.w - A.pre.w) : V(), H2 = B.dyn ? angular(B, B.post.w - B.pre.w) : V();
        double mEff = A.dyn && B.dyn ? A.m * B.m / (A.m + B.m) : A.dyn ? A.m : B.m; double tolV = (DP ? (P.pts.size() > 1 ? 1e-3 : 1e-4) : 5e-3) * speed, arm = S[0].size + S[1].size, tolJ = (A.dyn && B.dyn ? std::max(A.m, B.m) : mEff) * tolV;
        if (A.dyn && B.dyn) {   // momentum
            V D = A.m * (A.post.v - A.pre.v) + J; double ms = A.m * (ref::len(A.pre.v) + ref::len(A.post.v)) + B.m * (ref::len(B.pre.v) + ref::len(B.post.v)); c.check(ref::len(D) <= (DP ? 1e-9 : 1e-4) * ms + 1e-12, "linear momentum changes by %.9g in a collision (impulse %.9g)", ref::len(D), ref::len(J));
            V T = ref::cross(B.pre.com - A.pre.com, J) + H1 + H2; double ts = ms * arm + ref::len(angular(A, A.pre.w)) + ref::len(angular(B, B.pre.w)) + ref::len(H1) + ref::len(H2), drift = 0; for (auto& p : P.pts) drift = std::max(drift, ref::len(p.p1 - p.p2));
            c.check(ref::len(T) <= (DP ? 1e-9 : 1e-4) * ts + 1e-12 + 1.01 * drift * ref::len(J) * (P.pts.size() > 1 ? 3 : 1) * 2, "angular momentum changes by %.9g in a collision (impulse %.9g, distance of the contact points %.9g)", ref::len(T), ref::len(J), drift);
        }
        for (int i = 0; i < 2; i++) { IBody& k = i ? B : A; auto pv = [&](const char* w, V v) { c.note("  %s %.9g %.9g %.9g", w, v.x, v.y, v.z); }; c.note("body %d m %g I %g %g %g", i, k.m, k.I.x, k.I.y, k.I.z); pv("v0", k.v0); pv("w0", k.w0); pv("v", k.post.v); pv("w", k.post.w); pv("com", k.pre.com); } for (auto& p : P.pts) { auto pv = [&](const char* w, V v) { c.note("  %s %.9g %.9g %.9g", w, v.x, v.y, v.z); }; pv("n", p.n); pv("p1", p.p1); pv("p2", p.p2); }
        // friction that feeds back into the normal direction too strongly makes the (Gauss-Seidel) iteration converge slowly or not at all
        double rho = 0; { V t1 = ref::unit(ref::cross(N, std::fabs(N.x) < 0.6 ? V{1, 0, 0} : V{0, 1, 0})), t2 = ref::cross(N, t1); auto K2 = [&](const IBody& k, V a, V b) { return k.dyn ? ref::dot(a, k.R * ref::mul(V{1 / k.I.x, 1 / k.I.y, 1 / k.I.z}, ref::transpose(k.R) * b)) : 0.0; };
          for (auto& p : P.pts) { V a1 = ref::cross(p.p1 - A.pre.com, p.n), a2 = ref::cross(p.p2 - B.pre.com, p.n); double nn = (A.dyn ? 1 / A.m : 0) + (B.dyn ? 1 / B.m : 0) + K2(A, a1, a1) + K2(B, a2, a2); auto tt = [&](V t) { return K2(A, a1, ref::cross(f1 - A.pre.com, t)) + K2(B, a2, ref::cross(f2 - B.pre.com, t)); }; rho = std::max(rho, mm * (std::sqrt(2.0) * std::hypot(tt(t1), tt(t2)) + std::fabs(K2(A, a1, N) + K2(B, a2, N))) / nn); } }
        if (rho > 0.6) { c.label("strong friction feedback"); continue; }
        double least = 1e300; bool skip = false, bounce = false;
        for (auto& p : P.pts) {
            auto rel = [&](V va, V wa, V vb, V wb) { return ref::dot(vb + ref::cross(wb, p.p2 - B.pre.com) - va - ref::cross(wa, p.p1 - A.pre.com), p.n); };
            double v0 = rel(A.v0, A.w0, B.v0, B.w0), v1 = rel(A.post.v, A.post.w, B.post.v, B.post.w); if (std::fabs(v0 + thr) < 1e-3 * speed) skip = true; double target = v0 < -thr ? em * -v0 : 0; if (target > 0) bounce = true; if (!split) target += 0.2 / dt * std::max(0.0, p.depth - 0.01);
            if (std::getenv("C18_RES")) c.note("res %g", (target - v1) / speed);
            c.check(skip || v1 >= target - tolV, "after the update the bodies still approach at a contact point: relative normal velocity %.9g before, %.9g after, expected at least %.9g (bounciness %g, threshold %g)", v0, v1, target, em, thr); least = std::min(least, v1 - target);
        }
        if (skip) { c.label("at the threshold"); break; }
        double Jn = ref::dot(J, N); V Jt = J - Jn * N; if (Jn > 10 * tolJ) nt = true; c.label(P.pts.size() == 1 ? "single point" : "several points"); c.label(bounce ? "rebound" : "no rebound");
        if (spread > 1e-4) { c.label("points with different normals"); continue; }
        c.check(Jn >= -tolJ, "the contact pulls: normal impulse %.9g", Jn);
        if (Jn > 10 * tolJ) c.check(least <= tolV, "the contact pushes the bodies apart faster than the rebound speed by at least %.9g", least);
        double lim = mm * Jn; c.note("step %d: points %zu normal impulse %g tangential %g limit %g", s, P.pts.size(), Jn, ref::len(Jt), lim); c.check(ref::len(Jt) <= std::sqrt(2.0) * lim * (1 + 1e-3) + tolJ, "friction impulse %.9g with normal impulse %.9g and coefficient %.9g", ref::len(Jt), Jn, mm);
        V vt = B.post.v + ref::cross(B.post.w, f2 - B.pre.com) - A.post.v - ref::cross(A.post.w, f1 - A.pre.com); vt = vt - ref::dot(vt, N) * N;
        c.check(ref::dot(Jt, vt) <= tolJ * speed, "friction pushes along the sliding direction: impulse %.9g, sliding velocity %.9g", ref::len(Jt), ref::len(vt));
        if (Jn > 10 * tolJ && ref::len(Jt) < 0.98 * lim - tolJ) { c.check(ref::len(vt) <= tolV * 2, "sliding with velocity %.9g although friction is not exhausted (%.9g of %.9g)", ref::len(vt), ref::len(Jt), lim); c.label("sticking"); }
        // twist about the normal at the centre of the contact
        IBody& T = B.dyn ? B : A; double twist = B.dyn ? ref::dot(H2 - ref::cross(f2 - B.pre.com, J), N) : -ref::dot(H1 - ref::cross(f1 - A.pre.com, -J), N); (void)T; double wn = ref::dot(B.post.w - A.post.w, N), tolH = tolJ * arm;
        c.check(std::fabs(twist) <= lim * (1 + 1e-3) + tolH, "friction torque about the normal %.9g with normal impulse %.9g and coefficient %.9g", twist, Jn, mm);
        c.check(twist * wn <= tolH * speed / arm, "friction torque accelerates the spin: %.9g, spin %.9g", twist, wn);
        if (Jn > 10 * tolJ && std::fabs(twist) < 0.98 * lim - tolH) { c.check(std::fabs(wn) <= 4 * tolV / std::min(S[0].size, S[1].size), "spinning with %.9g although friction is not exhausted (%.9g of %.9g)", wn, twist, lim); c.label("no spin"); }
        bool zero = !bounce && split; double k0 = 0, k1 = 0; for (auto& k : K) if (k.dyn) { k0 += kinetic(k, k.pre.v, k.pre.w); k1 += kinetic(k, k.post.v, k.post.w); }
        if (zero && other != 2) c.check(k1 <= k0 * (1 + 1e-3) + tolJ * speed, "kinetic energy grows from %.9g to %.9g in a collision without rebound", k0, k1);
    }
    if (nt) c.nontrivial();
    world = nullptr; pc.reset();
}

PBT_PROP(system, 50000, 3000000, "2-6 dynamic bodies with 1-2 colliders of all convex kinds thrown at each other, generated masses, materials, iteration counts, gravity and correction technique, 3-25 updates; momentum, centre of mass and angular momentum of the whole system per update; non-trivial: contacts in at least two updates") {
    PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; bool plain = c.chance(0.3); ws.gravity = lib(c.chance(0.5) ? V{0, 0, 0} : vec(c, 10)); V g = rf(ws.gravity);
    TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); PhysicsWorld* world = pc->createPhysicsWorld(ws); Listen L; world->setEventListener(&L); world->setNbIterationsVelocitySolver(static_cast<uint16>(c.intIn(1, 20))); bool split = c.chance(0.75); world->setContactsPositionCorrectionTechnique(split ? ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS);
    int n = c.intIn(2, 6); std::vector<Shape> S; std::vector<IBody> K(n); double range = 1 + 0.5 * n, size = 0;
    for (auto& k : K) { Transform t = place(c, range); noteX(c, "body", t); k.b = world->createRigidBody(t); int nc = c.intIn(1, 2); double sz = 0; for (int i = 0; i < nc; i++) { S.push_back(shape(c, *pc, 15)); Collider* q = k.b->addCollider(S.back().shape, i == 0 ? Transform::identity() : place(c, 1)); q->getMaterial().setBounciness(decimal(plain ? 0 : c.real(0, 1))); q->getMaterial().setFrictionCoefficient(decimal(plain ? 0 : c.real(0, 1.5))); sz = std::max(sz, S.back().size); } massOf(c, k.b, sz); size = std::max(size, sz); k.b->enableGravity(c.chance(0.8));
        k.b->setLinearVelocity(lib(c.real(-1, 2) * -1 * rf(t.getPosition()) + vec(c, 1))); if (c.chance(0.7)) k.b->setAngularVelocity(lib(vec(c, 3))); }
    double dt = decimal(c.logReal(0.002, 0.03)); int steps = c.intIn(3, 25), hit = 0;
    for (int s = 0; s < steps; s++) {
        L.pairs.clear(); for (auto& k : K) before(c, world, k, dt); world->update(decimal(dt)); for (auto& k : K) { k.post = state(k.b); V p = k.post.com; if (!(std::isfinite(p.x + p.y + p.z) && ref::len(p) < 1e4)) c.fail("a body is at %g %g %g", p.x, p.y, p.z); }
        V D, X, T; double ms = 1e-3, M = 0, xs = 0, ts = 1e-3, J = 0, far = 0, gap = 0; V c0; for (auto& k : K) { c0 = c0 + (1.0 / n) * k.pre.com; } for (auto& p : L.pairs) for (auto& q : p.pts) gap = std::max(gap, ref::len(q.p1 - q.p2));
        for (auto& k : K) { V dv = k.m * (k.post.v - k.pre.v), dh = angular(k, k.post.w - k.pre.w); D = D + dv; M += k.m; X = X + k.m * (k.post.com - k.pre.com - dt * k.post.v); ms += k.m * (ref::len(k.pre.v) + ref::len(k.post.v)); T = T + ref::cross(k.pre.com - c0, dv) + dh; double a = ref::len(k.pre.com - c0); far = std::max(far, a); xs += k.m * (ref::len(k.pre.com) + ref::len(k.post.com)); J += ref::len(dv); ts += ref::len(angular(k, k.pre.w)) + ref::len(angular(k, k.post.w)) + k.m * a * (ref::len(k.pre.v) + ref::len(k.post.v)); }
        c.check(ref::len(D) <= (DP ? 1e-8 : 2e-3) * ms, "momentum of the system changes by %.9g beyond gravity in one update (%zu contact pairs)", ref::len(D), L.pairs.size());
        c.check(ref::len(X) <= (DP ? 1e-9 : 2e-4) * (xs + dt * ms + 1e-3), "centre of mass of the system moves %.9g away from where its velocity takes it", ref::len(X) / M);
        if (L.pairs.empty()) c.check(ref::len(T) <= (DP ? 1e-10 : 2e-5) * ts, "angular momentum changes by %.9g without contacts", ref::len(T));
        else { hit++; double bound = (DP ? 1e-9 : 2e-4) * ts + 40 * gap * J; if (std::getenv("C18_T")) c.note("T %g bound %g gap %g J %g ratio %g", ref::len(T), bound, gap, J, ref::len(T) / (gap * J + 1e-12)); bool forest = true; { std::map<const Body*, const Body*> up; std::function<const Body*(const Body*)> find = [&](const Body* b) { auto it = up.find(b); return it == up.end() || it->second == b ? b : find(it->second); }; for (auto& p : L.pairs) { const Body *a = find(p.b1), *b = find(p.b2); if (a == b) forest = false; else up[a] = b; } }   /* in a forest the impulse between two bodies follows from the net changes on one side of it */
            if (DP && forest && gap < 0.02) c.check(ref::len(T) <= bound, "angular momentum of the system changes by %.9g in one update (velocity changes %.9g, contact points at most %.9g apart)", ref::len(T), J, gap); }
        if (s == 0 && plain && split && !L.pairs.empty()) { double k0 = 0, k1 = 0; for (auto& k : K) { k0 += kinetic(k, k.pre.v, k.pre.w); k1 += kinetic(k, k.post.v, k.post.w); } c.check(k1 <= k0 * (1 + (DP ? 1e-9 : 1e-4)) + 1e-9, "kinetic energy grows from %.9g to %.9g in frictionless contacts without rebound", k0, k1); c.label("plain first contact"); }
    }
    if (hit >= 2) c.nontrivial();
    world = nullptr; pc.reset();
}
