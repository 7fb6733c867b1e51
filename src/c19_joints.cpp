#include "joints.h"
using namespace gen;

static const JointType TYPES[4] = {JointType::BALLSOCKETJOINT, JointType::HINGEJOINT, JointType::SLIDERJOINT, JointType::FIXEDJOINT};

PBT_PROP(pair, 10000, 500000, "two bodies (both dynamic, or one static or kinematic) linked by a joint of each kind through each constructor, generated placements, masses, inertias, centres of mass, velocities, gravity and forces, 4-25 updates with many solver iterations; velocities are compared with the exact solution of the constraint, placements with the constraint, reaction force and torque with the impulse that acted; non-trivial: the joint transmits a clear impulse in at least two updates") {
    PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; ws.gravity = lib(c.chance(0.4) ? V{0, 0, 0} : vec(c, 10)); TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); PhysicsWorld* world = pc->createPhysicsWorld(ws);
    world->setNbIterationsVelocitySolver(3000); world->setNbIterationsPositionSolver(static_cast<uint16>(2000)); JPair P; int other = c.weighted({3, 2, 1}), which = c.intIn(0, 1); bool ngs = c.chance(0.75), heavy = c.chance(0.2); if (c.chance(0.3)) world->createRigidBody(place(c, 1));
    jointBodies(c, world, P, other, which, heavy ? 100 : 0.2, heavy ? 2e4 : 20); makeJoint(c, world, P, TYPES[c.intIn(0, 3)], ngs, 0);
    for (auto& k : P.B) { if (k.b->getType() == BodyType::STATIC) continue; k.b->setLinearVelocity(lib(vec(c, 3))); k.b->setAngularVelocity(lib(vec(c, 3))); if (c.chance(0.2)) k.b->setLinearDamping(decimal(c.real(0, 1))); if (c.chance(0.2)) k.b->setAngularDamping(decimal(c.real(0, 1))); }
    for (auto& k : P.B) k.before(world, 0.01); bool soft = P.coupling(P.rows(P.geo(P.B[0].pre, P.B[1].pre))) < 0.7;
    double dt = decimal(c.logReal(0.003, 0.02)); int steps = c.intIn(4, 25), strong = 0;
    for (int s = 0; s < steps; s++) {
        Case::Span sp(c); bool teleport = false;
        if (c.chance(0.3)) for (auto& k : P.B) { if (k.b->getType() != BodyType::DYNAMIC) continue; k.b->applyWorldForceAtCenterOfMass(lib(c.logReal(0.1, 20) * double(k.b->getMass()) * dir(c))); k.b->applyWorldTorque(lib(c.logReal(0.1, 5) * double(k.b->getMass()) * k.size * k.size * dir(c))); }
        if (soft && c.chance(0.06)) { int i = c.intIn(0, 1); auto t = P.B[i].b->getTransform(); Q q = rf(t.getOrientation()); V r = vec(c, 0.04); Q d{r.x, r.y, r.z, 1}; Q nq = ref::qnorm(d * q); P.B[i].b->setTransform(Transform(t.getPosition() + lib(vec(c, 0.05)), Quaternion(decimal(nq.x), decimal(nq.y), decimal(nq.z), decimal(nq.w)))); teleport = true; c.label("moved by hand"); }
        for (auto& k : P.B) k.before(world, dt); auto g0 = P.geo(P.B[0].pre, P.B[1].pre); double e0 = P.anchorError(g0), r0 = P.rotationError(g0); world->update(decimal(dt)); for (auto& k : P.B) k.after(); auto g1 = P.geo(P.B[0].post, P.B[1].post); double e1 = P.anchorError(g1), r1 = P.rotationError(g1), speed = P.speed(), arm = 1 + ref::len(g0.r1) + ref::len(g0.r2) + ref::len(g0.u);
        auto J = P.rows(g0); double rho = P.coupling(J); c.note("step %d coupling %g", s, rho); if (rho > 0.985) { c.label("stiff"); break; } double amp = 1 / (1 - rho);
        if (!(speed < 200)) { c.label("fast"); break; }
        double wmax = 0, vmax = 0; for (auto& k : P.B) { wmax = std::max({wmax, ref::len(k.post.w), ref::len(k.pre.w)}); vmax = std::max(vmax, ref::len(k.post.v)); } double turn = dt * wmax;
        for (auto& k : P.B) if (!k.dyn) c.check(ref::len(k.post.v - k.pre.v) <= 1e-9 + (DP ? 0 : 1e-5) && ref::len(k.post.w - k.pre.w) <= 1e-9 + (DP ? 0 : 1e-5), "a joint changes the velocity of a body that is not dynamic");
        double drift = arm * turn * turn + (P.type == JointType::SLIDERJOINT ? dt * vmax * turn : 0);   // what one update may linearly do to the constraint
        if (ngs) {
            double tol = (DP ? 1e-6 : 2e-5 * amp + 1e-4) * arm + 0.02 * (drift + e0 * (teleport ? 1 : 0) + (teleport ? r0 * arm : 0)); c.note("step %d anchor %g rotation %g drift %g", s, e1, r1, drift);
            c.check(e1 <= tol, "the anchors of the joint are %.9g apart after the update (allowed %.9g)", e1, tol); c.check(r1 <= tol * 2, "the joint is rotated by %.9g out of its free motion after the update (allowed %.9g)", r1, tol * 2);
            // the correction must not move the bodies further than needed
            if (!teleport) for (auto& k : P.B) { V d = k.post.com - k.pre.com - dt * k.post.v; double need = 20 * drift + 20 * (e0 + r0 * arm) + (DP ? 1e-7 : 1e-3) * arm; c.check(ref::len(d) <= need * (1 + P.B[0].m * P.B[0].im() ), "position correction moves a body by %.9g (drift %.9g)", ref::len(d), drift); }
        } else if (!teleport) { double tol = 30 * drift / 0.2 + 0.9 * (e0 + r0 * arm) + (DP ? 1e-7 : 1e-3) * arm; c.check(e1 <= tol && r1 * arm <= tol * 2 + (DP ? 0 : 2e-3), "errors of the joint grow to %.9g and %.9g rad (before %.9g and %.9g rad)", e1, r1, e0, r0); }
        V com; double M = 0; if (P.B[0].dyn && P.B[1].dyn) { for (auto& k : P.B) { com = com + k.m * (k.post.com - k.pre.com - dt * k.post.v); M += k.m; } c.check(ref::len(com) <= (DP ? 1e-9 : 1e-4) * M * (1 + ref::len(P.B[0].pre.com) + ref::len(P.B[1].pre.com)), "the joint moves the common centre of mass by %.9g", ref::len(com) / M); }
        if (!ngs || teleport || e0 > 1e-3 || r0 > 1e-3) continue;
        // exact solution of the velocity constraint
        std::vector<double> b, x; for (auto& r : J) b.push_back(-P.ratePre(r)); if (!P.solve(J, b, x)) { c.label("singular"); continue; } V v1 = P.B[0].pre.v, w1 = P.B[0].pre.w, v2 = P.B[1].pre.v, w2 = P.B[1].pre.w; P.apply(J, x, v1, w1, v2, w2);
        double tolV = (DP ? 1e-6 * amp : 1e-4 * amp + 2e-3) * speed + 3 * (e0 + r0 * arm) * (vmax + wmax * arm) , D = std::max({ref::len(v1 - P.B[0].post.v), ref::len(v2 - P.B[1].post.v), ref::len(w1 - P.B[0].post.w) * P.B[0].size, ref::len(w2 - P.B[1].post.w) * P.B[1].size});
        c.note("   velocity deviation %g of speed %g", D, speed); for (auto& r : J) c.check(std::fabs(P.ratePost(r)) <= tolV * arm * 2, "after the update the bodies move with %.9g against the joint (speed %.9g)", P.ratePost(r), speed);
        c.check(D <= tolV * (DP ? 5 : 20), "velocities after the update deviate by %.9g from those that the joint leaves (speed %.9g)", D, speed);
        // reported reaction
        V L = P.B[1].dyn ? P.B[1].m * (P.B[1].post.v - P.B[1].pre.v) : -P.B[0].m * (P.B[0].post.v - P.B[0].pre.v), H = P.B[1].dyn ? P.B[1].mulI(P.B[1].post.w - P.B[1].pre.w) - ref::cross(g0.r2, L) : -1 * (P.B[0].mulI(P.B[0].post.w - P.B[0].pre.w) - ref::cross(g0.r1 + (P.type == JointType::SLIDERJOINT ? g0.u : V()), -L)); V rf_ = dt * rf(P.joint->getReactionForce(decimal(dt))), rt = dt * rf(P.joint->getReactionTorque(decimal(dt))); double mm = std::max(P.B[0].dyn ? P.B[0].m : 0, P.B[1].dyn ? P.B[1].m : 0), ts = mm * tolV * 4;
        if (ref::len(L) > 0.02 * mm * speed) strong++;
        if (DP) { c.check(ref::len(rf_ - L) <= ts + 1e-6 * ref::len(L), "getReactionForce reports an impulse of %.9g %.9g %.9g, %.9g %.9g %.9g acted", rf_.x, rf_.y, rf_.z, L.x, L.y, L.z); c.check(ref::len(rt - H) <= ts * arm * 4 + 1e-6 * ref::len(H), "getReactionTorque reports an angular impulse of %.9g %.9g %.9g, %.9g %.9g %.9g acted", rt.x, rt.y, rt.z, H.x, H.y, H.z); }
    }
    c.label(P.type == JointType::BALLSOCKETJOINT ? "ball" : P.type == JointType::HINGEJOINT ? "hinge" : P.type == JointType::SLIDERJOINT ? "slider" : "fixed"); if (strong >= 2) c.nontrivial();
    world = nullptr; pc.reset();
}

PBT_PROP(system, 4000, 150000, "2-6 bodies linked to a tree by joints of all kinds (sometimes fastened to a static or kinematic body), generated placements, masses, velocities, gravity and forces, 3-15 updates with many solver iterations; anchors and axes stay together, linear and angular momentum change by the outside forces only, the common centre of mass is not moved by position correction; non-trivial: at least two joints and three updates") {
    PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; ws.gravity = lib(c.chance(0.4) ? V{0, 0, 0} : vec(c, 10)); TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); PhysicsWorld* world = pc->createPhysicsWorld(ws);
    world->setNbIterationsVelocitySolver(2500); world->setNbIterationsPositionSolver(static_cast<uint16>(2500)); int n = c.intIn(2, 6); bool fixedRoot = c.chance(0.4), ngs = c.chance(0.8); std::vector<JBody> bs(n); std::vector<JPair> js; double dt = decimal(c.logReal(0.003, 0.02));
    for (int i = 0; i < n; i++) { JBody& k = bs[i]; k.size = c.real(0.6, 1.2); Transform t = place(c, 0.6); int parent = i ? c.intIn(0, i - 1) : 0; if (i) t.setPosition(bs[parent].b->getTransform().getPosition() + lib((bs[parent].size + k.size) * 0.6 * ref::unit(dir(c)))); noteX(c, "body", t); k.b = world->createRigidBody(t); k.m = c.real(1, 3); double s = k.m * k.size * k.size; k.b->setMass(decimal(k.m)); k.b->setLocalInertiaTensor(lib(V{c.real(0.3, 0.6) * s, c.real(0.3, 0.6) * s, c.real(0.3, 0.6) * s})); if (c.chance(0.3)) k.b->setLocalCenterOfMass(lib(vec(c, 0.1))); c.note("   parent %d mass %g size %g", parent, k.m, k.size);
        if (i == 0 && fixedRoot) k.b->setType(c.chance(0.5) ? BodyType::STATIC : BodyType::KINEMATIC);
        if (i) { JPair p; bool swap = c.chance(0.4); p.B[swap] = bs[parent]; p.B[!swap] = k; makeJoint(c, world, p, TYPES[c.intIn(0, 3)], ngs, 0); js.push_back(p); } }
    for (auto& k : bs) if (k.b->getType() != BodyType::STATIC) { k.b->setLinearVelocity(lib(vec(c, 1))); k.b->setAngularVelocity(lib(vec(c, 1))); }
    std::vector<int> bi[2]; for (auto& p : js) for (int i = 0; i < 2; i++) for (int k = 0; k < n; k++) if (bs[k].b == p.B[i].b) bi[i].push_back(k);
    int steps = c.intIn(3, 15);
    for (int s = 0; s < steps; s++) {
        Case::Span sp(c); if (c.chance(0.3)) for (auto& k : bs) if (k.b->getType() == BodyType::DYNAMIC && c.chance(0.5)) { k.b->applyWorldForceAtCenterOfMass(lib(c.logReal(0.1, 20) * k.m * dir(c))); k.b->applyWorldTorque(lib(c.logReal(0.1, 5) * k.m * dir(c))); }
        for (auto& k : bs) k.before(world, dt); auto fill = [&](bool after) { for (size_t j = 0; j < js.size(); j++) for (int i = 0; i < 2; i++) { if (after) js[j].B[i].post = bs[bi[i][j]].post; else js[j].B[i] = bs[bi[i][j]]; } }; fill(false); world->update(decimal(dt)); for (auto& k : bs) k.after(); fill(true);
        double vmax = 0.1, wmax = 0.1; for (auto& k : bs) { vmax = std::max({vmax, ref::len(k.pre.v), ref::len(k.post.v)}); wmax = std::max({wmax, ref::len(k.pre.w), ref::len(k.post.w)}); } if (!(vmax < 50) || wmax > 20) { c.label("fast"); break; } double drift = n * (dt * wmax * dt * (wmax * 3 + vmax));
        double apart = 0; for (auto& p : js) { auto g = p.geo(p.B[0].pre, p.B[1].pre); if (p.type != JointType::SLIDERJOINT) apart += ref::len(g.u); }
        V P, L, C; double M = 0, mv = 0; bool closed = true; for (auto& k : bs) { if (!k.dyn) { closed = false; continue; } V dv = k.post.v - k.pre.v; P = P + k.m * dv; L = L + k.m * ref::cross(k.pre.com, dv) + k.mulI(k.post.w - k.pre.w); C = C + k.m * (k.post.com - k.pre.com - dt * k.post.v); M += k.m; mv += k.m * (vmax + wmax * k.size); }
        if (closed) { double ext = 1; for (auto& k : bs) ext = std::max(ext, ref::len(k.pre.com)); c.check(ref::len(P) <= (DP ? 1e-9 : 1e-3) * mv, "the joints change the total momentum by %.9g of %.9g", ref::len(P), mv); c.check(ref::len(L) <= (DP ? 1e-9 : 2e-3) * mv * ext + 3 * apart * mv, "the joints change the total angular momentum by %.9g", ref::len(L)); c.check(ref::len(C) <= (DP ? 1e-9 : 1e-4) * M * ext, "the joints move the common centre of mass by %.9g", ref::len(C) / M); }
        for (size_t j = 0; j < js.size(); j++) { auto& p = js[j]; auto g0 = p.geo(p.B[0].pre, p.B[1].pre), g1 = p.geo(p.B[0].post, p.B[1].post); double e = p.anchorError(g1), r = p.rotationError(g1), tol = ngs ? (DP ? 1e-5 : 2e-3) + 0.02 * drift : 30 * drift + (DP ? 1e-5 : 2e-3); c.note("step %d joint %zu errors %g %g drift %g", s, j, e, r, drift); c.check(e <= tol, "after the update the anchors of joint %zu are %.9g apart (allowed %.9g)", j, e, tol); c.check(r <= tol * 2, "after the update joint %zu is rotated out of its free motion by %.9g (allowed %.9g)", j, r, tol * 2);
            if (ngs) for (auto& row : p.rows(g0)) { double a = std::fabs(p.ratePost(row)), t = (DP ? 1e-4 : 1e-2) * (vmax + 3 * wmax) + 10 * (p.anchorError(g0) + p.rotationError(g0)) * (vmax + wmax * 3); c.check(a <= t, "after the update the bodies of joint %zu move with %.9g against it", j, a); } }
    }
    if (js.size() >= 2 && steps >= 3) c.nontrivial(); world = nullptr; pc.reset();
}
