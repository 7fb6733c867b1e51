#include "joints.h"
using namespace gen;

PBT_PROP(axis, 12000, 600000, "two bodies (both dynamic, or one static or kinematic) linked by a hinge, slider or ball-and-socket joint through each constructor, with limits, motors and cone limits that are set, switched and changed during 4-25 updates with many solver iterations; from the velocities before and after each update the impulse along the free coordinate is recovered and compared with what limit and motor allow; the coordinate is compared with the limits and with the reported one, all settings are read back; non-trivial: a limit or the motor acted in at least two updates") {
    PhysicsWorld::WorldSettings ws; ws.isSleepingEnabled = false; ws.gravity = lib(c.chance(0.5) ? V{0, 0, 0} : vec(c, 10)); TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); PhysicsWorld* world = pc->createPhysicsWorld(ws);
    world->setNbIterationsVelocitySolver(3000); world->setNbIterationsPositionSolver(static_cast<uint16>(2000)); JPair P; int other = c.weighted({3, 2, 1}), which = c.intIn(0, 1); bool ngs = c.chance(0.75);
    jointBodies(c, world, P, other, which, 0.2, c.chance(0.2) ? 2000 : 20); JointType t = c.weighted({4, 4, 2}) == 0 ? JointType::HINGEJOINT : c.chance(0.7) ? JointType::SLIDERJOINT : JointType::BALLSOCKETJOINT; bool hinge = t == JointType::HINGEJOINT, slider = t == JointType::SLIDERJOINT, cone = !hinge && !slider;
    int ctor = cone ? 0 : c.intIn(0, 2); double span = hinge ? 2.5 : 0.5; auto D = [](double x) { return double(decimal(x)); };
    double mass = std::max(P.B[0].b->getMass(), P.B[1].b->getMass()), scale = hinge ? mass : mass; double mn = 0, mx = 0, sp = 0, mf = 0; bool lim = false, mot = false;
    auto newMin = [&] { return D(c.chance(0.1) ? 0 : -c.real(0, span)); }; auto newMax = [&] { return D(c.chance(0.1) ? 0 : c.real(0, span)); }; auto newSpeed = [&] { return D(c.real(-3, 3)); }; auto newForce = [&] { return D(c.chance(0.2) ? 0 : c.logReal(0.05, 50) * scale); };
    if (ctor >= 1) { mn = newMin(); mx = newMax(); if (mx - mn < 1e-4) mn = mx = 0; lim = true; } else if (!cone) { mn = -1; mx = 1; } if (ctor == 2) { sp = newSpeed(); mf = newForce(); mot = true; }
    makeJoint(c, world, P, t, ngs, 0, ctor, mn, mx, sp, mf); HingeJoint* H = hinge ? static_cast<HingeJoint*>(P.joint) : nullptr; SliderJoint* S = slider ? static_cast<SliderJoint*>(P.joint) : nullptr; BallAndSocketJoint* Bj = cone ? static_cast<BallAndSocketJoint*>(P.joint) : nullptr; double half = cone ? double(Bj->getConeLimitHalfAngle()) : 0;
    auto readBack = [&](const char* when) {
        if (cone) { c.check(Bj->isConeLimitEnabled() == lim && Bj->getConeLimitHalfAngle() == decimal(half), "%s the cone limit reads back as %d %.9g instead of %d %.9g", when, int(Bj->isConeLimitEnabled()), double(Bj->getConeLimitHalfAngle()), int(lim), half); return; }
        bool l = H ? H->isLimitEnabled() : S->isLimitEnabled(), m = H ? H->isMotorEnabled() : S->isMotorEnabled(); double a = H ? H->getMinAngleLimit() : S->getMinTranslationLimit(), b = H ? H->getMaxAngleLimit() : S->getMaxTranslationLimit(), s = H ? H->getMotorSpeed() : S->getMotorSpeed(), f = H ? H->getMaxMotorTorque() : S->getMaxMotorForce();
        c.check(l == lim && m == mot && a == mn && b == mx && s == sp && f == mf, "%s limit %d [%.9g, %.9g] and motor %d %.9g %.9g read back as limit %d [%.9g, %.9g] and motor %d %.9g %.9g", when, int(lim), mn, mx, int(mot), sp, mf, int(l), a, b, int(m), s, f);
    };
    // the value of the coordinate nearest to the limits; false: not clear which
    auto unwrap = [&](double q, double& r) { if (!hinge) { r = q; return true; } double best = 1e9, second = 1e9; for (int k = -1; k <= 1; k++) { double x = q + 2 * M_PI * k, d = std::max({mn - x, x - mx, 0.0}); if (d < best) { second = best; best = d; r = x; } else second = std::min(second, d); } return mx > mn ? second > best + 0.1 : std::fabs(q) < 3; };
    auto reported = [&](const char* when, double tolQ) { Motion m[2] = {state(P.B[0].b), state(P.B[1].b)}; auto g = P.geo(m[0], m[1]); double q = P.coord(g), r, tilt = P.rotationError(g), a = H ? H->getAngle() : S ? S->getTranslation() : Bj->getConeHalfAngle();
        if (hinge) { tolQ += 2 * tilt; double d = std::remainder(a - q, 2 * M_PI); c.check(std::fabs(d) <= tolQ, "%s getAngle returns %.9g, the angle is %.9g", when, a, q); if (unwrap(q, r) && mx - mn < 5.5 && mx > mn) c.check(std::fabs(a - r) <= tolQ, "%s getAngle returns %.9g instead of %.9g for limits [%.9g, %.9g]", when, a, r, mn, mx); }
        else if (slider) c.check(std::fabs(a - q) <= tolQ * (1 + ref::len(g.r1) + ref::len(g.r2) + ref::len(P.B[0].pre.com) + ref::len(P.B[1].pre.com)), "%s getTranslation returns %.9g, the translation is %.9g", when, a, q);
        else if (ref::len(g.r1) > 0.05 && ref::len(g.r2) > 0.05) { double s = std::sin(q), tq = DP ? tolQ : std::min(0.02, 1e-5 / std::max(s, 1e-6)); c.check(std::fabs(a - q) <= std::max(tq, DP ? 1e-7 / std::max(s, 1e-1) : 1e-5), "%s getConeHalfAngle returns %.9g, the angle is %.9g", when, a, q); } };
    readBack("after creation"); reported("after creation", DP ? 3e-7 : 3e-3);
    for (auto& k : P.B) { if (k.b->getType() == BodyType::STATIC) continue; k.b->setLinearVelocity(lib(vec(c, 2))); k.b->setAngularVelocity(lib(vec(c, 2))); }
    double dt = decimal(c.logReal(0.003, 0.02)); int steps = c.intIn(4, 25), acted = 0; for (auto& k : P.B) k.before(world, dt); if (cone) { auto g = P.geo(P.B[0].pre, P.B[1].pre); if (ref::len(g.r1) < 0.1 || ref::len(g.r2) < 0.1) c.discard(); }
    for (int s = 0; s < steps; s++) {
        Case::Span span_(c); for (auto& k : P.B) k.pre = state(k.b); double q0; bool clear = unwrap(P.coord(P.geo(P.B[0].pre, P.B[1].pre)), q0);
        for (int n = c.intIn(0, 3); n > 0 && c.chance(0.5); n--) {
            if (cone) { if (c.chance(0.5)) { lim = !lim || c.chance(0.6); Bj->enableConeLimit(lim); } else { half = D(std::max(0.05, std::min(3.1, q0 + c.real(-0.1, 0.3)))); Bj->setConeLimitHalfAngle(decimal(half)); } }
            else switch (c.weighted({2, 2, 2, 2, 2, 2})) {
                case 0: lim = c.chance(0.75); H ? H->enableLimit(lim) : S->enableLimit(lim); break;
                case 1: mot = c.chance(0.7); H ? H->enableMotor(mot) : S->enableMotor(mot); break;
                case 2: { double v = newMin(); if (c.chance(0.6)) v = D(std::min(0.0, std::max(-span, q0 + c.real(-0.2, 0.05)))); if (v > mx) break; if (mx - v < 1e-4) v = mx; mn = v; H ? H->setMinAngleLimit(decimal(v)) : S->setMinTranslationLimit(decimal(v)); break; }
                case 3: { double v = newMax(); if (c.chance(0.6)) v = D(std::max(0.0, std::min(span, q0 + c.real(-0.05, 0.2)))); if (v < mn) break; if (v - mn < 1e-4) v = mn; mx = v; H ? H->setMaxAngleLimit(decimal(v)) : S->setMaxTranslationLimit(decimal(v)); break; }
                case 4: sp = newSpeed(); H ? H->setMotorSpeed(decimal(sp)) : S->setMotorSpeed(decimal(sp)); break;
                case 5: mf = newForce(); H ? H->setMaxMotorTorque(decimal(mf)) : S->setMaxMotorForce(decimal(mf)); break;
            }
            c.note("limit %d [%g %g] motor %d speed %g max %g cone %g", int(lim), mn, mx, int(mot), sp, mf, half);
        }
        readBack("after a change");
        if (c.chance(0.3)) for (auto& k : P.B) { if (k.b->getType() != BodyType::DYNAMIC) continue; k.b->applyWorldForceAtCenterOfMass(lib(c.logReal(0.1, 20) * double(k.b->getMass()) * dir(c))); k.b->applyWorldTorque(lib(c.logReal(0.1, 5) * double(k.b->getMass()) * k.size * k.size * dir(c))); }
        if (c.chance(0.05)) { int i = c.intIn(0, 1); auto T = P.B[i].b->getTransform(); V x = std::sin(0.5 * (q0 = c.real(-2, 2))) * P.lx[i]; Quaternion d = hinge ? T.getOrientation() * Quaternion(decimal(x.x), decimal(x.y), decimal(x.z), decimal(std::cos(0.5 * q0))) : orient(c); P.B[i].b->setTransform(Transform(T.getPosition(), d)); reported("after setTransform", DP ? 3e-6 : 3e-3); P.B[i].b->setTransform(T); P.B[i].b->setLinearVelocity(lib(P.B[i].pre.v)); }
        for (auto& k : P.B) k.before(world, dt); auto g0 = P.geo(P.B[0].pre, P.B[1].pre); double e0 = P.anchorError(g0), r0 = P.rotationError(g0); clear = unwrap(P.coord(g0), q0);
        world->update(decimal(dt)); for (auto& k : P.B) k.after(); auto g1 = P.geo(P.B[0].post, P.B[1].post); double speed = P.speed(), arm = 1 + ref::len(g0.r1) + ref::len(g0.r2) + ref::len(g0.u); if (!(speed < 100)) { c.label("fast"); break; }
        reported("after the update", DP ? 3e-6 : 4e-3);
        std::vector<JRow> J = P.rows(g0), all = J; JRow ax = P.axisRow(g0); if (cone && !(std::sin(P.coord(g0)) > 0.1)) { c.label("straight cone"); continue; } all.push_back(ax);
        double rho = P.sweepRate(J, ax); if (rho > 0.97) { c.label("stiff"); break; } double amp = 1 / (1 - rho);
        double wmax = 0, vmax = 0; for (auto& k : P.B) { wmax = std::max({wmax, ref::len(k.post.w), ref::len(k.pre.w)}); vmax = std::max(vmax, ref::len(k.post.v)); } double drift = arm * dt * dt * wmax * wmax + (slider ? dt * vmax * dt * wmax : 0);
        if (e0 > 2e-2 || r0 > 2e-2 || (ngs && (e0 > 1e-3 || r0 > 1e-3))) continue;
        // recover the impulses
        std::vector<double> b, x; for (auto& r : all) b.push_back(P.ratePost(r) - P.ratePre(r)); if (!P.solve(all, b, x)) { c.label("singular"); continue; } V v1 = P.B[0].pre.v, w1 = P.B[0].pre.w, v2 = P.B[1].pre.v, w2 = P.B[1].pre.w; P.apply(all, x, v1, w1, v2, w2);
        double tolV = (DP ? 1e-6 * amp : 1e-4 * amp + 2e-3) * speed + 3 * (e0 + r0 * arm) * (vmax + wmax * arm), dev = std::max({ref::len(v1 - P.B[0].post.v), ref::len(v2 - P.B[1].post.v), ref::len(w1 - P.B[0].post.w) * P.B[0].size, ref::len(w2 - P.B[1].post.w) * P.B[1].size});
        double lam = x.back(), rate = P.ratePost(ax), tolR = tolV * 4 * (hinge || cone ? 1 / std::min(P.B[0].size, P.B[1].size) : arm), dtk = 0; { std::vector<double> u(all.size(), 0), z; u.back() = 1; if (!P.solve(all, u, z)) continue; dtk = z.back(); }   // dtk: impulse per unit rate with the joint in place
        double tolL = tolR * dtk * 3 + (DP ? 1e-9 : 1e-3) * dtk * speed, M = mot ? mf * dt : 0;
        c.note("limit %d [%.9g %.9g] motor %d %.9g %.9g", int(lim), mn, mx, int(mot), sp, mf); c.note("step %d coordinate %.9g rate %.9g impulse %.9g (max %.9g, per rate %.9g) deviation %g rho %g drift %g errors %g %g -> %g %g v %g w %g", s, q0, rate, lam, M, dtk, dev, rho, drift, e0, r0, P.anchorError(g1), P.rotationError(g1), vmax, wmax);
        c.check(dev <= tolV * (DP ? 10 : 20), "velocities after the update deviate by %.9g from every impulse that the joint may apply (speed %.9g)", dev, speed);
        bool slow = mot && lim && (q0 <= mn || q0 >= mx) && M > 600 * (1 - rho) * dtk * std::max(std::fabs(sp), 1e-3);   // the motor keeps gaining on the limit for more sweeps than there are
        if (ngs && !slow) for (auto& r : J) c.check(std::fabs(P.ratePost(r)) <= tolV * arm * 4, "with limit or motor the bodies move with %.9g against the joint (speed %.9g)", P.ratePost(r), speed);
        double edge = (DP ? 1e-7 : 1e-4) * arm; bool low = lim && !cone && q0 <= mn, up = lim && (cone ? q0 > half : q0 >= mx), near = lim && ((!cone && std::fabs(q0 - mn) < edge) || std::fabs(q0 - (cone ? half : mx)) < edge); if (cone) clear = true; if (hinge && lim && !clear) { c.label("unclear side"); continue; } double top = cone ? half : mx;
        if (near) { c.label("at the edge"); } else {
            double biasLow = !ngs && low ? 0.2 / dt * (mn - q0) : 0, biasUp = !ngs && up ? 0.2 / dt * (q0 - top) : 0; tolR += ngs ? 0 : 1e-3 * (biasLow + biasUp) + (hinge ? 2e-9 / dt : 0); if (slow) c.label("motor far stronger than the solver reaches");
            if (!low && !up) { c.check(std::fabs(lam) <= M + tolL, "an impulse of %.9g acts along the free coordinate, the motor may apply %.9g", lam, M); if (mot) { if (lam < M - tolL) c.check(rate >= sp - tolR, "the motor leaves a speed of %.9g below the motor speed %.9g with an impulse of %.9g of %.9g", rate, sp, lam, M); if (lam > -M + tolL) c.check(rate <= sp + tolR, "the motor leaves a speed of %.9g above the motor speed %.9g with an impulse of %.9g of %.9g", rate, sp, lam, M); if (M > 2 * tolL && std::fabs(lam) > tolL) acted++;
                    double f = std::fabs(dt * double(H ? H->getMotorTorque(decimal(dt)) : S->getMotorForce(decimal(dt)))); c.check(std::fabs(f - std::fabs(lam)) <= tolL + (DP ? 1e-6 : 1e-3) * M, "the motor reports an impulse of %.9g, %.9g acted", f, std::fabs(lam)); } }
            else if (!slow) {
                if (low && !up) { c.check(rate >= biasLow - tolR, "below the lower limit the coordinate moves on with %.9g (needed %.9g)", rate, biasLow); c.check(lam >= -M - tolL, "the lower limit pulls outwards with an impulse of %.9g", -lam); if (rate > biasLow + tolR * 3) { c.check(std::fabs(lam) <= M + tolL, "an impulse of %.9g acts although the coordinate leaves the lower limit with %.9g", lam, rate); if (mot) { if (lam < M - tolL) c.check(rate >= sp - tolR, "the motor leaves a speed of %.9g below %.9g", rate, sp); if (lam > -M + tolL) c.check(rate <= sp + tolR, "the motor leaves a speed of %.9g above %.9g", rate, sp); } } else acted++; }
                if (up && !low) { c.check(rate <= -biasUp + tolR, "above the upper limit the coordinate moves on with %.9g (needed %.9g)", rate, -biasUp); c.check(lam <= M + tolL, "the upper limit pulls outwards with an impulse of %.9g", lam); if (rate < -biasUp - tolR * 3) { c.check(std::fabs(lam) <= M + tolL, "an impulse of %.9g acts although the coordinate leaves the upper limit with %.9g", lam, rate); if (mot) { if (lam < M - tolL) c.check(rate >= sp - tolR, "the motor leaves a speed of %.9g below %.9g", rate, sp); if (lam > -M + tolL) c.check(rate <= sp + tolR, "the motor leaves a speed of %.9g above %.9g", rate, sp); } } else acted++; }
                if (low && up && ngs) { c.check(std::fabs(rate) <= tolR, "locked between equal limits the coordinate moves with %.9g", rate); acted++; }
            }
        }
        if (DP && !cone) { V L = P.B[1].dyn ? P.B[1].m * (P.B[1].post.v - P.B[1].pre.v) : -P.B[0].m * (P.B[0].post.v - P.B[0].pre.v), A = P.B[1].dyn ? P.B[1].mulI(P.B[1].post.w - P.B[1].pre.w) - ref::cross(g0.r2, L) : -1 * (P.B[0].mulI(P.B[0].post.w - P.B[0].pre.w) - ref::cross(g0.r1 + (slider ? g0.u : V()), -L)); V f = dt * rf(P.joint->getReactionForce(decimal(dt))), to = dt * rf(P.joint->getReactionTorque(decimal(dt))); double mm = std::max(P.B[0].dyn ? P.B[0].m : 0, P.B[1].dyn ? P.B[1].m : 0), ts = mm * tolV * 4;
            c.check(ref::len(f - L) <= ts + 1e-6 * ref::len(L), "getReactionForce reports an impulse of %.9g %.9g %.9g, %.9g %.9g %.9g acted", f.x, f.y, f.z, L.x, L.y, L.z); c.check(ref::len(to - A) <= ts * arm * 4 + 1e-6 * ref::len(A), "getReactionTorque reports an angular impulse of %.9g %.9g %.9g, %.9g %.9g %.9g acted", to.x, to.y, to.z, A.x, A.y, A.z); }
        // position correction
        double out = lim ? std::max({cone ? 0.0 : mn - q0, q0 - top, 0.0}) : 0, q1; bool clear1 = unwrap(P.coord(g1), q1) && clear; if (cone) clear1 = std::sin(q1) > 0.1;
        if (lim && ngs && clear1 && out < 0.3 && rho < 0.9) { double tol = (DP ? 1e-6 : 2e-5 * amp + 5e-4) * arm + 0.05 * drift + (cone ? 0.05 * out : 0.02 * out * out), pred = q0 + dt * rate; c.check(q1 <= top + tol && (cone || q1 >= mn - tol), "after the update the coordinate is %.9g outside its limits [%.9g, %.9g] (before %.9g)", q1, cone ? 0.0 : mn, top, q0);
            double over = tol + 30 * drift + 0.3 * out + 10 * (e0 + r0); if (!cone && pred < mn) c.check(q1 <= mn + over + 0.3 * (mn - pred), "position correction moves the coordinate from %.9g to %.9g, the limit is %.9g", pred, q1, mn); if (pred > top) c.check(q1 >= top - over - 0.3 * (pred - top), "position correction moves the coordinate from %.9g to %.9g, the limit is %.9g", pred, q1, top); }
    }
    c.label(hinge ? "hinge" : slider ? "slider" : "cone"); if (acted >= 2) c.nontrivial(); world = nullptr; pc.reset();
}
