// Two bodies linked by one joint, with the constraint rows of the joint in reference arithmetic.
#pragma once
#include "motion.h"
namespace gen {
struct JRow { V l, a1, a2; };   // row of J: l.(v2 - v1) + a2.w2 - a1.w1
struct JBody { RigidBody* b = nullptr; double m = 1, size = 1; V I{1, 1, 1}; bool dyn = true; Motion pre, post; V v0, w0; ref::M3 R; V F, T;
    double im() const { return dyn ? 1 / m : 0; }
    V inv(V x) const { return dyn ? R * ref::mul(V{1 / I.x, 1 / I.y, 1 / I.z}, ref::transpose(R) * x) : V(); }
    V mulI(V x) const { return R * ref::mul(I, ref::transpose(R) * x); }
    // the state before the update; pre.v and pre.w get the forces of this update
    void before(const PhysicsWorld* w, double dt) {
        dyn = b->getType() == BodyType::DYNAMIC; m = b->getMass(); I = rf(b->getLocalInertiaTensor()); pre = state(b); R = ref::mat(pre.q); v0 = pre.v; w0 = pre.w; F = rf(b->getForce()); T = rf(b->getTorque());
        if (dyn) { pre.v = pre.v + dt * im() * F; pre.w = pre.w + dt * inv(T); if (w->isGravityEnabled() && b->isGravityEnabled()) pre.v = pre.v + dt * rf(w->getGravity()); } pre.v = (1 / (1 + b->getLinearDamping() * dt)) * pre.v; pre.w = (1 / (1 + b->getAngularDamping() * dt)) * pre.w;
    }
    void after() { post = state(b); }
};
inline V perp(V a) { return ref::unit(ref::cross(a, std::fabs(a.x) < 0.6 * ref::len(a) ? V{1, 0, 0} : V{0, 1, 0})); }
struct JPair {
    JBody B[2]; Joint* joint = nullptr; JointType type = JointType::BALLSOCKETJOINT; V la[2], lx[2]; Q rel0;   // local anchors, local axes, initial orientation of body 2 in body 1
    // geometry in a pair of states
    struct Geo { V r1, r2, u, a1, a2; Q d; };   // anchor arms, anchor difference, axes, rotation of body 2 since the start (world)
    Geo geo(const Motion& s1, const Motion& s2) const { Geo g; ref::M3 R1 = ref::mat(s1.q), R2 = ref::mat(s2.q); g.r1 = R1 * (la[0] - rf(B[0].b->getLocalCenterOfMass())); g.r2 = R2 * (la[1] - rf(B[1].b->getLocalCenterOfMass())); g.u = s2.com + g.r2 - s1.com - g.r1; g.a1 = R1 * lx[0]; g.a2 = R2 * lx[1]; auto cj = [](Q q) { return Q{-q.x, -q.y, -q.z, q.w}; }; g.d = s2.q * cj(rel0) * cj(s1.q); return g; }
    // errors of the removed degrees of freedom
    double anchorError(const Geo& g) const { return type == JointType::SLIDERJOINT ? ref::len(g.u - ref::dot(g.u, g.a1) * g.a1) : ref::len(g.u); }
    double rotationError(const Geo& g) const { if (type == JointType::BALLSOCKETJOINT) return 0; if (type == JointType::HINGEJOINT) return std::atan2(ref::len(ref::cross(g.a1, g.a2)), ref::dot(g.a1, g.a2)); return 2 * std::atan2(ref::len(V{g.d.x, g.d.y, g.d.z}), std::fabs(g.d.w)); }
    static V arm(V u) { double l = ref::len(u); return l < 1e-12 ? u : (1 / l) * u; }
    V coneA(const Geo& g) const { return arm(g.r1); } V coneB(const Geo& g) const { return -arm(g.r2); }
    // the free coordinate: hinge angle in (-pi, pi], slider translation, cone angle
    double coord(const Geo& g) const { if (type == JointType::HINGEJOINT) { V v{g.d.x, g.d.y, g.d.z}; double a = 2 * std::atan2(ref::dot(v, g.a1), g.d.w); while (a > M_PI) a -= 2 * M_PI; while (a <= -M_PI) a += 2 * M_PI; return a; } if (type == JointType::SLIDERJOINT) return ref::dot(g.u, g.a1); V a = coneA(g), b = coneB(g); return std::atan2(ref::len(ref::cross(a, b)), ref::dot(a, b)); }
    // rows of the removed degrees of freedom
    std::vector<JRow> rows(const Geo& g) const {
        std::vector<JRow> J; V e[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
        if (type == JointType::SLIDERJOINT) { V n = perp(g.a1), n2 = ref::cross(g.a1, n); for (V k : {n, n2}) J.push_back({k, ref::cross(g.r1 + g.u, k), ref::cross(g.r2, k)}); } else for (V k : e) J.push_back({k, ref::cross(g.r1, k), ref::cross(g.r2, k)});
        if (type == JointType::HINGEJOINT) { V n = perp(g.a1), n2 = ref::cross(g.a1, n); for (V k : {n, n2}) J.push_back({V(), k, k}); } else if (type != JointType::BALLSOCKETJOINT) for (V k : e) J.push_back({V(), k, k});
        return J;
    }
    // row of the free coordinate
    JRow axisRow(const Geo& g) const { if (type == JointType::SLIDERJOINT) return {g.a1, ref::cross(g.r1 + g.u, g.a1), ref::cross(g.r2, g.a1)}; V n = type == JointType::HINGEJOINT ? g.a1 : ref::unit(ref::cross(coneA(g), coneB(g))); return {V(), n, n}; }
    static double rate(const JRow& r, V v1, V w1, V v2, V w2) { return ref::dot(r.l, v2 - v1) + ref::dot(r.a2, w2) - ref::dot(r.a1, w1); }
    double ratePre(const JRow& r) const { return rate(r, B[0].pre.v, B[0].pre.w, B[1].pre.v, B[1].pre.w); } double ratePost(const JRow& r) const { return rate(r, B[0].post.v, B[0].post.w, B[1].post.v, B[1].post.w); }
    double K(const JRow& p, const JRow& q) const { double s = ref::dot(p.l, q.l) * (B[0].im() + B[1].im()); return s + ref::dot(p.a1, B[0].inv(q.a1)) + ref::dot(p.a2, B[1].inv(q.a2)); }
    // solves K x = b; false if singular
    bool solve(const std::vector<JRow>& J, std::vector<double> b, std::vector<double>& x) const {
        size_t n = J.size(); std::vector<std::vector<double>> A(n, std::vector<double>(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) A[i][j] = K(J[i], J[j]); std::vector<double> s(n); for (size_t i = 0; i < n; i++) { if (!(A[i][i] > 0)) return false; s[i] = 1 / std::sqrt(A[i][i]); } for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) A[i][j] *= s[i] * s[j]; b[i] *= s[i]; }
        for (size_t k = 0; k < n; k++) { size_t p = k; for (size_t i = k; i < n; i++) if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i; if (std::fabs(A[p][k]) < 1e-9) return false; std::swap(A[p], A[k]); std::swap(b[p], b[k]); for (size_t i = k + 1; i < n; i++) { double f = A[i][k] / A[k][k]; for (size_t j = k; j < n; j++) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; } }
        x.assign(n, 0); for (size_t k = n; k-- > 0;) { double t = b[k]; for (size_t j = k + 1; j < n; j++) t -= A[k][j] * x[j]; x[k] = t / A[k][k]; } for (size_t i = 0; i < n; i++) x[i] *= s[i]; return true;
    }
    // largest eigenvalue of the iteration that alternates between the rows of displacement and of rotation
    double coupling(const std::vector<JRow>& J) const {
        std::vector<JRow> A, B_; for (auto& r : J) (ref::len(r.l) > 0 ? A : B_).push_back(r); if (A.empty() || B_.empty()) return 0; double rho = 0;
        for (size_t s = 0; s < A.size(); s++) { std::vector<double> x(A.size(), 0.3), y, z; x[s] = 1; double last = 0; for (int it = 0; it < 40; it++) { std::vector<double> b(B_.size(), 0), d(A.size(), 0); for (size_t i = 0; i < B_.size(); i++) for (size_t j = 0; j < A.size(); j++) b[i] += K(B_[i], A[j]) * x[j]; if (!solve(B_, b, y)) return 1; for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B_.size(); j++) d[i] += K(A[i], B_[j]) * y[j]; if (!solve(A, d, z)) return 1; double l = 0; for (double v : z) l += v * v; l = std::sqrt(l); if (l < 1e-9) { last = 0; break; } last = l; for (double& v : z) v /= l; if (it == 0) last = 0; x = z; } rho = std::max(rho, last); }
        return std::min(rho, 1.0);
    }
    // contraction of one sweep over the blocks: free coordinate, rotation, displacement
    double sweepRate(const std::vector<JRow>& J, const JRow& ax) const {
        std::vector<std::vector<JRow>> G(3); G[0] = {ax}; for (auto& r : J) G[ref::len(r.l) > 0 ? 2 : 1].push_back(r); std::vector<std::vector<double>> x(3); double rho = 0;
        for (int start = 0; start < 3; start++) { for (int g = 0; g < 3; g++) { x[g].assign(G[g].size(), 0.1); if (g == start) for (size_t i = 0; i < x[g].size(); i++) x[g][i] = 1 + 0.37 * double(i); } double last = 0, prev = 0; for (int it = 0; it < 30; it++) { for (int g = 0; g < 3; g++) { if (G[g].empty()) continue; std::vector<double> b(G[g].size(), 0), z; for (size_t i = 0; i < G[g].size(); i++) for (int h = 0; h < 3; h++) if (h != g) for (size_t j = 0; j < G[h].size(); j++) b[i] -= K(G[g][i], G[h][j]) * x[h][j]; if (!solve(G[g], b, z)) return 1; x[g] = z; } double l = 0; for (int g = 0; g < 3; g++) for (size_t i = 0; i < G[g].size(); i++) l += x[g][i] * x[g][i] * K(G[g][i], G[g][i]); l = std::sqrt(l); if (l < 1e-200) { last = 0; break; } if (it) last = l / prev; for (auto& v : x) for (double& y : v) y /= l; prev = 1; } rho = std::max(rho, last); }
        return std::min(rho, 1.0);
    }
    void apply(const std::vector<JRow>& J, const std::vector<double>& x, V& v1, V& w1, V& v2, V& w2) const { for (size_t i = 0; i < J.size(); i++) { v1 = v1 - (B[0].im() * x[i]) * J[i].l; w1 = w1 - x[i] * B[0].inv(J[i].a1); v2 = v2 + (B[1].im() * x[i]) * J[i].l; w2 = w2 + x[i] * B[1].inv(J[i].a2); } }
    double speed() const { double s = 1e-2; for (auto& k : B) s = std::max({s, ref::len(k.pre.v), ref::len(k.post.v), ref::len(k.v0), k.size * ref::len(k.pre.w), k.size * ref::len(k.post.w), k.size * ref::len(k.w0)}); return s; }
};
// bodies: 0 static/kinematic allowed for one of them; other: 0 both dynamic, 1 static, 2 kinematic
inline void jointBodies(Case& c, PhysicsWorld* world, JPair& P, int other, int which, double massLo, double massHi) {
    for (int i = 0; i < 2; i++) { JBody& k = P.B[i]; Transform t = place(c, 1.5); noteX(c, "body", t); k.b = world->createRigidBody(t); k.size = c.real(0.3, 1.5); double m = c.logReal(massLo, massHi), s = m * k.size * k.size; k.b->setMass(decimal(m)); k.b->setLocalInertiaTensor(lib(c.chance(0.5) ? V{0.4 * s, 0.4 * s, 0.4 * s} : V{c.real(0.1, 1) * s, c.real(0.1, 1) * s, c.real(0.1, 1) * s})); if (c.chance(0.3)) k.b->setLocalCenterOfMass(lib(vec(c, 0.5))); c.note("mass %g size %g", m, k.size); }
    if (other) P.B[which].b->setType(other == 1 ? BodyType::STATIC : BodyType::KINEMATIC);
}
template <class Info> Joint* finishJoint(PhysicsWorld* world, Info& i, bool ngs) { i.isCollisionEnabled = false; i.positionCorrectionTechnique = ngs ? JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL : JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS; return world->createJoint(i); }
// creates the joint; anchors coincide and axes agree in the current placement up to gap (0: exactly); lim/mot: constructor with limits / motor
inline void makeJoint(Case& c, PhysicsWorld* world, JPair& P, JointType t, bool ngs, double gap, int ctor = 0, double mn = 0, double mx = 0, double sp = 0, double mf = 0) {
    P.type = t; RigidBody *a = P.B[0].b, *b = P.B[1].b; Xf X1 = rf(a->getTransform()), X2 = rf(b->getTransform()); V mid = 0.5 * (X1.t + X2.t); V pw = c.chance(0.1) ? X1 * rf(a->getLocalCenterOfMass()) : c.chance(0.1) ? X2 * rf(b->getLocalCenterOfMass()) : mid + vec(c, 1); V ax = ref::unit(dir(c)); bool local = c.chance(0.5); auto cj = [](Q q) { return Q{-q.x, -q.y, -q.z, q.w}; };
    ref::M3 T1 = ref::transpose(ref::mat(rf(a->getTransform().getOrientation()))), T2 = ref::transpose(ref::mat(rf(b->getTransform().getOrientation()))); P.la[0] = X1.inv(pw); P.la[1] = X2.inv(pw); P.lx[0] = T1 * ax; P.lx[1] = T2 * ax; P.rel0 = cj(rf(a->getTransform().getOrientation())) * rf(b->getTransform().getOrientation());
    if (local && gap > 0) { P.la[1] = P.la[1] + vec(c, gap); if (t == JointType::HINGEJOINT) P.lx[1] = ref::unit(P.lx[1] + vec(c, gap)); }
    Vector3 w = lib(pw), x = lib(ax), l1 = lib(P.la[0]), l2 = lib(P.la[1]), x1 = lib(P.lx[0]), x2 = lib(P.lx[1]); decimal n = decimal(mn), m = decimal(mx), s = decimal(sp), f = decimal(mf);
    c.note("%s joint, %s anchors, %s, constructor %d", t == JointType::BALLSOCKETJOINT ? "ball" : t == JointType::HINGEJOINT ? "hinge" : t == JointType::SLIDERJOINT ? "slider" : "fixed", local ? "local" : "world", ngs ? "position correction" : "Baumgarte", ctor);
    if (t == JointType::BALLSOCKETJOINT) { if (local) { BallAndSocketJointInfo i(a, b, l1, l2); P.joint = finishJoint(world, i, ngs); } else { BallAndSocketJointInfo i(a, b, w); P.joint = finishJoint(world, i, ngs); } }
    else if (t == JointType::FIXEDJOINT) { if (local) { FixedJointInfo i(a, b, l1, l2); P.joint = finishJoint(world, i, ngs); } else { FixedJointInfo i(a, b, w); P.joint = finishJoint(world, i, ngs); } }
    else if (t == JointType::HINGEJOINT) {
        if (local) { if (ctor == 0) { HingeJointInfo i(a, b, l1, l2, x1, x2); P.joint = finishJoint(world, i, ngs); } else if (ctor == 1) { HingeJointInfo i(a, b, l1, l2, x1, x2, n, m); P.joint = finishJoint(world, i, ngs); } else { HingeJointInfo i(a, b, l1, l2, x1, x2, n, m, s, f); P.joint = finishJoint(world, i, ngs); } }
        else { if (ctor == 0) { HingeJointInfo i(a, b, w, x); P.joint = finishJoint(world, i, ngs); } else if (ctor == 1) { HingeJointInfo i(a, b, w, x, n, m); P.joint = finishJoint(world, i, ngs); } else { HingeJointInfo i(a, b, w, x, n, m, s, f); P.joint = finishJoint(world, i, ngs); } }
    } else {
        if (local) { if (ctor == 0) { SliderJointInfo i(a, b, l1, l2, x1); P.joint = finishJoint(world, i, ngs); } else if (ctor == 1) { SliderJointInfo i(a, b, l1, l2, x1, n, m); P.joint = finishJoint(world, i, ngs); } else { SliderJointInfo i(a, b, l1, l2, x1, n, m, s, f); P.joint = finishJoint(world, i, ngs); } }
        else { if (ctor == 0) { SliderJointInfo i(a, b, w, x); P.joint = finishJoint(world, i, ngs); } else if (ctor == 1) { SliderJointInfo i(a, b, w, x, n, m); P.joint = finishJoint(world, i, ngs); } else { SliderJointInfo i(a, b, w, x, n, m, s, f); P.joint = finishJoint(world, i, ngs); } }
    }
}
}
