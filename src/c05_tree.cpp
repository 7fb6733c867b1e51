#include <reactphysics3d/reactphysics3d.h>
#include <reactphysics3d/collision/broadphase/DynamicAABBTree.h>
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <vector>
#include "track.h"
using namespace reactphysics3d;
using pbt::Case;
typedef double D;
static const D EPS = sizeof(decimal) == 8 ? 1e-9 : 1e-3;
struct Box { D lo[3], hi[3]; };
static Box bx(const AABB& a) { Box b; for (int i = 0; i < 3; i++) { b.lo[i] = a.getMin()[i]; b.hi[i] = a.getMax()[i]; } return b; }
static bool overlap(const Box& a, const Box& b) { for (int i = 0; i < 3; i++) if (a.hi[i] < b.lo[i] || b.hi[i] < a.lo[i]) return false; return true; }
static bool inside(const Box& out, const Box& in, D eps = 0) { for (int i = 0; i < 3; i++) if (in.lo[i] < out.lo[i] - eps || in.hi[i] > out.hi[i] + eps) return false; return true; }
// +1: the ray clearly meets the box within [0,maxT]; -1: clearly does not; 0: too close to call. entry: parameter of entry
static int rayBox(const Box& b, const Vector3& o, const Vector3& d, D maxT, D* entry) {
    D t0 = 0, t1 = maxT, s0 = 0, s1 = maxT, x0 = 0; bool sureHit = true;
    for (int i = 0; i < 3; i++) {
        D p = o[i], v = d[i];
        if (v == 0) { if (p < b.lo[i] - EPS || p > b.hi[i] + EPS) return -1; if (!(p > b.lo[i] + EPS && p < b.hi[i] - EPS)) sureHit = false; continue; }
        D a = (b.lo[i] - p) / v, e = (b.hi[i] - p) / v; if (a > e) std::swap(a, e); D m = EPS / std::fabs(v);
        x0 = std::max(x0, a); s0 = std::max(s0, a - m); s1 = std::min(s1, e + m);                       // generous interval
        if (b.hi[i] > b.lo[i]) { t0 = std::max(t0, a + m); t1 = std::min(t1, e - m); }  // strict interval
        else { t0 = std::max(t0, a); t1 = std::min(t1, e); }
    }
    if (s0 > s1) return -1;
    int flat = 0; for (int i = 0; i < 3; i++) flat += b.hi[i] <= b.lo[i];
    if (entry) *entry = x0;
    if (!sureHit || flat > 1) return 0;
    return t0 <= t1 && s1 > 0 ? 1 : 0;
}
static Vector3 pos(Case& c, D r, bool grid) { return grid ? Vector3(c.intIn(-6, 6), c.intIn(-6, 6), c.intIn(-6, 6)) : Vector3(c.real(-r, r), c.real(-r, r), c.real(-r, r)); }
static Vector3 size(Case& c, bool grid) {
    int k = c.weighted({6, 1, 1, 1});
    if (k == 1) return Vector3(0, 0, 0);
    if (k == 2) return Vector3(c.intIn(0, 1) * c.real(0, 3), c.intIn(0, 1) * c.real(0, 3), c.intIn(0, 1) * c.real(0, 3));   // flat or line
    if (k == 3) return Vector3(c.logReal(1e-3, 50), c.logReal(1e-3, 50), c.logReal(1e-3, 50));
    return grid ? Vector3(c.intIn(0, 4), c.intIn(0, 4), c.intIn(0, 4)) : Vector3(c.real(0, 3), c.real(0, 3), c.real(0, 3));
}
static AABB randBox(Case& c, D r, bool grid) { Vector3 p = pos(c, r, grid), s = size(c, grid); return AABB(p, p + s); }
struct Obj { Box last, fat; uint32 data; void* ptr; };
struct RayCb : DynamicAABBTreeRaycastCallback {
    Case& c; std::map<int32, Obj>& model; Vector3 o, d; int mode; D best; D cur; std::vector<int32> visited; int stopAfter; D firstMax;
    RayCb(Case& cc, std::map<int32, Obj>& m) : c(cc), model(m), mode(0), best(1e30), cur(0), stopAfter(-1), firstMax(0) {}
    decimal raycastBroadPhaseShape(int32 id, const Ray& ray) override {
        c.check(model.count(id), "raycast reported the removed or unknown object %d", id);
        c.check(ray.point1 == o && ray.point2 == o + d, "the ray given to the callback has other end points");
        c.check(ray.maxFraction <= decimal(cur) * (1 + 1e-6) && ray.maxFraction >= decimal(cur) * (1 - 1e-6), "the ray given to the callback has fraction %.9g, expected %.9g", (double)ray.maxFraction, cur);
        visited.push_back(id);
        if (mode == 2 && static_cast<int>(visited.size()) > stopAfter) return 0;
        if (mode == 1) {       // closest hit of the real boxes
            D e; int r = rayBox(model[id].last, o, d, cur, &e); if (r == 1 && e > 0) { best = std::min(best, e); cur = std::min(cur, static_cast<D>(decimal(e))); return decimal(e); }
        }
        return -1;
    }
};

PBT_PROP(tree_history, 500000, 12000000, "histories of add/remove/update/reset with point, flat, huge, touching and clustered boxes, queries in between; non-trivial: at least 12 objects alive at once, a removal and a reinsertion before a query that reported something") {
    TrackingAllocator base(c.chance(0.5) ? 0xCD : 0); bool nonEmptyAnswer = false;
    {
        D pct = c.weighted({1, 2, 1}) == 0 ? 0 : (c.chance(0.7) ? 0.08 : c.real(0, 0.5)); bool grid = c.chance(0.4), usePtr = c.chance(0.3); D r = c.chance(0.3) ? 3 : (c.chance(0.2) ? 100 : 15);
        c.note("inflate %.17g grid %d", pct, grid);
        DynamicAABBTree tree(base, decimal(pct)); std::map<int32, Obj> m; uint32 counter = c.chance(0.2) ? 0xfffffff0u : 0; int removed = 0, reins = 0; size_t peak = 0; int steps = 0;
        int growth = c.weighted({1, 1, 1}); D mean = c.chance(0.2) ? 150 : 40;
        auto checkFat = [&](int32 id, const char* when) {
            Box f = bx(tree.getFatAABB(id)); const Obj& ob = m[id];
            c.check(inside(f, ob.last), "%s: the stored box of object %d does not contain the box given for it", when, id);
            return f;
        };
        auto inflated = [&](const Box& f, const Box& l) { for (int i = 0; i < 3; i++) { D g = (l.hi[i] - l.lo[i]) * pct * 0.5, e = EPS * (1 + std::fabs(l.lo[i]) + std::fabs(l.hi[i])); if (l.lo[i] - f.lo[i] > g + e || f.hi[i] - l.hi[i] > g + e) return false; } return true; };
        while (c.more(steps, mean, 300)) {
            Case::Span sp(c); int op = c.weighted({growth == 0 ? 8 : 4, 3, 5, 4, 2, 4, 1});
            if (op == 0 || (m.empty() && op < 3)) {
                AABB b = randBox(c, r, grid); Obj o; o.last = bx(b); o.data = counter++; o.ptr = &base + o.data;
                if (!m.empty() && c.chance(0.15)) { auto it = m.begin(); std::advance(it, c.draw(m.size() - 1)); b = AABB(Vector3(it->second.last.lo[0], it->second.last.lo[1], it->second.last.lo[2]), Vector3(it->second.last.hi[0], it->second.last.hi[1], it->second.last.hi[2])); o.last = bx(b); c.label("identical boxes"); }
                int32 id = usePtr ? tree.addObject(b, o.ptr) : tree.addObject(b, o.data); c.note("add %d [%g %g %g]-[%g %g %g]", id, (double)b.getMin().x, (double)b.getMin().y, (double)b.getMin().z, (double)b.getMax().x, (double)b.getMax().y, (double)b.getMax().z);
                c.check(!m.count(id), "addObject returned the id %d of a living object", id); m[id] = o; m[id].fat = checkFat(id, "after addObject"); c.check(inflated(m[id].fat, o.last), "after addObject the stored box is larger than the inflation allows"); peak = std::max(peak, m.size());
            } else if (op == 1) {
                auto it = m.begin(); std::advance(it, c.draw(m.size() - 1)); c.note("remove %d", it->first); tree.removeObject(it->first); m.erase(it); removed++;
            } else if (op == 2) {
                auto it = m.begin(); std::advance(it, c.draw(m.size() - 1)); int32 id = it->first; Obj& o = it->second; AABB b; int k = c.weighted({3, 2, 2, 1});
                Vector3 lo(o.last.lo[0], o.last.lo[1], o.last.lo[2]), hi(o.last.hi[0], o.last.hi[1], o.last.hi[2]);
                if (k == 0) { Vector3 t(c.unif(-0.2, 0.2), c.unif(-0.2, 0.2), c.unif(-0.2, 0.2)); b = AABB(lo + t, hi + t); }
                else if (k == 1) { Vector3 t = pos(c, r, grid); b = AABB(lo + t, hi + t); }
                else if (k == 2) b = randBox(c, r, grid);
                else { Vector3 s = (hi - lo) * decimal(0.25); b = AABB(lo + s, hi - s); }
                bool force = c.chance(0.25); Box nb = bx(b); bool fits = inside(o.fat, nb); bool ret = tree.updateObject(id, b, force); c.note("update %d force %d -> %d", id, force, ret);
                c.check(ret == (force || !fits), "updateObject returned %d, the stored box %s the new box and force is %d", ret, fits ? "contains" : "does not contain", force);
                o.last = nb; Box f = checkFat(id, "after updateObject"); if (!ret) c.check(inside(f, o.fat) && inside(o.fat, f), "updateObject changed the stored box although it returned false"); else { reins++; c.check(inflated(f, nb), "after reinsertion the stored box is larger than the inflation allows"); } o.fat = f;
            } else if (op == 3) {
                if (m.empty() && c.chance(0.5)) continue;
                AABB q = c.chance(0.1) ? AABB(Vector3(-1e4, -1e4, -1e4), Vector3(1e4, 1e4, 1e4)) : randBox(c, r, grid); Box qb = bx(q); Array<int> out(base); tree.reportAllShapesOverlappingWithAABB(q, out); std::set<int> got;
                for (uint64_t i = 0; i < out.size(); i++) { c.check(m.count(out[i]), "box query reported the removed or unknown object %d", out[i]); c.check(got.insert(out[i]).second, "box query reported object %d twice", out[i]); c.check(overlap(m[out[i]].fat, qb), "box query reported object %d whose stored box does not touch the query box", out[i]); }
                for (auto& e : m) if (overlap(e.second.last, qb)) c.check(got.count(e.first), "box query missed object %d (of %zu)", e.first, m.size());
                if (!got.empty()) nonEmptyAnswer = true; c.note("query -> %zu", got.size());
            } else if (op == 4) {
                Array<int32> nodes(base); for (auto& e : m) if (c.chance(0.3)) nodes.add(e.first); if (nodes.size() == 0) continue;
                uint32 s = static_cast<uint32>(c.draw(nodes.size() - 1)); size_t e = s + 1 + c.draw(nodes.size() - s - 1); Array<Pair<int32, int32>> out(base); tree.reportAllShapesOverlappingWithShapes(nodes, s, e, out); std::set<std::pair<int, int>> got;
                for (uint64_t i = 0; i < out.size(); i++) { c.check(m.count(out[i].first) && m.count(out[i].second), "shape query reported an unknown object"); bool in = false; for (size_t k = s; k < e; k++) in = in || nodes[k] == out[i].first; c.check(in, "shape query reported a pair for an object outside the requested range"); c.check(got.insert({out[i].first, out[i].second}).second, "shape query reported a pair twice"); c.check(overlap(m[out[i].first].fat, m[out[i].second].fat), "shape query reported a pair of objects whose boxes do not touch"); }
                for (size_t k = s; k < e; k++) for (auto& x : m) if (x.first != nodes[k] && overlap(x.second.last, m[nodes[k]].last)) c.check(got.count({nodes[k], x.first}), "shape query missed the pair %d,%d", nodes[k], x.first);
                if (got.size() > nodes.size()) nonEmptyAnswer = true;
            } else if (op == 5) {
                RayCb cb(c, m); cb.o = pos(c, r * 1.5, grid); Vector3 to = pos(c, r * 1.5, grid); if (c.chance(0.2) && !m.empty()) { auto it = m.begin(); std::advance(it, c.draw(m.size() - 1)); Box& b = it->second.last; to = Vector3((b.lo[0] + b.hi[0]) / 2, (b.lo[1] + b.hi[1]) / 2, (b.lo[2] + b.hi[2]) / 2); }
                if (c.chance(0.2)) { int ax = c.intIn(0, 2); Vector3 t = cb.o; t[ax] = to[ax]; to = t; c.label("axis-parallel ray"); }
                cb.d = to - cb.o; if (cb.d.length() < 0.01) continue; Ray ray(cb.o, to, decimal(c.chance(0.5) ? 1 : c.real(0.1, 2))); cb.d = ray.point2 - ray.point1; to = ray.point2; if (!(cb.o + cb.d == to)) { ray.point2 = cb.o + cb.d; cb.d = ray.point2 - ray.point1; if (!(cb.o + cb.d == ray.point2)) continue; }
                cb.cur = ray.maxFraction; cb.mode = c.weighted({2, 3, 1}); cb.stopAfter = c.intIn(0, 2); D maxT = ray.maxFraction; tree.raycast(ray, cb);
                std::set<int32> v(cb.visited.begin(), cb.visited.end()); c.check(v.size() == cb.visited.size(), "raycast reported an object twice");
                if (cb.mode == 0) { for (auto& e : m) { int h = rayBox(e.second.last, cb.o, cb.d, maxT, nullptr); if (h == 1) c.check(v.count(e.first), "raycast missed object %d (of %zu)", e.first, m.size()); if (v.count(e.first)) c.check(rayBox(e.second.fat, cb.o, cb.d, maxT, nullptr) != -1, "raycast reported object %d whose stored box the ray does not meet", e.first); } if (!v.empty()) nonEmptyAnswer = true; }
                else if (cb.mode == 1) { D best = 1e30; for (auto& e : m) { D t; if (rayBox(e.second.last, cb.o, cb.d, maxT, &t) == 1 && t > 0) best = std::min(best, t); } D vmin = 1e30; for (int i = 0; i < 3; i++) if (cb.d[i] != 0) vmin = std::min<D>(vmin, std::fabs(cb.d[i])); c.check(cb.best <= best * (1 + 1e-5) + 3 * EPS / vmin, "closest hit found through the tree is at %.9g, the true one at %.9g", cb.best, best); if (best < 1e30) nonEmptyAnswer = true; }
                else c.check(static_cast<int>(cb.visited.size()) <= cb.stopAfter + 1, "raycast went on after the callback returned 0");
                c.note("ray -> %zu", v.size());
            } else if (c.chance(0.15)) { tree.reset(); m.clear(); c.note("reset"); }
            else if (!m.empty()) { Box root = bx(tree.getRootAABB()); for (auto& e : m) { c.check(inside(root, e.second.last), "the root box does not contain object %d", e.first); Box f = checkFat(e.first, "later"); c.check(inside(f, e.second.fat) && inside(e.second.fat, f), "the stored box of an object changed without an update"); if (usePtr) c.check(tree.getNodeDataPointer(e.first) == e.second.ptr, "user pointer of object %d changed", e.first); else c.check(static_cast<uint32>(tree.getNodeDataInt(e.first)) == e.second.data, "user data of object %d is %u, expected %u", e.first, (unsigned)tree.getNodeDataInt(e.first), e.second.data); }
                int h = tree.computeHeight(); c.check(h >= 0 && static_cast<size_t>(h) < m.size() && (size_t(1) << std::min(h, 40)) >= m.size(), "height %d of a tree of %zu objects", h, m.size()); }
        }
        if (peak >= 12 && removed && reins && nonEmptyAnswer) c.nontrivial();
    }
    base.verifyEmpty(c, "DynamicAABBTree");
}

PBT_PROP(aabb_ops, 10000000, 100000000, "random, touching, nested, degenerate boxes, points, triangles, scales and rays; non-trivial: the two boxes overlap without one containing the other, or the ray decision is clear") {
    bool grid = c.chance(0.5); AABB a = randBox(c, 5, grid), b = randBox(c, 5, grid); if (c.chance(0.1)) b = AABB(a.getMin(), a.getMin() + size(c, grid)); Box A = bx(a), B = bx(b);
    c.note("a=[%.17g %.17g %.17g]-[%.17g %.17g %.17g] b=[%.17g %.17g %.17g]-[%.17g %.17g %.17g]", A.lo[0], A.lo[1], A.lo[2], A.hi[0], A.hi[1], A.hi[2], B.lo[0], B.lo[1], B.lo[2], B.hi[0], B.hi[1], B.hi[2]);
    bool ov = overlap(A, B); c.check(a.testCollision(b) == ov && b.testCollision(a) == ov, "testCollision is %d, expected %d", a.testCollision(b), ov);
    bool in = inside(A, B); c.check(a.contains(b) == in, "contains(AABB) is %d, expected %d", a.contains(b), in);
    AABB m; m.mergeTwoAABBs(a, b); AABB m2 = a; m2.mergeWithAABB(b); Box M = bx(m), M2 = bx(m2);
    for (int i = 0; i < 3; i++) { c.check(M.lo[i] == std::min(A.lo[i], B.lo[i]) && M.hi[i] == std::max(A.hi[i], B.hi[i]), "mergeTwoAABBs is wrong on axis %d", i); c.check(M2.lo[i] == M.lo[i] && M2.hi[i] == M.hi[i], "mergeWithAABB differs from mergeTwoAABBs on axis %d", i); c.check(std::fabs(a.getCenter()[i] - (A.lo[i] + A.hi[i]) / 2) < 1e-4 * (1 + std::fabs(A.hi[i])) * EPS * 1e5, "getCenter is wrong"); c.check(std::fabs(a.getExtent()[i] - (A.hi[i] - A.lo[i])) < EPS * 10 * (1 + std::fabs(A.hi[i])), "getExtent is wrong"); }
    D vol = (A.hi[0] - A.lo[0]) * (A.hi[1] - A.lo[1]) * (A.hi[2] - A.lo[2]); c.check(std::fabs(a.getVolume() - vol) <= 1e-9 + (sizeof(decimal) == 8 ? 1e-12 : 1e-4) * (vol + 100), "getVolume is %.9g, expected %.9g", (double)a.getVolume(), vol);
    Vector3 p = pos(c, 6, grid); D e = c.chance(0.5) ? static_cast<D>(MACHINE_EPSILON) : c.real(0, 1); bool surely = true, surelyNot = false; for (int i = 0; i < 3; i++) { D lo = A.lo[i] - e, hi = A.hi[i] + e; if (p[i] < lo - EPS || p[i] > hi + EPS) surelyNot = true; if (p[i] < lo + EPS && !(p[i] >= A.lo[i] && p[i] <= A.hi[i])) surely = false; if (p[i] > hi - EPS && !(p[i] >= A.lo[i] && p[i] <= A.hi[i])) surely = false; }
    bool cp = e == static_cast<D>(MACHINE_EPSILON) ? a.contains(p) : a.contains(p, decimal(e)); if (surelyNot) c.check(!cp, "contains(point) accepts a point outside"); else if (surely) c.check(cp, "contains(point) rejects a point inside");
    AABB g = a; g.inflateWithPoint(p); Box G = bx(g); for (int i = 0; i < 3; i++) c.check(G.lo[i] == std::min<D>(A.lo[i], p[i]) && G.hi[i] == std::max<D>(A.hi[i], p[i]), "inflateWithPoint is wrong on axis %d", i);
    AABB f = a; Vector3 inc(c.real(0, 2), c.real(0, 2), c.real(0, 2)); f.inflate(inc.x, inc.y, inc.z); for (int i = 0; i < 3; i++) c.check(std::fabs(f.getMin()[i] - (A.lo[i] - inc[i])) < 1e-4 * EPS * 1e6 && std::fabs(f.getMax()[i] - (A.hi[i] + inc[i])) < EPS * 100, "inflate is wrong on axis %d", i);
    AABB s = a; Vector3 sc(c.real(0.1, 4), c.real(0.1, 4), c.real(0.1, 4)); s.applyScale(sc); for (int i = 0; i < 3; i++) c.check(std::fabs(s.getMin()[i] - A.lo[i] * sc[i]) < EPS * 1000 && std::fabs(s.getMax()[i] - A.hi[i] * sc[i]) < EPS * 1000, "applyScale is wrong on axis %d", i);
    AABB st; st.setMin(a.getMin()); st.setMax(b.getMax()); c.check(st.getMin() == a.getMin() && st.getMax() == b.getMax(), "setMin/setMax do not round-trip");
    Vector3 t[3] = {pos(c, 5, grid), pos(c, 5, grid), pos(c, 5, grid)}; Box T; for (int i = 0; i < 3; i++) { T.lo[i] = std::min({t[0][i], t[1][i], t[2][i]}); T.hi[i] = std::max({t[0][i], t[1][i], t[2][i]}); }
    AABB tb = AABB::createAABBForTriangle(t); Box TB = bx(tb); for (int i = 0; i < 3; i++) c.check(TB.lo[i] == T.lo[i] && TB.hi[i] == T.hi[i], "createAABBForTriangle is wrong on axis %d", i);
    // a triangle that surely meets the box (one of its points is inside) must be reported; one with a disjoint bound must not
    bool tt = a.testCollisionTriangleAABB(t); if (!overlap(A, T)) c.check(!tt, "testCollisionTriangleAABB reports a triangle that is clearly away"); D u = c.real(0, 1), v = c.real(0, 1); if (u + v > 1) { u = 1 - u; v = 1 - v; } Vector3 tp = t[0] * decimal(1 - u - v) + t[1] * decimal(u) + t[2] * decimal(v); bool tin = true; for (int i = 0; i < 3; i++) tin = tin && tp[i] > A.lo[i] + EPS && tp[i] < A.hi[i] - EPS; if (tin) c.check(tt, "testCollisionTriangleAABB misses a triangle with a point inside the box");
    // rays
    Vector3 o = pos(c, 10, grid), to = pos(c, 10, grid); if (c.chance(0.3)) { int ax = c.intIn(0, 2); Vector3 k = o; k[ax] = to[ax]; to = k; } Vector3 d = to - o; if (d.length() > 0.01) {
        for (int i = 0; i < 3; i++) if (std::fabs(d[i]) < 1e-3) { to[i] = o[i]; } d = to - o; D maxT = c.chance(0.5) ? 1 : c.real(0.1, 2); D en = 0; int h = rayBox(A, o, d, decimal(maxT), &en);
        bool got = a.testRayIntersect(o, Vector3(decimal(1) / d.x, decimal(1) / d.y, decimal(1) / d.z), decimal(maxT)); if (h == 1) c.check(got, "testRayIntersect misses a ray that meets the box"); if (h == -1) c.check(!got, "testRayIntersect reports a ray that does not meet the box");
        D en2; int h2 = rayBox(A, o, d, 1e6, &en2); Vector3 hp; bool rc = a.raycast(Ray(o, to, decimal(maxT)), hp); if (h == 1) c.check(rc, "AABB::raycast misses a ray that meets the box"); if (h2 == -1) c.check(!rc, "AABB::raycast reports a ray that does not meet the box");
        if (rc && h2 == 1) { Vector3 w = o + d * decimal(en2); D vmin = 1e30; for (int i = 0; i < 3; i++) if (d[i] != 0) vmin = std::min<D>(vmin, std::fabs(d[i])); c.check((hp - w).length() < (sizeof(decimal) == 8 ? 1e-12 : 2e-5) * (1 + d.length() / vmin) * 30, "AABB::raycast returns the hit point (%g %g %g), expected (%g %g %g)", (double)hp.x, (double)hp.y, (double)hp.z, (double)w.x, (double)w.y, (double)w.z); }
        if (h) c.nontrivial();
    }
    if (ov && !in) c.nontrivial();
}
