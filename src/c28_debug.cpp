#include "scene.h"
#include <functional>
using namespace gen;
using DR = DebugRenderer; using Item = DR::DebugItem;
static const Item ITEMS[] = {Item::COLLIDER_AABB, Item::COLLIDER_BROADPHASE_AABB, Item::COLLISION_SHAPE, Item::CONTACT_POINT, Item::CONTACT_NORMAL, Item::COLLISION_SHAPE_NORMAL};
static const uint32 COL[] = {0xff00ff, 0xffff00, 0x00ff00, 0xff0000, 0xffffff, 0x0000ff};
struct Hits : EventListener { std::vector<std::pair<V, V>> p; void onContact(const CollisionCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto q = d.getContactPair(i); if (q.getEventType() == CollisionCallback::ContactPair::EventType::ContactExit) continue; for (uint32 k = 0; k < q.getNbContactPoints(); k++) { auto c = q.getContactPoint(k); p.push_back({rf(q.getCollider1()->getLocalToWorldTransform() * c.getLocalPointOnCollider1()), rf(c.getWorldNormal())}); } } } };
struct Line { V a, b; };
struct Tri { V p[3]; };
static double area(const Tri& t) { return 0.5 * ref::len(ref::cross(t.p[1] - t.p[0], t.p[2] - t.p[0])); }
static double triDist(const Tri& t, V x) {   // distance of a point from a triangle
    V a = t.p[0], b = t.p[1], c = t.p[2], n = ref::cross(b - a, c - a); double best = 1e300;
    if (ref::len(n) > 0) { V u = ref::unit(n), y = x - ref::dot(x - a, u) * u; if (ref::dot(ref::cross(b - a, y - a), n) >= 0 && ref::dot(ref::cross(c - b, y - b), n) >= 0 && ref::dot(ref::cross(a - c, y - c), n) >= 0) best = std::fabs(ref::dot(x - a, u)); }
    for (int i = 0; i < 3; i++) { V p = t.p[i], d = t.p[(i + 1) % 3] - p; double l = ref::dot(d, d), s = l > 0 ? std::min(1.0, std::max(0.0, ref::dot(x - p, d) / l)) : 0; best = std::min(best, ref::len(x - p - s * d)); }
    return best;
}
// Every expected line is there exactly once and there is no other one. 'dirs' > 1: the far end may be any of several.
static void match(Case& c, const std::vector<Line>& got, const std::vector<std::vector<Line>>& want, double tol, bool directed, const char* what) {
    c.check(got.size() == want.size(), "%zu lines are drawn for %s, %zu are expected", got.size(), what, want.size());
    std::vector<std::vector<size_t>> cand(want.size()); std::vector<int> owner(got.size(), -1);
    for (size_t k = 0; k < want.size(); k++) for (size_t i = 0; i < got.size(); i++) for (auto& x : want[k]) { auto near = [&](V p, V q) { return ref::len(p - q) <= tol * (1 + ref::len(p)); }; if ((near(got[i].a, x.a) && near(got[i].b, x.b)) || (!directed && near(got[i].a, x.b) && near(got[i].b, x.a))) { cand[k].push_back(i); break; } }
    std::vector<int> seen(got.size(), -1); std::function<bool(size_t, int)> assign = [&](size_t k, int run) { for (size_t i : cand[k]) { if (seen[i] == run) continue; seen[i] = run; if (owner[i] < 0 || assign(static_cast<size_t>(owner[i]), run)) { owner[i] = static_cast<int>(k); return true; } } return false; };
    for (size_t k = 0; k < want.size(); k++) { auto& w = want[k]; c.check(assign(k, static_cast<int>(k)), "no line is drawn for %s from (%.9g %.9g %.9g) to (%.9g %.9g %.9g)", what, w[0].a.x, w[0].a.y, w[0].a.z, w[0].b.x, w[0].b.y, w[0].b.z); }
}
static void boxLines(const AABB& a, std::vector<std::vector<Line>>& out) { V m = rf(a.getMin()), M = rf(a.getMax()); auto p = [&](int i) { return V{i & 1 ? M.x : m.x, i & 2 ? M.y : m.y, i & 4 ? M.z : m.z}; }; for (int i = 0; i < 8; i++) for (int b = 1; b < 8; b *= 2) if (!(i & b)) out.push_back({{p(i), p(i | b)}}); }

PBT_PROP(drawing, 6000, 300000, "a scene of up to 5 bodies, random subsets of debug items and debugged bodies that change between 1-12 updates, scene operations in between; after every update all primitives are compared with the reference geometry; non-trivial: shapes of at least two kinds, or contacts, were drawn and something was hidden") {
    PhysicsWorld::WorldSettings ws; Scene s(c, ws); s.maxBodies = 5; s.maxCols = 2; s.range = 1.5; s.maxSpeed = 2; s.typeW[0] = 3; s.weights({{CREATE_BODY, 4}, {DESTROY_BODY, 2}, {ADD_COLLIDER, 4}, {REMOVE_COLLIDER, 2}, {SET_TRANSFORM, 3}, {SET_LOCAL, 2}, {RESIZE, 2}, {SET_TYPE, 1}, {SET_ACTIVE, 2}, {SET_SLEEPING, 2}, {TRIGGER, 1}, {VELOCITY, 1}, {CREATE_JOINT, 1}, {MATERIAL, 1}});
    Hits hits; s.world->setEventListener(&hits); DR& r = s.world->getDebugRenderer(); bool on = false, shown[6] = {}; std::set<int> dbg; double R = 0.1, L = 1; const double T = DP ? 1e-9 : 2e-5; bool nt = false;
    c.check(!s.world->getIsDebugRenderingEnabled(), "debug rendering is enabled from the start"); auto toggles = [&]() {
        if (c.chance(0.3)) { on = c.chance(0.85); s.world->setIsDebugRenderingEnabled(on); c.note("debug rendering %d", on); } for (int i = 0; i < 6; i++) if (c.chance(0.25)) { shown[i] = c.chance(0.65); r.setIsDebugItemDisplayed(ITEMS[i], shown[i]); c.note("item %d %d", i, shown[i]); }
        for (auto& b : s.bodies) if (c.chance(0.4)) { bool d = c.chance(0.75); b->body->setIsDebugEnabled(d); if (d) dbg.insert(b->id); else dbg.erase(b->id); c.note("debug of #%d %d", b->id, d); }
        if (c.chance(0.1)) { R = c.real(0.02, 0.5); r.setContactPointSphereRadius(decimal(R)); R = r.getContactPointSphereRadius(); } if (c.chance(0.1)) { L = c.real(0.1, 3); r.setContactNormalLength(decimal(L)); L = r.getContactNormalLength(); }
        for (int i = 0; i < 6; i++) c.check(r.getIsDebugItemDisplayed(ITEMS[i]) == shown[i], "display flag of item %d is not what was set", i); for (auto& b : s.bodies) c.check(b->body->isDebugEnabled() == (dbg.count(b->id) > 0), "debug flag of body #%d is not what was set", b->id);
    };
    on = c.chance(0.9); s.world->setIsDebugRenderingEnabled(on); for (int i = 0; i < 6; i++) { shown[i] = c.chance(0.5); r.setIsDebugItemDisplayed(ITEMS[i], shown[i]); } int n0 = c.intIn(1, 4); for (int i = 0; i < n0; i++) { s.apply(CREATE_BODY); s.apply(ADD_COLLIDER); }
    for (auto& b : s.bodies) { b->body->setIsDebugEnabled(true); dbg.insert(b->id); if (c.chance(0.2)) { b->body->setIsDebugEnabled(false); dbg.erase(b->id); } }
    int n = 0; while (c.more(n, 5, 12)) {
        Case::Span sp(c); toggles(); int m = c.intIn(0, 3); for (int i = 0; i < m; i++) { if (s.op() == DESTROY_BODY) for (auto it = dbg.begin(); it != dbg.end();) if (!s.byId(*it)) it = dbg.erase(it); else ++it; }
        std::vector<Line> before; for (auto& l : r.getLines()) before.push_back({rf(l.point1), rf(l.point2)}); size_t tb = r.getNbTriangles(); hits.p.clear(); s.step();
        c.check(r.getNbLines() == r.getLines().size() && r.getNbTriangles() == r.getTriangles().size(), "the counts of lines and triangles differ from the arrays"); if (r.getNbLines()) c.check(r.getLinesArray() == &r.getLines()[0], "getLinesArray is not the start of the lines"); if (r.getNbTriangles()) c.check(r.getTrianglesArray() == &r.getTriangles()[0], "getTrianglesArray is not the start of the triangles");
        if (!on) { c.check(before.size() == r.getNbLines() && tb == r.getNbTriangles(), "an update without debug rendering changed the primitives"); continue; }
        std::vector<Line> lines[6]; std::vector<Tri> tris[6];
        for (auto& l : r.getLines()) { int k = -1; for (int i = 0; i < 6; i++) if (l.color1 == COL[i] && l.color2 == COL[i]) k = i; c.check(k >= 0, "a line has colours %x %x", l.color1, l.color2); lines[k].push_back({rf(l.point1), rf(l.point2)}); }
        for (auto& t : r.getTriangles()) { int k = -1; for (int i = 0; i < 6; i++) if (t.color1 == COL[i] && t.color2 == COL[i] && t.color3 == COL[i]) k = i; c.check(k >= 0, "a triangle has colours %x %x %x", t.color1, t.color2, t.color3); tris[k].push_back({{rf(t.point1), rf(t.point2), rf(t.point3)}}); }
        for (int i = 0; i < 6; i++) if (!shown[i]) c.check(lines[i].empty() && tris[i].empty(), "item %d is drawn (%zu lines, %zu triangles) although it is not selected", i, lines[i].size(), tris[i].size());
        std::vector<std::vector<Line>> box, fat, nor; struct Drawn { Shape* h; Xf x; Poly p; std::vector<Tri> t; }; std::vector<Drawn> ds; std::set<int> kinds; bool hidden = false;
        for (auto& b : s.bodies) { if (!b->active || !dbg.count(b->id)) { hidden = hidden || !b->cols.empty(); continue; } for (auto& k : b->cols) {
            if (shown[0]) boxLines(k.col->getWorldAABB(), box); if (shown[1]) boxLines(s.world->getWorldAABB(k.col), fat); Shape& h = s.shapes[k.shape]; Xf X = s.worldX(*b, k); Drawn d{&h, X, Poly(), {}}; kinds.insert(h.kind); if (h.convex) d.p = ref::transformed(h.poly, X); else for (auto& t : h.tris) d.t.push_back({{X * t[0], X * t[1], X * t[2]}});
            if (shown[5]) { if (h.kind == BOX || h.kind == CONVEX) for (size_t f = 0; f < d.p.f.size(); f++) { V m; for (int i : d.p.f[f]) m = m + (1.0 / d.p.f[f].size()) * d.p.v[i]; nor.push_back({{m, m + d.p.fn[f]}}); }
                else if (h.kind == TRIMESH) { auto* q = static_cast<ConcaveMeshShape*>(h.shape); for (uint32 i = 0; i < q->getNbVertices(); i++) { V v = X * rf(q->getVertex(i)); nor.push_back({{v, v + X.R * rf(q->getVertexNormal(i))}}); } }
                else if (h.kind == HEIGHTFIELD) for (size_t i = 0; i + 1 < d.t.size(); i += 2) { V n1 = ref::unit(ref::cross(d.t[i].p[1] - d.t[i].p[0], d.t[i].p[2] - d.t[i].p[0])), n2 = ref::unit(ref::cross(d.t[i + 1].p[1] - d.t[i + 1].p[0], d.t[i + 1].p[2] - d.t[i + 1].p[0])); V q[4] = {d.t[i].p[0], d.t[i].p[1], d.t[i].p[2], d.t[i + 1].p[2]}; for (V v : q) nor.push_back({{v, v + n1}, {v, v + n2}}); } }
            if (shown[2]) ds.push_back(std::move(d)); } }
        match(c, lines[0], box, T, false, "collider AABBs"); match(c, lines[1], fat, T, false, "broad-phase AABBs"); if (nor.size() < 3000) match(c, lines[5], nor, DP ? 1e-8 : 2e-3, true, "shape normals");
        std::vector<std::vector<Line>> cn; if (shown[4]) for (auto& p : hits.p) cn.push_back({{p.first, p.first + L * p.second}}); match(c, lines[4], cn, T, true, "contact normals");
        // the triangles of the shapes: each lies on a drawn shape, together they have its area, and cover sampled surface points
        double lo = 0, hi = 0, got = 0; for (auto& t : tris[2]) got += area(t);
        auto fits = [&](const Drawn& d, const Tri& t) {
            double tol = T * 10 * (d.h->size + ref::len(d.x.t)); 
            if (!d.h->convex) { for (auto& u : d.t) { static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; for (auto& q : P) if (ref::len(t.p[0] - u.p[q[0]]) <= tol && ref::len(t.p[1] - u.p[q[1]]) <= tol && ref::len(t.p[2] - u.p[q[2]]) <= tol) return true; } return false; }
            if (d.p.r > 0) { for (auto& v : t.p) { double e; if (d.p.v.size() == 1) e = ref::len(v - d.p.v[0]); else { V a = d.p.v[0], b = d.p.v[1] - a; double q = std::min(1.0, std::max(0.0, ref::dot(v - a, b) / ref::dot(b, b))); e = ref::len(v - a - q * b); } if (std::fabs(e - d.p.r) > tol) return false; } return true; }
            for (size_t f = 0; f < d.p.f.size(); f++) { int k = 0; for (auto& v : t.p) { bool on2 = false; for (int i : d.p.f[f]) on2 = on2 || ref::len(d.p.v[i] - v) <= tol; k += on2; } if (k == 3) return true; } return false; };
        std::vector<std::vector<const Tri*>> own(ds.size()); for (auto& t : tris[2]) { bool any = false; for (size_t i = 0; i < ds.size(); i++) if (fits(ds[i], t)) { own[i].push_back(&t); any = true; } c.check(any, "a triangle (%.6g %.6g %.6g) (%.6g %.6g %.6g) (%.6g %.6g %.6g) lies on no drawn shape", t.p[0].x, t.p[0].y, t.p[0].z, t.p[1].x, t.p[1].y, t.p[1].z, t.p[2].x, t.p[2].y, t.p[2].z); }
        for (size_t i = 0; i < ds.size(); i++) {
            Drawn& d = ds[i]; double A = 0, slack = T * 100 * (d.h->size + ref::len(d.x.t)); auto covered = [&](V x, double tol) { for (auto* t : own[i]) if (triDist(*t, x) <= tol) return true; return false; };
            auto need = [&](V x, double tol) { c.check(covered(x, tol), "the point (%.9g %.9g %.9g) of a drawn %s is not covered by its triangles", x.x, x.y, x.z, KIND[d.h->kind]); };
            if (!d.h->convex) { for (auto& t : d.t) A += area(t); lo += A; hi += A; for (int k = 0; k < 6; k++) { Tri& t = d.t[c.draw(d.t.size() - 1)]; double u = c.unif(0, 1), w = c.unif(0, 1 - u); need(t.p[0] + u * (t.p[1] - t.p[0]) + w * (t.p[2] - t.p[0]), slack); } }
            else if (d.p.r > 0) { double hgt = d.p.v.size() == 1 ? 0 : ref::len(d.p.v[1] - d.p.v[0]); A = 4 * M_PI * d.p.r * d.p.r + 2 * M_PI * d.p.r * hgt; lo += 0.9 * A; hi += A; for (int k = 0; k < 8; k++) { V u = dir(c); V q = d.p.v[0]; if (hgt > 0) { V ax = ref::unit(d.p.v[1] - d.p.v[0]); double z = ref::dot(u, ax); int side = c.intIn(0, 2); if (side == 0) { u = u - z * ax; if (ref::len(u) < 1e-6) continue; u = ref::unit(u); q = q + c.unif(0, hgt) * ax; } else if (z > 0) q = d.p.v[1]; } need(q + d.p.r * u, 0.045 * d.p.r + slack); } }
            else { for (auto& f : d.p.f) for (size_t k = 2; k < f.size(); k++) A += area({{d.p.v[f[0]], d.p.v[f[k - 1]], d.p.v[f[k]]}}); lo += A; hi += A; for (int k = 0; k < 8; k++) { auto& f = d.p.f[c.draw(d.p.f.size() - 1)]; V x; double sum = 0; for (int j : f) { double w = c.unif(0.01, 1); x = x + w * d.p.v[j]; sum += w; } need((1 / sum) * x, slack); } }
        }
        double at = (DP ? 1e-7 : 2e-3) * (hi + 1e-3); c.check(got >= lo - at && got <= hi + at, "the triangles of the shapes have area %.9g, between %.9g and %.9g is expected", got, lo, hi);
        if (shown[3]) {   // spheres at the contact points
            double A = 0; for (auto& t : tris[3]) { A += area(t); bool any = false; for (auto& p : hits.p) { int k = 0; for (auto& v : t.p) k += std::fabs(ref::len(v - p.first) - R) <= T * 10 * (1 + ref::len(p.first)); any = any || k == 3; } c.check(any, "a contact point triangle lies on no sphere of radius %g at a contact point", R); }
            double S = 4 * M_PI * R * R * hits.p.size(); c.check(A >= 0.9 * S && A <= S * 1.0001, "%zu contact spheres have area %.6g, up to %.6g is expected", hits.p.size(), A, S); for (auto& p : hits.p) { V x = p.first + R * dir(c); bool ok = false; for (auto& t : tris[3]) ok = ok || triDist(t, x) <= 0.045 * R + T * 10 * (1 + ref::len(x)); c.check(ok, "the contact sphere at (%g %g %g) is not drawn", p.first.x, p.first.y, p.first.z); if (!hits.p.empty()) c.label("contacts drawn"); }
        }
        if ((kinds.size() > 1 && shown[2] && hidden) || ((shown[3] || shown[4]) && !hits.p.empty() && hidden)) nt = true;
        if (c.chance(0.05)) { r.reset(); c.check(r.getNbLines() == 0 && r.getNbTriangles() == 0, "primitives are left after reset"); }
    }
    if (nt) c.nontrivial(); s.close();
}
