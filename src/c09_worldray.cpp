#include "scene.h"
using namespace gen;

struct Visit { Collider* col; Body* body; double fraction; V p, n; int tri; double ret; };
struct Recorder : RaycastCallback {
    Case& c; int policy; double cut; std::vector<Visit> v; std::set<Collider*> ignore;
    Recorder(Case& cc, int p) : c(cc), policy(p), cut(0) {}
    decimal notifyRaycastHit(const RaycastInfo& i) override {
        Visit x{i.collider, i.body, i.hitFraction, rf(i.worldPoint), rf(i.worldNormal), i.triangleIndex, 1};
        switch (policy) { case 0: x.ret = 1; break; case 1: x.ret = i.hitFraction; break; case 2: x.ret = 0; break; case 3: x.ret = -1; break; case 4: x.ret = ignore.count(i.collider) ? -1 : static_cast<double>(i.hitFraction); break;
            default: { int k = c.weighted({3, 3, 1, 2, 3}); x.ret = k == 0 ? 1 : k == 1 ? static_cast<double>(i.hitFraction) : k == 2 ? 0 : k == 3 ? -1 : static_cast<double>(decimal(c.real(0.01, 0.99))); } }
        v.push_back(x); return decimal(x.ret);
    }
};

PBT_PROP(world_raycast, 80000, 1200000, "a world of up to 8 bodies after 4-40 random operations (create, destroy, move, resize, (de)activate, reconfigure, step), 6 rays per world with random mask, maximum fraction and callback policy; non-trivial: at least one ray that meets two or more colliders") {
    Scene s(c); s.range = c.chance(0.8) ? 4 : 40; s.dynamicMask = 63; s.w[JOINT_SET] = 0; s.maxCols = 4; s.maxBodies = 9;
    s.weights({{CREATE_BODY, 8}, {DESTROY_BODY, 2}, {ADD_COLLIDER, 3}, {REMOVE_COLLIDER, 2}, {SET_TRANSFORM, 4}, {SET_LOCAL, 2}, {RESIZE, 2}, {SET_TYPE, 1}, {SET_ACTIVE, 3}, {SET_SLEEPING, 1}, {FILTER, 4}, {TRIGGER, 1}, {SIMFLAG, 1}, {QUERYFLAG, 2}, {VELOCITY, 2}, {STEP, 2}});
    s.apply(CREATE_BODY); s.apply(CREATE_BODY); int n = 0; while (c.more(n, 12, 40)) s.op();
    bool many = false;
    for (int k = 0; k < 6; k++) {
        Case::Span sp(c); SBody* b = nullptr; SCol* g = s.anyCol(b); V to, from; if (g && c.chance(0.9)) to = s.worldX(*b, *g) * (c.chance(0.5) ? V() : 0.7 * s.shapes[g->shape].size * dir(c)); else to = vec(c, s.range);
        V d = dir(c); double L = c.real(1, 4 * s.range); from = to - L * d; to = to + c.real(0, 1.5) * L * d; Vector3 O = lib(from), T = lib(to); decimal maxT = decimal(c.chance(0.6) ? 1 : c.real(0.05, 2)); unsigned short mask = c.chance(0.5) ? 0xFFFF : static_cast<unsigned short>(c.draw(7)); Recorder rec(c, c.weighted({4, 4, 1, 1, 2, 3}));
        c.note("ray (%.17g %.17g %.17g)->(%.17g %.17g %.17g) max %.17g mask %x policy %d", (double)O.x, (double)O.y, (double)O.z, (double)T.x, (double)T.y, (double)T.z, (double)maxT, mask, rec.policy);
        struct H { SCol* k; SBody* b; double t; V p, n; int tri; }; std::vector<H> hits; Ray ray(O, T, maxT);
        for (auto& q : s.bodies) for (auto& h : q->cols) { RaycastInfo info; if (!q->active || !h.query || !(h.cat & mask)) continue; if (h.col->raycast(ray, info)) hits.push_back({&h, q.get(), info.hitFraction, rf(info.worldPoint), rf(info.worldNormal), info.triangleIndex}); }
        if (hits.size() > 1) many = true;
        if (rec.policy == 4) for (auto& h : hits) if (c.chance(0.4)) rec.ignore.insert(h.k->col);
        if (mask == 0xFFFF && c.chance(0.5)) s.world->raycast(ray, &rec); else s.world->raycast(ray, &rec, mask);
        if (c.verbose()) for (auto& v : rec.v) c.note("  visited collider %p at %.9g, returned %.9g", (void*)v.col, v.fraction, v.ret);
        double tol = DP ? 1e-9 : 1e-4, cur = maxT, must = maxT; bool stopped = false; std::set<Collider*> seen;
        for (auto& v : rec.v) {
            const H* h = nullptr; for (auto& x : hits) if (x.k->col == v.col) h = &x; c.check(h != nullptr, "the callback got a collider that the ray does not hit, or that is inactive, filtered out or not a query collider"); c.check(!stopped, "the callback was called again after it returned 0"); c.check(seen.insert(v.col).second, "the callback was called twice for a collider");
            c.check(v.body == h->b->body, "the callback got the wrong body"); c.check(v.fraction <= cur + tol, "the callback got a hit at fraction %.9g after the ray was clipped to %.9g", v.fraction, cur); c.check(std::fabs(v.fraction - h->t) <= tol && ref::len(v.p - h->p) <= tol * 100 && ref::len(v.n - h->n) <= tol * 1000, "hit data of the world ray cast differs from that of the collider (fraction %.12g, %.12g)", v.fraction, h->t); if (s.shapes[h->k->shape].kind == TRIMESH) c.check(v.tri >= 0, "no triangle index for a triangle mesh");
            if (v.ret == 0) stopped = true; else if (v.ret > 0 && v.ret < cur) { must = std::min(must, v.ret); if (v.ret != 1) cur = v.ret; }   // returning 1 means: not clipped, or clipped to 1
        }
        // everything closer than the final clipping fraction must have been seen
        if (!stopped) for (auto& h : hits) if (!seen.count(h.k->col)) c.check(h.t > must - tol, "the ray hits a collider at fraction %.9g, before the final maximum fraction %.9g, but the callback was not called", h.t, cur);
        if (stopped || rec.policy == 2) c.check(!hits.empty() == !rec.v.empty(), "callback calls: %zu, hits: %zu", rec.v.size(), hits.size());
        if (rec.policy == 1 && !hits.empty()) { double best = 1e300; for (auto& h : hits) best = std::min(best, h.t); c.check(!rec.v.empty() && std::fabs(rec.v.back().fraction - best) <= tol, "closest-hit ray cast ended with fraction %.9g, the closest hit is at %.9g", rec.v.empty() ? -1 : rec.v.back().fraction, best); }
        if (rec.policy == 4 && !hits.empty()) { double best = 1e300; for (auto& h : hits) if (!rec.ignore.count(h.k->col)) best = std::min(best, h.t); double got = 1e300; for (auto& v : rec.v) if (v.ret >= 0) got = std::min(got, v.fraction); c.check(best > 1e299 ? got > 1e299 : std::fabs(got - best) <= tol, "closest-hit ray cast with ignored colliders found fraction %.9g, expected %.9g", got, best); }
        if (!rec.v.empty()) c.label("rays with hits");
    }
    if (many) c.nontrivial();
    s.close();
}
