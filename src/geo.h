// A small world whose colliders are mirrored by reference geometry.
#pragma once
#include "gen.h"
namespace gen {
struct GCollider { Collider* col; int shape; Transform local; };
struct GBody { RigidBody* body; std::vector<GCollider> cols; };
struct GScene {
    Case& c; TrackingAllocator base; std::unique_ptr<PhysicsCommon> pc; PhysicsWorld* world = nullptr; std::vector<Shape> shapes; std::vector<GBody> bodies; std::set<int> stale;
    explicit GScene(Case& cc) : c(cc) { pc.reset(new PhysicsCommon(&base)); world = pc->createPhysicsWorld(); }
    void close() { bodies.clear(); pc.reset(); base.verifyEmpty(c, "PhysicsCommon"); }
    Transform localT() { return c.chance(0.4) ? Transform::identity() : place(c, 3); }
    int addShape(unsigned mask) { shapes.push_back(shape(c, *pc, mask)); return static_cast<int>(shapes.size()) - 1; }
    void addBody(double range) { GBody b; Transform t = place(c, range); noteX(c, "body", t); b.body = world->createRigidBody(t); bodies.push_back(b); }
    GCollider& addCollider(GBody& b, unsigned mask) {
        int s = !shapes.empty() && c.chance(0.15) ? static_cast<int>(c.draw(shapes.size() - 1)) : addShape(mask); if (!(mask & (1u << shapes[s].kind))) s = addShape(mask);
        Transform l = localT(); noteX(c, "collider", l); GCollider g; g.col = b.body->addCollider(shapes[s].shape, l); g.shape = s; g.local = l; b.cols.push_back(g); return b.cols.back();
    }
    Xf worldX(const GBody& b, const GCollider& g) const { return rf(b.body->getTransform()) * rf(g.local); }
    // one random change of placement or size
    void mutate(double range) {
        Case::Span sp(c); if (bodies.empty()) return; GBody& b = bodies[c.draw(bodies.size() - 1)];
        switch (c.weighted({3, 2, 2, 1})) {
            case 0: { Transform t = place(c, range); noteX(c, "setTransform", t); b.body->setTransform(t); break; }
            case 1: { if (b.cols.empty()) break; GCollider& g = b.cols[c.draw(b.cols.size() - 1)]; Transform t = localT(); noteX(c, "setLocalToBodyTransform", t); g.col->setLocalToBodyTransform(t); g.local = t; break; }
            case 2: { if (b.cols.empty()) break; int si = b.cols[c.draw(b.cols.size() - 1)].shape; resize(c, shapes[si]); stale.insert(si); break; }
            default: { if (b.cols.size() < 2) break; size_t i = c.draw(b.cols.size() - 1); c.note("removeCollider %zu", i); b.body->removeCollider(b.cols[i].col); b.cols.erase(b.cols.begin() + i); break; }
        }
    }
};
}
