// Generators of library objects together with their reference geometry.
#pragma once
#include <reactphysics3d/reactphysics3d.h>
#include <memory>
#include "pbt.h"
#include "ref.h"
#include "track.h"
namespace gen {
using namespace reactphysics3d;
using pbt::Case;
using ref::V; using ref::Q; using ref::Poly;
typedef ref::X Xf;
static const bool DP = sizeof(decimal) == 8;
inline Vector3 lib(V v) { return Vector3(decimal(v.x), decimal(v.y), decimal(v.z)); }
inline V rf(const Vector3& v) { return {v.x, v.y, v.z}; }
inline Q rf(const Quaternion& q) { return {q.x, q.y, q.z, q.w}; }
inline Xf rf(const Transform& t) { return Xf(rf(t.getOrientation()), rf(t.getPosition())); }
inline V vec(Case& c, double r) { return {c.real(-r, r), c.real(-r, r), c.real(-r, r)}; }
inline V dir(Case& c) {
    if (c.chance(0.2)) { V n; n[c.intIn(0, 2)] = c.chance(0.5) ? 1 : -1; return n; }
    double z = c.unif(-1, 1), a = c.unif(0, 6.283185307179586), s = std::sqrt(std::max(0.0, 1 - z * z)); return {s * std::cos(a), s * std::sin(a), z};
}
// unit quaternion as the library will hold it
inline Quaternion orient(Case& c) {
    int k = c.weighted({3, 2, 6, 1});
    if (k == 0) return Quaternion::identity();
    Q q;
    if (k == 1) { V a; a[c.intIn(0, 2)] = 1; double ang = 1.5707963267948966 * c.intIn(1, 3); double s = std::sin(ang / 2); q = {a.x * s, a.y * s, a.z * s, std::cos(ang / 2)}; }
    else { V a = dir(c); double ang = k == 2 ? c.unif(0, 6.283185307179586) : c.logReal(1e-6, 1e-1); double s = std::sin(ang / 2); q = {a.x * s, a.y * s, a.z * s, std::cos(ang / 2)}; }
    Quaternion r(decimal(q.x), decimal(q.y), decimal(q.z), decimal(q.w)); r.normalize(); return r;
}
inline Transform place(Case& c, double r) { return Transform(lib(c.chance(0.15) ? V() : vec(c, r)), orient(c)); }

enum Kind { SPHERE = 0, CAPSULE, BOX, CONVEX, TRIMESH, HEIGHTFIELD };
static const char* KIND[] = {"sphere", "capsule", "box", "convex mesh", "triangle mesh", "height field"};
struct Shape {
    Kind kind = SPHERE; CollisionShape* shape = nullptr; bool convex = true;
    Poly poly;                                         // convex: local solid
    std::vector<std::array<V, 3>> tris;                // concave: local triangles (scaled)
    V scale{1, 1, 1}; Poly base; std::vector<std::array<V, 3>> baseTris;   // unscaled mesh data
    ConvexMesh* cmesh = nullptr; TriangleMesh* tmesh = nullptr; HeightField* hf = nullptr; double size = 1;
    void computeSize() { size = 0; if (convex) { for (auto& v : poly.v) size = std::max(size, ref::len(v) + poly.r); } else for (auto& t : tris) for (auto& v : t) size = std::max(size, ref::len(v)); }
    void setScale(V s) { scale = s; if (convex) poly = ref::scaled(base, s); else { tris = baseTris; for (auto& t : tris) for (auto& v : t) v = ref::mul(v, s); } computeSize(); }
    template <class F> void eachPoint(F f) const { if (convex) for (auto& v : poly.v) f(v); else for (auto& t : tris) for (auto& v : t) f(v); }
};
inline double extent(Case& c) { return c.chance(0.15) ? c.logReal(0.05, 20) : c.real(0.25, 2.5); }
inline V scaling(Case& c) { int k = c.weighted({3, 2, 4}); if (k == 0) return {1, 1, 1}; if (k == 1) { double s = c.logReal(0.3, 4); return {s, s, s}; } return {c.logReal(0.25, 4), c.logReal(0.25, 4), c.logReal(0.25, 4)}; }

// well-conditioned convex polyhedron, origin strictly inside
inline Poly polyhedron(Case& c, int maxV = 14) {
    std::vector<V> pts; int k = c.weighted({5, 2, 2, 1, 2}); V rad{c.real(0.5, 2), c.real(0.5, 2), c.real(0.5, 2)};
    if (k == 0) { int n = c.intIn(4, maxV); for (int i = 0; i < n; i++) pts.push_back(ref::mul(dir(c), rad)); }
    else if (k == 1) { int n = c.intIn(3, maxV / 2); double h = c.real(0.3, 2), top = c.chance(0.5) ? 1 : c.real(0.3, 2); for (int i = 0; i < n; i++) { double a = 6.283185307179586 * i / n; pts.push_back({rad.x * std::cos(a), -h, rad.z * std::sin(a)}); pts.push_back({top * rad.x * std::cos(a), h, top * rad.z * std::sin(a)}); } }  // prism or frustum
    else if (k == 2) { int n = c.intIn(3, maxV - 2); bool bi = c.chance(0.5); for (int i = 0; i < n; i++) { double a = 6.283185307179586 * i / n; pts.push_back({rad.x * std::cos(a), 0, rad.z * std::sin(a)}); } pts.push_back({0, rad.y, 0}); if (bi) pts.push_back({0, -c.real(0.3, 2), 0}); }   // (bi)pyramid
    else if (k == 3) pts = ref::box(rad).v;
    else { pts = {{1, 0, -0.7}, {-1, 0, -0.7}, {0, 1, 0.7}, {0, -1, 0.7}}; for (auto& p : pts) p = ref::mul(p, rad); }
    if (k != 3 && c.chance(0.5)) { ref::M3 R = ref::mat(rf(orient(c))); for (auto& p : pts) p = R * p; }
    // move an interior point to the origin
    V m; double ws = 0; for (auto& p : pts) { double w = c.chance(0.3) ? c.real(0.2, 2) : 1; m = m + w * p; ws += w; } m = (1 / ws) * m;
    for (auto& p : pts) { p = p - m; if (!DP) p = rf(lib(p)); }
    Poly out; if (!ref::hull(pts, out, DP ? 1e-9 : 2e-6, DP ? 1e-3 : 5e-3)) c.discard();
    double in = -1e300; for (size_t i = 0; i < out.f.size(); i++) in = std::max(in, -dot(out.v[out.f[i][0]], out.fn[i])); if (in > -0.02) c.discard();
    for (auto& e : out.e) if (ref::len(out.v[e[0]] - out.v[e[1]]) < 0.03) c.discard();
    return out;
}
inline ConvexMesh* makeConvexMesh(Case& c, PhysicsCommon& pc, const Poly& p) {
    std::vector<decimal> vs; std::vector<int> idx; std::vector<PolygonVertexArray::PolygonFace> fs;
    for (auto& v : p.v) { vs.push_back(decimal(v.x)); vs.push_back(decimal(v.y)); vs.push_back(decimal(v.z)); }
    for (auto& f : p.f) { PolygonVertexArray::PolygonFace pf; pf.nbVertices = static_cast<uint32>(f.size()); pf.indexBase = static_cast<uint32>(idx.size()); fs.push_back(pf); for (int i : f) idx.push_back(i); }
    PolygonVertexArray pva(static_cast<uint32>(p.v.size()), vs.data(), 3 * sizeof(decimal), idx.data(), sizeof(int), static_cast<uint32>(fs.size()), fs.data(), DP ? PolygonVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
    std::vector<Message> msg; ConvexMesh* m = pc.createConvexMesh(pva, msg); c.check(m != nullptr, "creation of a valid convex mesh failed: %s", msg.empty() ? "" : msg[0].text.c_str()); return m;
}
inline TriangleMesh* makeTriMesh(Case& c, PhysicsCommon& pc, const std::vector<V>& vs, const std::vector<std::array<int, 3>>& ts, const std::vector<V>* normals = nullptr) {
    std::vector<decimal> v, n; std::vector<int> idx; for (auto& p : vs) { v.push_back(decimal(p.x)); v.push_back(decimal(p.y)); v.push_back(decimal(p.z)); } for (auto& t : ts) for (int i : t) idx.push_back(i);
    std::vector<Message> msg; TriangleMesh* m; auto vt = DP ? TriangleVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE;
    if (normals) { for (auto& p : *normals) { n.push_back(decimal(p.x)); n.push_back(decimal(p.y)); n.push_back(decimal(p.z)); } TriangleVertexArray tva(static_cast<uint32>(vs.size()), v.data(), 3 * sizeof(decimal), n.data(), 3 * sizeof(decimal), static_cast<uint32>(ts.size()), idx.data(), 3 * sizeof(int), vt, DP ? TriangleVertexArray::NormalDataType::NORMAL_DOUBLE_TYPE : TriangleVertexArray::NormalDataType::NORMAL_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); m = pc.createTriangleMesh(tva, msg); }
    else { TriangleVertexArray tva(static_cast<uint32>(vs.size()), v.data(), 3 * sizeof(decimal), static_cast<uint32>(ts.size()), idx.data(), 3 * sizeof(int), vt, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); m = pc.createTriangleMesh(tva, msg); }
    c.check(m != nullptr, "creation of a valid triangle mesh failed: %s", msg.empty() ? "" : msg[0].text.c_str()); return m;
}
inline void triMeshData(Case& c, std::vector<V>& vs, std::vector<std::array<int, 3>>& ts) {
    int k = c.weighted({4, 3, 2, 1});
    if (k == 0) {           // terrain
        int nx = c.intIn(2, 5), nz = c.intIn(2, 5); double s = c.real(0.5, 2), h = c.chance(0.4) ? 0 : c.real(0, 1.5);
        for (int i = 0; i < nx; i++) for (int j = 0; j < nz; j++) vs.push_back({(i - (nx - 1) * 0.5) * s, h * c.real(-1, 1), (j - (nz - 1) * 0.5) * s});
        for (int i = 0; i + 1 < nx; i++) for (int j = 0; j + 1 < nz; j++) { int a = i * nz + j, b = a + 1, d = a + nz, e = d + 1; if (c.chance(0.5)) { ts.push_back({a, b, d}); ts.push_back({d, b, e}); } else { ts.push_back({a, b, e}); ts.push_back({a, e, d}); } }
    } else if (k == 1) { Poly p = polyhedron(c); vs = p.v; for (auto& f : p.f) for (size_t i = 1; i + 1 < f.size(); i++) ts.push_back({f[0], f[i], f[i + 1]}); }   // closed surface
    else if (k == 2) { int n = c.intIn(1, 8); for (int i = 0; i < n; i++) { V m = vec(c, 3); int b = static_cast<int>(vs.size()); for (int j = 0; j < 3; j++) vs.push_back(m + vec(c, 2)); ts.push_back({b, b + 1, b + 2}); } }   // soup
    else { vs = {{0, 0, 0}, {c.real(0.5, 3), 0, 0}, {0, c.real(-1, 1), c.real(0.5, 3)}}; ts = {{0, 1, 2}}; }
    if (c.chance(0.3)) for (auto& t : ts) std::swap(t[1], t[2]);
    for (auto& v : vs) if (!DP) v = rf(lib(v));
    for (auto& t : ts) { double area = ref::len(ref::cross(vs[t[1]] - vs[t[0]], vs[t[2]] - vs[t[0]])); if (area < 0.05) c.discard(); }
}
inline HeightField* makeHeightField(Case& c, PhysicsCommon& pc, int nc, int nr, const std::vector<double>& h) {
    std::vector<decimal> d(h.begin(), h.end()); std::vector<Message> msg; HeightField* f = pc.createHeightField(nc, nr, d.data(), DP ? HeightField::HeightDataType::HEIGHT_DOUBLE_TYPE : HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, msg);
    c.check(f != nullptr, "creation of a valid height field failed"); return f;
}
// grid points of a height field: centred on its bounding box
inline std::vector<std::array<V, 3>> heightTris(int nc, int nr, const std::vector<double>& h) {
    double mn = *std::min_element(h.begin(), h.end()), mx = *std::max_element(h.begin(), h.end()), off = -(mn + mx) / 2;
    auto at = [&](int i, int j) { return V{-(nc - 1) * 0.5 + i, h[j * nc + i] + off, -(nr - 1) * 0.5 + j}; };
    std::vector<std::array<V, 3>> t; for (int i = 0; i + 1 < nc; i++) for (int j = 0; j + 1 < nr; j++) { V p1 = at(i, j), p2 = at(i, j + 1), p3 = at(i + 1, j), p4 = at(i + 1, j + 1); t.push_back({p1, p2, p3}); t.push_back({p3, p2, p4}); }
    return t;
}
inline void heightData(Case& c, int& nc, int& nr, std::vector<double>& h) {
    nc = c.intIn(2, 7); nr = c.intIn(2, 7); double a = c.chance(0.2) ? 0 : c.real(0.1, 2); double slope = c.chance(0.3) ? c.real(-0.5, 0.5) : 0;
    for (int j = 0; j < nr; j++) for (int i = 0; i < nc; i++) { double v = a * c.real(-1, 1) + slope * i; h.push_back(DP ? v : static_cast<double>(static_cast<float>(v))); }
}
// mask: bit set of kinds
inline Shape boxShape(PhysicsCommon& pc, V h) { Shape s; s.kind = BOX; BoxShape* b = pc.createBoxShape(lib(h)); s.shape = b; s.convex = b; s.poly = ref::box(h); s.computeSize(); return s; }
inline Shape shape(Case& c, PhysicsCommon& pc, unsigned mask = 63) {
    std::vector<int> ks; for (int i = 0; i < 6; i++) if (mask & (1u << i)) ks.push_back(i);
    Shape s; s.kind = static_cast<Kind>(c.pick(ks));
    switch (s.kind) {
        case SPHERE: { decimal r = decimal(extent(c)); s.shape = pc.createSphereShape(r); s.poly = ref::point(r); c.note("sphere r=%.17g", (double)r); break; }
        case CAPSULE: { decimal r = decimal(extent(c)), h = decimal(extent(c) * 2); s.shape = pc.createCapsuleShape(r, h); s.poly = ref::segment(h, r); c.note("capsule r=%.17g h=%.17g", (double)r, (double)h); break; }
        case BOX: { Vector3 h = lib({extent(c), extent(c), extent(c)}); s.shape = pc.createBoxShape(h); s.poly = ref::box(rf(h)); c.note("box half (%.17g %.17g %.17g)", (double)h.x, (double)h.y, (double)h.z); break; }
        case CONVEX: { s.base = polyhedron(c); s.cmesh = makeConvexMesh(c, pc, s.base); Vector3 sc = lib(scaling(c)); s.shape = pc.createConvexMeshShape(s.cmesh, sc); s.setScale(rf(sc)); c.note("convex mesh %zu vertices %zu faces scale (%.17g %.17g %.17g)", s.base.v.size(), s.base.f.size(), (double)sc.x, (double)sc.y, (double)sc.z); if (c.verbose()) for (auto& v : s.base.v) c.note("  v %.17g %.17g %.17g", v.x, v.y, v.z); break; }
        case TRIMESH: { std::vector<V> vs; std::vector<std::array<int, 3>> ts; triMeshData(c, vs, ts); s.convex = false; s.tmesh = makeTriMesh(c, pc, vs, ts); for (auto& t : ts) s.baseTris.push_back({vs[t[0]], vs[t[1]], vs[t[2]]}); Vector3 sc = lib(scaling(c)); s.shape = pc.createConcaveMeshShape(s.tmesh, sc); s.setScale(rf(sc)); c.note("triangle mesh %zu triangles scale (%.17g %.17g %.17g)", ts.size(), (double)sc.x, (double)sc.y, (double)sc.z); if (c.verbose()) for (auto& t : s.baseTris) c.note("  t (%g %g %g) (%g %g %g) (%g %g %g)", t[0].x, t[0].y, t[0].z, t[1].x, t[1].y, t[1].z, t[2].x, t[2].y, t[2].z); break; }
        default: { int nc, nr; std::vector<double> h; heightData(c, nc, nr, h); s.convex = false; s.hf = makeHeightField(c, pc, nc, nr, h); s.baseTris = heightTris(nc, nr, h); Vector3 sc = lib(scaling(c)); s.shape = pc.createHeightFieldShape(s.hf, sc); s.setScale(rf(sc)); c.note("height field %dx%d scale (%.17g %.17g %.17g)", nc, nr, (double)sc.x, (double)sc.y, (double)sc.z); if (c.verbose()) { std::string l; for (double v : h) l += " " + std::to_string(v); c.note("  h%s", l.c_str()); } break; }
    }
    c.label(KIND[s.kind]); s.computeSize(); return s;
}
inline void noteX(Case& c, const char* what, const Transform& t) { c.note("%s p=(%.17g %.17g %.17g) q=(%.17g %.17g %.17g %.17g)", what, (double)t.getPosition().x, (double)t.getPosition().y, (double)t.getPosition().z, (double)t.getOrientation().x, (double)t.getOrientation().y, (double)t.getOrientation().z, (double)t.getOrientation().w); }
// change the parameters of the shape through its setters
inline void resize(Case& c, Shape& s) {
    switch (s.kind) {
        case SPHERE: { decimal r = decimal(extent(c)); static_cast<SphereShape*>(s.shape)->setRadius(r); s.poly = ref::point(r); c.note("resize sphere r=%.17g", (double)r); break; }
        case CAPSULE: { decimal r = decimal(extent(c)), h = decimal(extent(c) * 2); auto* p = static_cast<CapsuleShape*>(s.shape); p->setRadius(r); p->setHeight(h); s.poly = ref::segment(h, r); c.note("resize capsule r=%.17g h=%.17g", (double)r, (double)h); break; }
        case BOX: { Vector3 h = lib({extent(c), extent(c), extent(c)}); static_cast<BoxShape*>(s.shape)->setHalfExtents(h); s.poly = ref::box(rf(h)); c.note("resize box half (%.17g %.17g %.17g)", (double)h.x, (double)h.y, (double)h.z); break; }
        default: { Vector3 sc = lib(scaling(c)); if (s.kind == CONVEX) static_cast<ConvexMeshShape*>(s.shape)->setScale(sc); else static_cast<ConcaveShape*>(s.shape)->setScale(sc); s.setScale(rf(sc)); c.note("rescale (%.17g %.17g %.17g)", (double)sc.x, (double)sc.y, (double)sc.z); break; }
    }
    s.computeSize();
}
}
