#include "gen.h"
#include <cstring>
using namespace gen;

// array of points laid out as float or double with a stride
struct Layout { std::vector<unsigned char> raw; uint32 stride = 0; bool dbl = false;
    static Layout make(Case& c, const std::vector<V>& p, bool dbl) { Layout l; l.dbl = dbl; size_t es = dbl ? 8 : 4; l.stride = static_cast<uint32>(3 * es + es * c.draw(3)); l.raw.assign(l.stride * std::max<size_t>(1, p.size()), 0xA5); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < 3; k++) { if (dbl) { double d = p[i][k]; std::memcpy(&l.raw[i * l.stride + k * 8], &d, 8); } else { float f = static_cast<float>(p[i][k]); std::memcpy(&l.raw[i * l.stride + k * 4], &f, 4); } } return l; } };
static std::string why(const std::vector<Message>& m) { std::string s; for (auto& q : m) s += q.text + "; "; return s; }

// closed, consistent half-edge structure, faces planar and outward; returns the largest amount a point sticks out
static double verifyMesh(Case& c, const ConvexMesh* m, const std::vector<V>& inside, double size, double tol) {
    const HalfEdgeStructure& h = m->getHalfEdgeStructure(); uint32 nv = m->getNbVertices(), nf = m->getNbFaces(); c.check(h.getNbVertices() == nv && h.getNbFaces() == nf, "the half-edge structure has %u vertices and %u faces, the mesh %u and %u", h.getNbVertices(), h.getNbFaces(), nv, nf); c.check(nv >= 4 && nf >= 4, "the mesh has %u vertices and %u faces", nv, nf);
    std::map<std::pair<uint32, uint32>, uint32> half; std::vector<V> v; V sum, lo{1e300, 1e300, 1e300}, hi{-1e300, -1e300, -1e300}; for (uint32 i = 0; i < nv; i++) { v.push_back(rf(m->getVertex(i))); sum = sum + v[i]; for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], v[i][k]); hi[k] = std::max(hi[k], v[i][k]); } }
    std::vector<char> used(nv, 0); uint32 edges = 0;
    for (uint32 f = 0; f < nf; f++) { auto& fv = h.getFace(f).faceVertices; uint32 n = static_cast<uint32>(fv.size()); c.check(n >= 3, "face %u has %u vertices", f, n); for (uint32 i = 0; i < n; i++) { uint32 a = fv[i], b = fv[(i + 1) % n]; c.check(a < nv && a != b, "face %u has a wrong vertex index", f); c.check(half.emplace(std::make_pair(a, b), f).second, "directed edge %u-%u occurs twice", a, b); used[a] = 1; edges++; } }
    for (auto& e : half) c.check(half.count({e.first.second, e.first.first}), "the mesh is not closed: edge %u-%u of face %u has no twin", e.first.first, e.first.second, e.second);
    for (uint32 i = 0; i < nv; i++) c.check(used[i], "vertex %u belongs to no face", i); c.check(nv + nf == edges / 2 + 2, "Euler's formula does not hold: V=%u F=%u E=%u", nv, nf, edges / 2);
    c.check(h.getNbHalfEdges() == edges, "there are %u half edges, expected %u", h.getNbHalfEdges(), edges);
    for (uint32 e = 0; e < edges; e++) { auto& E = h.getHalfEdge(e); c.check(E.twinEdgeIndex < edges && E.nextEdgeIndex < edges && E.faceIndex < nf && E.vertexIndex < nv, "half edge %u has an index out of range", e); auto& T = h.getHalfEdge(E.twinEdgeIndex); auto& N = h.getHalfEdge(E.nextEdgeIndex); c.check(T.twinEdgeIndex == e && T.vertexIndex == N.vertexIndex && N.faceIndex == E.faceIndex, "half edge %u does not match its twin or next edge", e); auto it = half.find({E.vertexIndex, T.vertexIndex}); c.check(it != half.end() && it->second == E.faceIndex, "half edge %u is not an edge of its face", e); }
    for (uint32 i = 0; i < nv; i++) { auto& X = h.getVertex(i); c.check(X.vertexPointIndex == i && X.edgeIndex < edges && h.getHalfEdge(X.edgeIndex).vertexIndex == i, "vertex %u does not start its half edge", i); } for (uint32 f = 0; f < nf; f++) c.check(h.getHalfEdge(h.getFace(f).edgeIndex).faceIndex == f, "face %u does not own its half edge", f);
    double out = 0, vol = 0;
    for (uint32 f = 0; f < nf; f++) { auto& fv = h.getFace(f).faceVertices; V n = rf(m->getFaceNormal(f)); c.check(std::fabs(ref::len(n) - 1) < (DP ? 1e-9 : 1e-4), "normal of face %u has length %.9g", f, ref::len(n)); V N; for (size_t i = 1; i + 1 < fv.size(); i++) { V q = ref::cross(v[fv[i]] - v[fv[0]], v[fv[i + 1]] - v[fv[0]]); N = N + q; vol += ref::dot(v[fv[0]] - v[0], q); }
        double area = ref::len(N); if (area > tol * size) c.check(ref::dot(N, n) > (1 - 1e-3) * area || area * (DP ? 1 : 1e-3) < size * tol, "normal of face %u (%.6g %.6g %.6g) is not the outward normal of its vertices (%.6g %.6g %.6g), area %g", f, n.x, n.y, n.z, N.x / area, N.y / area, N.z / area, area);
        V ce; for (auto i : fv) ce = ce + v[i]; ce = (1.0 / static_cast<double>(fv.size())) * ce; for (auto& p : inside) out = std::max(out, ref::dot(n, p - ce)); for (auto& p : v) out = std::max(out, ref::dot(n, p - ce)); }
    c.check(out <= tol, "a point lies %.6g outside of the mesh (size %.6g, tolerance %.3g)", out, size, tol); vol /= 6; double gv = m->getVolume(); c.check(vol > 0, "the faces of the mesh do not have outward orientation");
    c.check(std::fabs(gv - vol) <= (DP ? 1e-6 : 1e-3) * vol + 20 * tol * size * size, "volume is %.9g, expected %.9g", gv, vol);
    V ce = rf(m->getCentroid()); c.check(ref::len(ce - (1.0 / nv) * sum) <= (DP ? 1e-9 : 1e-4) * (size + ref::len(ce)), "centroid is %.9g %.9g %.9g", ce.x, ce.y, ce.z); for (int k = 0; k < 3; k++) c.check(rf(m->getBounds().getMin())[k] == lo[k] && rf(m->getBounds().getMax())[k] == hi[k], "bounds of the mesh are [%g, %g] on axis %d, expected [%g, %g]", rf(m->getBounds().getMin())[k], rf(m->getBounds().getMax())[k], k, lo[k], hi[k]);
    return out;
}
static std::vector<V> cloud(Case& c) {
    std::vector<V> p; V rad{c.real(0.3, 2), c.real(0.3, 2), c.real(0.3, 2)}; int n = c.chance(0.1) ? c.intIn(20, 80) : c.intIn(4, 24);
    switch (c.weighted({3, 3, 2, 2, 2, 2, 2, 1, 1})) {
        case 0: for (int i = 0; i < n; i++) p.push_back(ref::mul(dir(c), rad)); break;
        case 1: for (int i = 0; i < n; i++) p.push_back(ref::mul({c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)}, rad)); break;
        case 2: { int k = c.intIn(1, 3); for (int i = 0; i < n; i++) p.push_back(ref::mul({double(c.intIn(-k, k)), double(c.intIn(-k, k)), double(c.intIn(-k, k))}, rad)); break; }   // lattice: many coplanar, duplicates
        case 3: { int m = c.intIn(3, 20); for (int i = 0; i < m; i++) { double a = 6.283185307179586 * i / m; for (double y : {-1.0, 1.0}) p.push_back(ref::mul({std::cos(a), y, std::sin(a)}, rad)); } break; }   // prism
        case 4: p = ref::box(rad).v; for (int i = 0; i < n; i++) { V q{c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)}; int k = c.intIn(0, 2); if (c.chance(0.7)) q[k] = c.chance(0.5) ? 1 : -1; if (c.chance(0.3)) q[(k + 1) % 3] = c.chance(0.5) ? 1 : -1; p.push_back(ref::mul(q, rad)); } break;   // box with points on its faces and edges
        case 5: { int rings = c.intIn(2, 6), m = c.intIn(3, 12); for (int r = 0; r <= rings; r++) { double t = 3.14159265358979 * r / rings; for (int i = 0; i < m; i++) { double a = 6.283185307179586 * i / m; p.push_back(ref::mul({std::sin(t) * std::cos(a), std::cos(t), std::sin(t) * std::sin(a)}, rad)); } } break; }   // UV sphere: coincident poles
        case 6: { int m = c.intIn(3, 16); for (int i = 0; i < m; i++) { double a = 6.283185307179586 * i / m; p.push_back(ref::mul({std::cos(a), 0, std::sin(a)}, rad)); } p.push_back({0, rad.y, 0}); if (c.chance(0.5)) p.push_back({c.real(-1, 1) * rad.x, -c.real(0, 1) * rad.y, 0}); break; }   // cone
        case 7: for (int i = 0; i < n; i++) { V q = ref::mul(dir(c), rad); p.push_back(q); int k = c.intIn(0, 3); for (int j = 0; j < k; j++) p.push_back(q + (c.chance(0.5) ? c.logReal(1e-9, 1e-6) : c.logReal(1e-3, 0.1)) * dir(c)); } break;   // clusters
        default: { Poly q = polyhedron(c); p = q.v; for (int i = 0; i < n; i++) { auto& f = q.f[c.draw(q.f.size() - 1)]; V s; double w = 0; for (int k : f) { double u = c.real(0, 1); s = s + u * q.v[k]; w += u; } if (w > 0.01) p.push_back((1 / w) * s); } }
    }
    if (c.chance(0.3)) { ref::M3 R = ref::mat(rf(orient(c))); for (auto& q : p) q = R * q; }
    if (c.chance(0.2)) { V s{c.logReal(0.05, 5), c.logReal(0.05, 5), c.logReal(0.05, 5)}; for (auto& q : p) q = ref::mul(q, s); }
    if (c.chance(0.2)) { double s = c.logReal(0.05, 100); for (auto& q : p) q = s * q; }
    if (c.chance(0.3)) { V o = vec(c, c.chance(0.5) ? 1 : 20); for (auto& q : p) q = q + o; }
    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[c.draw(i - 1)]);
    return p;
}
static bool equalMeshes(const ConvexMesh* a, const ConvexMesh* b) {
    if (a->getNbVertices() != b->getNbVertices() || a->getNbFaces() != b->getNbFaces()) return false; for (uint32 i = 0; i < a->getNbVertices(); i++) if (!(a->getVertex(i) == b->getVertex(i))) return false;
    for (uint32 f = 0; f < a->getNbFaces(); f++) { auto &x = a->getHalfEdgeStructure().getFace(f).faceVertices, &y = b->getHalfEdgeStructure().getFace(f).faceVertices; if (x.size() != y.size()) return false; for (uint32 i = 0; i < x.size(); i++) if (x[i] != y[i]) return false; if (!(a->getFaceNormal(f) == b->getFaceNormal(f))) return false; } return true;
}
// thickness of the cloud: smallest width over the axes of all point triples would be exact; the hull from the reference is used instead
PBT_PROP(hull_of_points, 40000, 800000, "4-80 points (random, lattice, prism, box with points on faces, sphere, cone, clusters, scaled, rotated, shifted) given as float or double with any stride; the mesh must be closed, outward, contain all points and have input points as vertices; non-trivial: the hull has at least 6 faces or leaves out a point") {
    TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); std::vector<V> p = cloud(c); for (auto& q : p) q = V{static_cast<float>(q.x), static_cast<float>(q.y), static_cast<float>(q.z)};
    V mean; for (auto& q : p) mean = mean + q; mean = (1.0 / p.size()) * mean; double size = 0, off = 0; for (auto& q : p) { size = std::max(size, ref::len(q - mean)); off = std::max(off, ref::len(q)); }
    // thickness: the width along the best plane through point triples, estimated by the volume of the largest tetrahedron
    size_t i1 = 0, i2 = 0, i3 = 0; double best = -1; for (size_t i = 0; i < p.size(); i++) if (ref::len(p[i] - p[0]) > best) best = ref::len(p[i] - p[0]), i1 = i; best = -1; for (size_t i = 0; i < p.size(); i++) { double d = ref::len(ref::cross(p[i] - p[0], p[i1] - p[0])); if (d > best) best = d, i2 = i; } double area = best; best = -1; V n = ref::cross(p[i1] - p[0], p[i2] - p[0]); for (size_t i = 0; i < p.size(); i++) { double d = std::fabs(ref::dot(p[i] - p[0], n)); if (d > best) best = d, i3 = i; } (void)i3;
    double thick = area > 0 ? best / ref::len(n) : 0; bool fat = size > 0 && thick > (DP ? 0.05 : 0.15) * size && area > (DP ? 0.05 : 0.15) * size * size && off < (DP ? 50 : 2.5) * size && size > (DP ? 0.05 : 0.3);
    if (!fat) c.discard();
    // points are either (nearly) equal or clearly apart: slivers between them are ill-conditioned
    { std::vector<V> q; double gap = (DP ? 2e-3 : 3e-2) * size; for (auto& a : p) { bool ok = true; for (auto& b : q) { V d = a - b; double m = std::max({std::fabs(d.x), std::fabs(d.y), std::fabs(d.z)}); if (m > 3e-6 && ref::len(d) < gap) ok = false; } if (ok) q.push_back(a); } p = q; }
    for (auto& q : p) c.note("point %.9g %.9g %.9g", q.x, q.y, q.z);
    Layout L = Layout::make(c, p, c.chance(0.5)); VertexArray va(L.raw.data(), L.stride, static_cast<uint32>(p.size()), L.dbl ? VertexArray::DataType::VERTEX_DOUBLE_TYPE : VertexArray::DataType::VERTEX_FLOAT_TYPE); std::vector<Message> msg; std::vector<unsigned char> copy = L.raw; ConvexMesh* m = pc->createConvexMesh(va, msg); c.check(copy == L.raw, "the source array was changed");
    if (!m) { c.check(!msg.empty(), "creation failed without a message"); c.check(!fat, "the hull of %zu well spread points was rejected: %s", p.size(), why(msg).c_str()); c.label("rejected"); }
    else if (fat || thick > 1e-3 * size) {
        double tol = (DP ? 1e-6 : 1e-4) * (size + off) + 2e-5; verifyMesh(c, m, p, size, tol); size_t nv = m->getNbVertices(); for (uint32 i = 0; i < nv; i++) { V q = rf(m->getVertex(i)); bool in = false; for (auto& r : p) if (r.x == q.x && r.y == q.y && r.z == q.z) in = true; c.check(in, "vertex %u (%.9g %.9g %.9g) is no input point", i, q.x, q.y, q.z); for (uint32 j = 0; j < i; j++) c.check(!(m->getVertex(i) == m->getVertex(j)), "vertex %u occurs twice", i); }
        if (m->getNbFaces() >= 6 || nv < p.size()) c.nontrivial();
        Layout K = Layout::make(c, p, !L.dbl); VertexArray vb(K.raw.data(), K.stride, static_cast<uint32>(p.size()), K.dbl ? VertexArray::DataType::VERTEX_DOUBLE_TYPE : VertexArray::DataType::VERTEX_FLOAT_TYPE); std::vector<Message> m2; ConvexMesh* k = pc->createConvexMesh(vb, m2); c.check(k && equalMeshes(m, k), "the mesh depends on the data type or stride of the source array"); pc->destroyConvexMesh(k);
    } else c.label("thin");
    if (m) pc->destroyConvexMesh(m); pc.reset(); base.verifyEmpty(c, "PhysicsCommon");
}

PBT_PROP(degenerate_points, 10000, 300000, "0-12 points that are all equal, on one line or in one axis plane, with duplicates: must be rejected with a message, without a crash; non-trivial: at least four points") {
    TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); std::vector<V> p; int n = c.intIn(0, 12), kind = c.intIn(0, 3); V a = vec(c, 3), d = dir(c); int ax = c.intIn(0, 2); double h = c.chance(0.5) ? 0 : c.real(-2, 2);
    for (int i = 0; i < n; i++) { V q = kind == 0 ? a : kind == 1 ? V{0, 0, 0} : kind == 2 ? V{c.real(-2, 2), c.real(-2, 2), c.real(-2, 2)} : V{double(c.intIn(-2, 2)), double(c.intIn(-2, 2)), double(c.intIn(-2, 2))}; if (kind == 1) { double t = double(c.intIn(-4, 4)); q = t * V{double(ax == 0), double(ax == 1), double(ax == 2)}; q[(ax + 1) % 3] = h; } if (kind >= 2) q[ax] = h; p.push_back(V{static_cast<float>(q.x), static_cast<float>(q.y), static_cast<float>(q.z)}); } (void)d;
    bool few = kind == 2 && n < 4; (void)few; Layout L = Layout::make(c, p, c.chance(0.5)); VertexArray va(L.raw.data(), L.stride, static_cast<uint32>(p.size()), L.dbl ? VertexArray::DataType::VERTEX_DOUBLE_TYPE : VertexArray::DataType::VERTEX_FLOAT_TYPE); std::vector<Message> msg; for (auto& q : p) c.note("point %.9g %.9g %.9g", q.x, q.y, q.z);
    ConvexMesh* m = pc->createConvexMesh(va, msg); c.check(!m, "a convex mesh was created from flat points"); c.check(!msg.empty(), "creation failed without a message"); if (n >= 4) c.nontrivial(); pc.reset(); base.verifyEmpty(c, "PhysicsCommon");
}

PBT_PROP(mesh_from_faces, 30000, 600000, "convex polyhedra given as faces, with every vertex and index type, strides, gaps in the index array and face order: vertices and faces are kept, all derived data follow; or made invalid (short face, index out of range, missing or doubled face, doubled vertex, zero area, nothing): rejected with a message; non-trivial: a face with more than three vertices, or invalid") {
    TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); Poly p = polyhedron(c); std::vector<V> v = p.v; auto f = p.f; if (c.chance(0.3)) { V o = vec(c, 5); for (auto& q : v) q = q + o; } for (auto& q : v) q = V{static_cast<float>(q.x), static_cast<float>(q.y), static_cast<float>(q.z)};
    for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[c.draw(i - 1)]); for (auto& x : f) std::rotate(x.begin(), x.begin() + c.draw(x.size() - 1), x.end());
    int bad = c.chance(0.3) ? c.intIn(1, 7) : 0; static const char* B[] = {"valid", "face with two vertices", "index out of range", "missing face", "doubled face", "doubled vertex", "zero area", "nothing"}; c.label(B[bad]);
    if (bad == 1) { auto& x = f[c.draw(f.size() - 1)]; x.resize(2); } else if (bad == 2) { auto& x = f[c.draw(f.size() - 1)]; x[c.draw(x.size() - 1)] = static_cast<int>(v.size() + c.draw(5)); } else if (bad == 3) f.erase(f.begin() + c.draw(f.size() - 1)); else if (bad == 4) f.push_back(f[c.draw(f.size() - 1)]); else if (bad == 5) { auto& x = f[c.draw(f.size() - 1)]; int i = static_cast<int>(c.draw(x.size() - 1)); v.push_back(v[x[i]]); x[i] = static_cast<int>(v.size()) - 1; } else if (bad == 6) { for (auto& q : v) q = v[0]; } else if (bad == 7) { bool k = c.chance(0.5); if (k || c.chance(0.5)) v.clear(); if (!k || c.chance(0.5)) f.clear(); }
    bool sh = c.chance(0.5); size_t is = sh ? 2 : 4; uint32 istride = static_cast<uint32>(is * (1 + c.draw(2))); std::vector<unsigned char> idx; std::vector<PolygonVertexArray::PolygonFace> fs; auto put = [&](int i) { size_t at = idx.size(); idx.resize(at + istride, 0xEE); if (sh) { unsigned short s = static_cast<unsigned short>(i); std::memcpy(&idx[at], &s, 2); } else { int s = i; std::memcpy(&idx[at], &s, 4); } };
    for (auto& x : f) { int gap = static_cast<int>(c.draw(2)); for (int i = 0; i < gap; i++) put(0); PolygonVertexArray::PolygonFace pf; pf.nbVertices = static_cast<uint32>(x.size()); pf.indexBase = static_cast<uint32>(idx.size() / istride); fs.push_back(pf); for (int i : x) put(i); } idx.resize(idx.size() + 4); if (fs.empty()) fs.resize(1);
    Layout L = Layout::make(c, v, c.chance(0.5)); PolygonVertexArray pva(static_cast<uint32>(v.size()), L.raw.data(), L.stride, idx.data(), istride, static_cast<uint32>(f.size()), fs.data(), L.dbl ? PolygonVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, sh ? PolygonVertexArray::IndexDataType::INDEX_SHORT_TYPE : PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
    std::vector<Message> msg; ConvexMesh* m = pc->createConvexMesh(pva, msg);
    if (bad) { c.check(!m, "a convex mesh was created from invalid faces (%s)", B[bad]); c.check(!msg.empty(), "creation failed without a message (%s)", B[bad]); c.nontrivial(); }
    else {
        c.check(m != nullptr, "a valid polyhedron was rejected: %s", why(msg).c_str()); c.check(m->getNbVertices() == v.size() && m->getNbFaces() == f.size(), "the mesh has %u vertices and %u faces, given %zu and %zu", m->getNbVertices(), m->getNbFaces(), v.size(), f.size());
        for (uint32 i = 0; i < v.size(); i++) { V q = rf(m->getVertex(i)); c.check(q.x == v[i].x && q.y == v[i].y && q.z == v[i].z, "vertex %u was changed", i); } for (uint32 i = 0; i < f.size(); i++) { auto& x = m->getHalfEdgeStructure().getFace(i).faceVertices; c.check(x.size() == f[i].size(), "face %u has another number of vertices", i); for (uint32 k = 0; k < x.size(); k++) c.check(x[k] == static_cast<uint32>(f[i][k]), "face %u has another vertex at %u", i, k); if (x.size() > 3) c.nontrivial(); }
        double size = p.size(), off = 0; for (auto& q : v) off = std::max(off, ref::len(q)); verifyMesh(c, m, v, size, (DP ? 1e-6 : 2e-5) * (size + off)); pc->destroyConvexMesh(m);
    }
    pc.reset(); base.verifyEmpty(c, "PhysicsCommon");
}
