#include "gen.h"
#include <cstring>
using namespace gen;
using VT = TriangleVertexArray::VertexDataType; using NT = TriangleVertexArray::NormalDataType; using IT = TriangleVertexArray::IndexDataType;
static const double EPS = DP ? 2.220446049250313e-16 : 1.1920929e-07;

struct Layout { std::vector<unsigned char> raw; uint32 stride = 0; bool dbl = false;
    static Layout make(Case& c, const std::vector<V>& p, bool dbl) { Layout l; l.dbl = dbl; size_t es = dbl ? 8 : 4; l.stride = static_cast<uint32>(3 * es + es * c.draw(3)); l.raw.assign(l.stride * std::max<size_t>(1, p.size()), 0xA5); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < 3; k++) { if (dbl) { double d = p[i][k]; std::memcpy(&l.raw[i * l.stride + k * 8], &d, 8); } else { float f = static_cast<float>(p[i][k]); std::memcpy(&l.raw[i * l.stride + k * 4], &f, 4); } } return l; } };
using Tri = std::array<uint32, 3>;
struct Source { std::vector<V> v, n; std::vector<Tri> t; bool normals = false; };
static TriangleMesh* create(Case& c, PhysicsCommon& pc, const Source& s, std::vector<Message>& msg) {
    Layout L = Layout::make(c, s.v, c.chance(0.5)), N = Layout::make(c, s.n, c.chance(0.5)); bool sh = c.chance(0.5); size_t is = sh ? 2 : 4; uint32 stride = static_cast<uint32>(is * (3 + c.draw(2))); std::vector<unsigned char> idx(stride * std::max<size_t>(1, s.t.size()), 0xEE);
    for (size_t i = 0; i < s.t.size(); i++) for (int k = 0; k < 3; k++) { if (sh) { unsigned short x = static_cast<unsigned short>(s.t[i][k]); std::memcpy(&idx[i * stride + k * 2], &x, 2); } else { int x = static_cast<int>(s.t[i][k]); std::memcpy(&idx[i * stride + k * 4], &x, 4); } }
    std::vector<unsigned char> c1 = L.raw, c2 = N.raw, c3 = idx; uint32 nv = static_cast<uint32>(s.v.size()), nt = static_cast<uint32>(s.t.size()); VT vt = L.dbl ? VT::VERTEX_DOUBLE_TYPE : VT::VERTEX_FLOAT_TYPE; NT nn = N.dbl ? NT::NORMAL_DOUBLE_TYPE : NT::NORMAL_FLOAT_TYPE; IT it = sh ? IT::INDEX_SHORT_TYPE : IT::INDEX_INTEGER_TYPE;
    TriangleMesh* m; if (s.normals) { TriangleVertexArray a(nv, L.raw.data(), L.stride, N.raw.data(), N.stride, nt, idx.data(), stride, vt, nn, it); m = pc.createTriangleMesh(a, msg); } else { TriangleVertexArray a(nv, L.raw.data(), L.stride, nt, idx.data(), stride, vt, it); m = pc.createTriangleMesh(a, msg); }
    c.check(c1 == L.raw && c2 == N.raw && c3 == idx, "the source arrays were changed"); std::fill(L.raw.begin(), L.raw.end(), 0x77); std::fill(N.raw.begin(), N.raw.end(), 0x77); std::fill(idx.begin(), idx.end(), 0x77); return m;   // the mesh must have its own copy
}
static std::string why(const std::vector<Message>& m) { std::string s; for (auto& q : m) s += q.text + "; "; return s; }
static bool same(const Vector3& a, V b) { return a.x == decimal(b.x) && a.y == decimal(b.y) && a.z == decimal(b.z); }

PBT_PROP(triangle_mesh, 30000, 1500000, "2-30 vertices and 0-30 triangles with unused vertices, repeated indices, coincident or collinear vertices, own or computed normals, out-of-range indices, in every layout; kept triangles, vertices, normals, bounds and messages against the rules, the same data in another layout, and the shape under two scales; non-trivial: a triangle was dropped, a vertex unused, or creation refused") {
    TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); Source s; bool lattice = c.chance(0.5); double sc = c.chance(0.3) ? c.logReal(0.01, 100) : 1; V o = c.chance(0.2) ? vec(c, 10) : V{0, 0, 0};
    int nv = c.chance(0.03) ? c.intIn(0, 2) : c.intIn(3, 30); for (int i = 0; i < nv; i++) { V p; if (i > 0 && c.chance(0.08)) p = s.v[c.draw(s.v.size() - 1)]; else { p = lattice ? V{double(c.intIn(-2, 2)), double(c.intIn(-2, 2)), double(c.intIn(-2, 2))} : vec(c, 3); p = sc * p + o; } for (int k = 0; k < 3; k++) p[k] = static_cast<float>(p[k]); s.v.push_back(p); }
    if (c.chance(0.02)) for (auto& p : s.v) p = V{0, 0, 0};
    int nt = nv == 0 ? 0 : c.chance(0.03) ? 0 : c.intIn(1, 30); bool fan = c.chance(0.5);
    for (int i = 0; i < nt; i++) { Tri t; if (fan && i > 0 && c.chance(0.8)) { Tri u = s.t[c.draw(s.t.size() - 1)]; int k = c.intIn(0, 2); t = {u[(k + 1) % 3], u[k], static_cast<uint32>(c.draw(nv - 1))}; } else for (int k = 0; k < 3; k++) t[k] = static_cast<uint32>(c.draw(nv - 1)); s.t.push_back(t); }
    bool outOfRange = nt > 0 && c.chance(0.08); if (outOfRange) s.t[c.draw(nt - 1)][c.draw(2)] = static_cast<uint32>(c.chance(0.5) ? nv : nv + c.draw(1000));
    s.normals = c.chance(0.4); if (s.normals) for (int i = 0; i < nv; i++) { V n = (c.chance(0.5) ? 1 : c.real(0.1, 3)) * dir(c); if (c.chance(0.01)) n = V{0, 0, 0}; for (int k = 0; k < 3; k++) n[k] = static_cast<float>(n[k]); s.n.push_back(n); }
    for (size_t i = 0; i < s.v.size(); i++) c.note("vertex %zu: %.9g %.9g %.9g", i, s.v[i].x, s.v[i].y, s.v[i].z); for (auto& t : s.t) c.note("triangle %u %u %u", t[0], t[1], t[2]); for (auto& n : s.n) c.note("normal %.9g %.9g %.9g", n.x, n.y, n.z);
    // expected mesh
    V mx; for (auto& p : s.v) for (int k = 0; k < 3; k++) mx[k] = std::max(mx[k], std::fabs(p[k])); double eps = 3 * (mx.x + mx.y + mx.z) * EPS; std::vector<Tri> kept; std::vector<char> used(nv, 0); bool zeroNormal = false; size_t dropped = 0;
    for (auto& t : s.t) { if (t[0] >= s.v.size() || t[1] >= s.v.size() || t[2] >= s.v.size()) continue; V a = s.v[t[0]], b = s.v[t[1]], d = s.v[t[2]]; double ar = ref::len(ref::cross(b - a, d - a)), e = std::min({ref::len(b - a), ref::len(d - a), ref::len(b - d)}), big = std::max({ref::len(b - a), ref::len(d - a), ref::len(b - d)});
        double noise = 8 * EPS * big * (ref::len(a) + ref::len(b) + ref::len(d));   // rounding of the cross product
        if (e == 0 || ar == 0) dropped++; else if (ar > 20 * (eps + noise) && e > 20 * eps && ar > (DP ? 1e-6 : 1e-2) * big * big) { kept.push_back(t); for (int k = 0; k < 3; k++) { used[t[k]] = 1; if (s.normals && s.n[t[k]].x == 0 && s.n[t[k]].y == 0 && s.n[t[k]].z == 0) zeroNormal = true; } } else c.discard(); }   // neither clearly flat nor clearly not
    // angle weighted normals
    std::vector<V> nrm(nv); if (s.normals) nrm = s.n; else { for (auto& t : kept) { V f = ref::cross(s.v[t[1]] - s.v[t[0]], s.v[t[2]] - s.v[t[0]]); f = (1 / ref::len(f)) * f; for (int k = 0; k < 3; k++) { V a = s.v[t[(k + 1) % 3]] - s.v[t[k]], b = s.v[t[(k + 2) % 3]] - s.v[t[k]]; nrm[t[k]] = nrm[t[k]] + std::atan2(ref::len(ref::cross(a, b)), ref::dot(a, b)) * f; } }
        for (int i = 0; i < nv; i++) if (used[i]) { double l = ref::len(nrm[i]); if (l < 0.05) c.discard(); nrm[i] = (1 / l) * nrm[i]; } }   // faces of opposite sides cancel: no normal is defined
    bool refuse = outOfRange || zeroNormal || kept.empty(); std::vector<Message> msg; TriangleMesh* m = create(c, *pc, s, msg); size_t errors = 0, warnings = 0; for (auto& q : msg) (q.type == Message::Type::Error ? errors : q.type == Message::Type::Warning ? warnings : errors)++;
    c.check(dropped == 0 || warnings > 0, "%zu degenerate triangles were dropped without a warning", dropped); c.check(dropped > 0 || warnings == 0, "there was a warning without a degenerate triangle: %s", why(msg).c_str());
    if (refuse) { c.check(!m, "a triangle mesh was created from invalid data (%s)", outOfRange ? "index out of range" : zeroNormal ? "zero normal" : "no triangle"); c.check(errors > 0, "creation failed without an error message"); c.nontrivial(); c.label("refused"); }
    else {
        c.check(m != nullptr, "valid data was refused: %s", why(msg).c_str()); c.check(errors == 0, "error message although the mesh was created: %s", why(msg).c_str()); std::vector<uint32> newIdx(nv); uint32 k = 0; std::vector<V> kv, kn; for (int i = 0; i < nv; i++) if (used[i]) { newIdx[i] = k++; kv.push_back(s.v[i]); kn.push_back(nrm[i]); }
        if (dropped || static_cast<int>(k) < nv) c.nontrivial(); c.check(m->getNbVertices() == k, "the mesh has %u vertices, %u are used", m->getNbVertices(), k); c.check(m->getNbTriangles() == kept.size(), "the mesh has %u triangles, expected %zu", m->getNbTriangles(), kept.size());
        for (uint32 i = 0; i < k; i++) { c.check(same(m->getVertex(i), kv[i]), "vertex %u is wrong", i); V n = rf(m->getVertexNormal(i)); if (s.normals) c.check(same(m->getVertexNormal(i), kn[i]), "the given normal of vertex %u was changed", i); else c.check(ref::len(n - kn[i]) < (DP ? 1e-6 : 2e-2), "normal of vertex %u is (%.9g %.9g %.9g), expected (%.9g %.9g %.9g)", i, n.x, n.y, n.z, kn[i].x, kn[i].y, kn[i].z); }
        V lo{1e300, 1e300, 1e300}, hi{-1e300, -1e300, -1e300}; for (auto& v : kv) for (int a = 0; a < 3; a++) { lo[a] = std::min(lo[a], v[a]); hi[a] = std::max(hi[a], v[a]); } c.check(same(m->getBounds().getMin(), lo) && same(m->getBounds().getMax(), hi), "bounds are %s, expected (%g %g %g) (%g %g %g)", (m->getBounds().getMin().to_string() + m->getBounds().getMax().to_string()).c_str(), lo.x, lo.y, lo.z, hi.x, hi.y, hi.z);
        for (uint32 t = 0; t < kept.size(); t++) { uint32 i[3]; m->getTriangleVerticesIndices(t, i[0], i[1], i[2]); Vector3 v[3], n[3]; m->getTriangleVertices(t, v[0], v[1], v[2]); m->getTriangleVerticesNormals(t, n[0], n[1], n[2]); for (int a = 0; a < 3; a++) { c.check(i[a] == newIdx[kept[t][a]], "triangle %u has vertex %u at %d, expected %u", t, i[a], a, newIdx[kept[t][a]]); c.check(v[a] == m->getVertex(i[a]) && n[a] == m->getVertexNormal(i[a]), "vertices or normals of triangle %u do not match its indices", t); } }
        std::vector<Message> m2; TriangleMesh* q = create(c, *pc, s, m2); c.check(q && q->getNbVertices() == k && q->getNbTriangles() == kept.size(), "the mesh depends on the layout of the source"); for (uint32 i = 0; i < k; i++) c.check(q->getVertex(i) == m->getVertex(i) && q->getVertexNormal(i) == m->getVertexNormal(i), "vertex %u depends on the layout of the source", i); for (uint32 t = 0; t < kept.size(); t++) { uint32 a[3], b[3]; m->getTriangleVerticesIndices(t, a[0], a[1], a[2]); q->getTriangleVerticesIndices(t, b[0], b[1], b[2]); c.check(a[0] == b[0] && a[1] == b[1] && a[2] == b[2], "triangle %u depends on the layout of the source", t); } if (c.chance(0.5)) pc->destroyTriangleMesh(q);
        // shape
        V S{1, 1, 1}; auto scale = [&] { return c.chance(0.4) ? V{1, 1, 1} * c.logReal(0.1, 10) : V{c.logReal(0.1, 10), c.logReal(0.1, 10), c.logReal(0.1, 10)}; }; if (c.chance(0.7)) S = rf(lib(scale())); ConcaveMeshShape* h = pc->createConcaveMeshShape(m, lib(S)); double tol = DP ? 1e-9 : 2e-4;
        for (int round = 0; round < 2; round++) {
            c.check(h->getNbVertices() == k && h->getNbTriangles() == kept.size(), "the shape has another number of vertices or triangles"); V sc2 = rf(h->getScale()); c.check(sc2.x == S.x && sc2.y == S.y && sc2.z == S.z, "scale is not kept");
            for (uint32 i = 0; i < k; i++) { V v = ref::mul(S, kv[i]), g = rf(h->getVertex(i)); c.check(ref::len(g - v) <= tol * ref::len(v), "vertex %u of the shape is (%g %g %g), expected (%g %g %g)", i, g.x, g.y, g.z, v.x, v.y, v.z); V b = rf(m->getVertexNormal(i)), n{b.x / S.x, b.y / S.y, b.z / S.z}; n = (1 / ref::len(n)) * n; V gn = rf(h->getVertexNormal(i)); c.check(ref::len(gn - n) <= tol * 10, "normal of vertex %u of the shape is (%g %g %g), expected (%g %g %g)", i, gn.x, gn.y, gn.z, n.x, n.y, n.z); }
            for (uint32 t = 0; t < kept.size(); t++) { uint32 i[3]; h->getTriangleVerticesIndices(t, i[0], i[1], i[2]); Vector3 v[3], n[3]; h->getTriangleVertices(t, v[0], v[1], v[2]); h->getTriangleVerticesNormals(t, n[0], n[1], n[2]); for (int a = 0; a < 3; a++) { c.check(i[a] == newIdx[kept[t][a]], "triangle %u of the shape has other indices", t); c.check(v[a] == h->getVertex(i[a]) && n[a] == h->getVertexNormal(i[a]), "vertices or normals of triangle %u of the shape do not match its indices", t); } }
            V l = rf(h->getLocalBounds().getMin()), u = rf(h->getLocalBounds().getMax()), el = ref::mul(S, lo), eu = ref::mul(S, hi); for (int a = 0; a < 3; a++) c.check(std::fabs(l[a] - el[a]) <= tol * (1e-9 + std::fabs(el[a])) && std::fabs(u[a] - eu[a]) <= tol * (1e-9 + std::fabs(eu[a])), "bounds of the shape are [%g, %g] on axis %d, expected [%g, %g]", l[a], u[a], a, el[a], eu[a]);
            S = rf(lib(scale())); h->setScale(lib(S));
        }
        pc->destroyConcaveMeshShape(h); if (c.chance(0.5)) pc->destroyTriangleMesh(m);
    }
    pc.reset(); base.verifyEmpty(c, "PhysicsCommon");
}

PBT_PROP(height_field, 20000, 600000, "grids of 0-14 columns and rows, heights as float, double or integer with a scale, slopes and large offsets; samples, extremes, bounds and shapes under two scales; grids below 2x2 refused; non-trivial: different numbers of rows and columns, or refused") {
    TrackingAllocator base(0xCD, 0); auto pc = std::make_unique<PhysicsCommon>(&base); bool bad = c.chance(0.1); int nc = bad ? c.intIn(0, 3) : c.intIn(2, 14), nr = bad ? (nc < 2 ? c.intIn(0, 3) : c.intIn(0, 1)) : c.intIn(2, 14); int type = c.intIn(0, 2); double hs = type == 2 ? double(decimal(c.chance(0.3) ? 1 : c.logReal(0.01, DP ? 10 : 2))) : 1;
    double amp = c.chance(0.1) ? 0 : c.logReal(0.01, DP ? 100 : 20), off = c.chance(0.5) ? 0 : c.real(-1, 1) * (DP ? 300 : 30);  /* in single precision an internal assertion limits heights to about 100 */ std::vector<double> h; std::vector<float> f; std::vector<int> in; std::vector<double> d; size_t n = static_cast<size_t>(nc) * nr;
    for (size_t i = 0; i < n; i++) { double v = off + amp * c.real(-1, 1); float x = static_cast<float>(v); int k = static_cast<int>(v); f.push_back(x); d.push_back(v); in.push_back(k); h.push_back(type == 0 ? double(x) : type == 1 ? double(decimal(v)) : double(decimal(k * decimal(hs)))); }
    c.note("%d columns, %d rows, type %d, integer scale %.9g", nc, nr, type, hs); std::vector<Message> msg; f.resize(n + 1); d.resize(n + 1); in.resize(n + 1); const void* src = type == 0 ? static_cast<const void*>(f.data()) : type == 1 ? static_cast<const void*>(d.data()) : static_cast<const void*>(in.data()); using HT = HeightField::HeightDataType; HT ht = type == 0 ? HT::HEIGHT_FLOAT_TYPE : type == 1 ? HT::HEIGHT_DOUBLE_TYPE : HT::HEIGHT_INT_TYPE;
    HeightField* m = pc->createHeightField(nc, nr, src, ht, msg, decimal(hs)); bool err = false; for (auto& q : msg) err |= q.type == Message::Type::Error;
    if (nc < 2 || nr < 2) { c.check(!m, "a height field with %d x %d samples was created", nc, nr); c.check(err, "creation failed without an error message"); c.nontrivial(); }
    else {
        c.check(m != nullptr && !err, "a valid height field was refused: %s", why(msg).c_str()); if (nc != nr) c.nontrivial(); std::fill(f.begin(), f.end(), 7e7f); std::fill(d.begin(), d.end(), 7e7); std::fill(in.begin(), in.end(), 70000000);
        double mn = *std::min_element(h.begin(), h.end()), mx = *std::max_element(h.begin(), h.end()), tol = (DP ? 1e-12 : 1e-6) * (1 + std::fabs(mn) + std::fabs(mx)); c.check(m->getNbColumns() == static_cast<uint32>(nc) && m->getNbRows() == static_cast<uint32>(nr), "the height field has %u columns and %u rows", m->getNbColumns(), m->getNbRows()); c.check(m->getMinHeight() == decimal(mn) && m->getMaxHeight() == decimal(mx), "heights are [%g, %g], expected [%g, %g]", double(m->getMinHeight()), double(m->getMaxHeight()), mn, mx); c.check(m->getHeightDataType() == ht && m->getIntegerHeightScale() == decimal(hs), "height type or scale is not kept");
        V lo{-(nc - 1) * 0.5, -(mx - mn) / 2, -(nr - 1) * 0.5}, hi{-lo.x, -lo.y, -lo.z}; auto near = [&](V a, V b, V s) { for (int k = 0; k < 3; k++) if (!(std::fabs(a[k] - b[k]) <= tol * s[k] + (DP ? 1e-12 : 1e-5) * std::fabs(b[k]))) return false; return true; };
        c.check(near(rf(m->getBounds().getMin()), lo, {1, 1, 1}) && near(rf(m->getBounds().getMax()), hi, {1, 1, 1}), "bounds of the height field are wrong: %s %s", m->getBounds().getMin().to_string().c_str(), m->getBounds().getMax().to_string().c_str()); auto at = [&](int i, int j) { return V{lo.x + i, h[static_cast<size_t>(j) * nc + i] - (mn + mx) / 2, lo.z + j}; };
        for (int i = 0; i < nc; i++) for (int j = 0; j < nr; j++) { c.check(m->getHeightAt(i, j) == decimal(h[static_cast<size_t>(j) * nc + i]), "height at column %d row %d is %g, expected %g", i, j, double(m->getHeightAt(i, j)), h[static_cast<size_t>(j) * nc + i]); V g = rf(m->getVertexAt(i, j)), e = at(i, j); c.check(near(g, e, {1, 1, 1}), "vertex at column %d row %d is (%g %g %g), expected (%g %g %g)", i, j, g.x, g.y, g.z, e.x, e.y, e.z); }
        V S{1, 1, 1}; auto scale = [&] { return V{c.logReal(0.1, 10), c.logReal(0.1, 10), c.logReal(0.1, 10)}; }; if (c.chance(0.7)) S = rf(lib(scale())); HeightFieldShape* s = pc->createHeightFieldShape(m, lib(S)); c.check(s->getHeightField() == m, "the shape has another height field");
        for (int round = 0; round < 2; round++) { V g = rf(s->getScale()); c.check(g.x == S.x && g.y == S.y && g.z == S.z, "scale is not kept"); c.check(near(rf(s->getLocalBounds().getMin()), ref::mul(S, lo), S) && near(rf(s->getLocalBounds().getMax()), ref::mul(S, hi), S), "bounds of the shape are wrong"); for (int i = 0; i < nc; i++) for (int j = 0; j < nr; j++) { V v = rf(s->getVertexAt(i, j)), e = ref::mul(S, at(i, j)); c.check(near(v, e, S), "vertex of the shape at column %d row %d is (%g %g %g), expected (%g %g %g)", i, j, v.x, v.y, v.z, e.x, e.y, e.z); } S = rf(lib(scale())); s->setScale(lib(S)); }
        pc->destroyHeightFieldShape(s); if (c.chance(0.5)) pc->destroyHeightField(m);
    }
    pc.reset(); base.verifyEmpty(c, "PhysicsCommon");
}
