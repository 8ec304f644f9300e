// H03: editing sessions on a CAD sketch against a reference model, with meshing, picking, restarts and failing memory.
#include "geomgen.h"
#include "seams.h"
#include <memory>
#include <new>
#include <iostream>
#include "delfem2/cad2.h"
#include "delfem2/cad2_mesher.h"
using namespace delfem2;
namespace {
typedef std::array<double, 2> P2;
const unsigned N = UINT_MAX;
P2 operator+(P2 a, P2 b) { return {a[0] + b[0], a[1] + b[1]}; }
P2 operator-(P2 a, P2 b) { return {a[0] - b[0], a[1] - b[1]}; }
P2 mul(P2 a, double s) { return {a[0] * s, a[1] * s}; }
P2 lerp(P2 a, P2 b, double t) { return {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])}; }
double dist(P2 a, P2 b) { return std::hypot(a[0] - b[0], a[1] - b[1]); }
double crs(P2 a, P2 b) { return a[0] * b[1] - a[1] * b[0]; }
double dseg(P2 q, P2 a, P2 b) { double l = dist(a, b); l *= l; double t = l > 0 ? ((q[0] - a[0]) * (b[0] - a[0]) + (q[1] - a[1]) * (b[1] - a[1])) / l : 0; return dist(q, lerp(a, b, t < 0 ? 0 : t > 1 ? 1 : t)); }
struct RE { unsigned a, b; int type; std::array<double, 4> p; };       // handles relative to the end points
struct RL { unsigned iso; std::vector<unsigned> e; };
struct RF { std::vector<RL> l; };
struct Ref { std::vector<P2> v; std::vector<RE> e; std::vector<RF> f;
  P2 at(const RE &k, double t) const { P2 p0 = v[k.a], p1 = v[k.b]; if (k.type == 0) return lerp(p0, p1, t); P2 c0 = p0 + P2{k.p[0], k.p[1]};
    if (k.type == 2) return lerp(lerp(p0, c0, t), lerp(c0, p1, t), t);
    P2 c1 = p1 + P2{k.p[2], k.p[3]}, m = lerp(c0, c1, t); return lerp(lerp(lerp(p0, c0, t), m, t), lerp(m, lerp(c1, p1, t), t), t); }
  double area(const RE &k) const { // of the fan from the origin, by exact quadrature of x dy - y dx
    static const double X[4] = {.069431844202973712, .330009478207571868, .669990521792428132, .930568155797026288}, W[4] = {.173927422568726929, .326072577431273071, .326072577431273071, .173927422568726929};
    double s = 0; for (int q = 0; q < 4; ++q) { double t = X[q]; P2 p0 = v[k.a], p1 = v[k.b], x = at(k, t), d; if (k.type == 0) d = p1 - p0; else { P2 c0 = p0 + P2{k.p[0], k.p[1]}; if (k.type == 2) d = mul(lerp(c0 - p0, p1 - c0, t), 2); else { P2 c1 = p1 + P2{k.p[2], k.p[3]}; d = mul(lerp(lerp(c0 - p0, c1 - c0, t), lerp(c1 - c0, p1 - c1, t), t), 3); } } s += W[q] * crs(x, d); } return s / 2; }
  double length(const RE &k) const { double l = 0; const int n = 400; P2 o = v[k.a]; for (int i = 1; i <= n; ++i) { P2 p = at(k, i / (double) n); l += dist(o, p); o = p; } return l; }
  double distance(const RE &k, P2 q, int n) const { double d = 1e300; P2 o = v[k.a]; for (int i = 1; i <= n; ++i) { P2 p = at(k, i / (double) n); d = std::min(d, dseg(q, o, p)); o = p; } return d; } };
struct Session { CCad2D cad; Cad2_Ui ui; CMesher_Cad2D mesher; CMeshDynTri2D dm; };

void check(const char *after, const CCad2D &c, const Ref &r) {
  if (c.aVtx.size() != r.v.size() || c.topo.num_vertex != r.v.size() || c.nVtx() != r.v.size()) sim::violation("vertices-differ", "after %s: %zu vertices (topology: %u), the edits give %zu", after, c.aVtx.size(), c.topo.num_vertex, r.v.size());
  if (c.aEdge.size() != r.e.size() || c.topo.edges.size() != r.e.size() || c.nEdge() != r.e.size()) sim::violation("edges-differ", "after %s: %zu edges (topology: %zu), the edits give %zu", after, c.aEdge.size(), c.topo.edges.size(), r.e.size());
  for (size_t i = 0; i < r.v.size(); ++i) if (c.aVtx[i].pos.x != r.v[i][0] || c.aVtx[i].pos.y != r.v[i][1]) sim::violation("position-differs", "after %s: vertex %zu is at (%.9g %.9g), not (%.9g %.9g)", after, i, c.aVtx[i].pos.x, c.aVtx[i].pos.y, r.v[i][0], r.v[i][1]);
  for (size_t i = 0; i < r.e.size(); ++i) { const RE &k = r.e[i]; const CCad2D_EdgeGeo &g = c.aEdge[i];
    if (c.topo.edges[i].iv0 != k.a || c.topo.edges[i].iv1 != k.b) sim::violation("edges-differ", "after %s: edge %zu runs from %u to %u, not from %u to %u", after, i, c.topo.edges[i].iv0, c.topo.edges[i].iv1, k.a, k.b);
    if (g.p0.x != r.v[k.a][0] || g.p0.y != r.v[k.a][1] || g.p1.x != r.v[k.b][0] || g.p1.y != r.v[k.b][1]) sim::violation("edge-off-vertices", "after %s: edge %zu does not start and end at its vertices %u and %u", after, i, k.a, k.b);
    size_t np = k.type == 0 ? 0 : k.type == 1 ? 4 : 2; if ((int) g.type_edge != k.type || g.param.size() != np) sim::violation("curve-differs", "after %s: edge %zu is of kind %d with %zu parameters, not of kind %d", after, i, (int) g.type_edge, g.param.size(), k.type);
    for (size_t j = 0; j < np; ++j) if (std::fabs(g.param[j] - k.p[j]) > 1e-12 * (1 + std::fabs(k.p[j]))) sim::violation("handle-differs", "after %s: handle coordinate %zu of edge %zu is %.9g, not %.9g", after, j, i, g.param[j], k.p[j]); }
  size_t nl = 0; if (c.topo.faces.size() != r.f.size()) sim::violation("faces-differ", "after %s: %zu faces, the edits give %zu", after, c.topo.faces.size(), r.f.size());
  std::set<unsigned> used; for (size_t f = 0; f < r.f.size(); ++f) { auto &il = c.topo.faces[f].aIL; if (il.size() != r.f[f].l.size()) sim::violation("loops-differ", "after %s: face %zu has %zu loops, not %zu", after, f, il.size(), r.f[f].l.size());
    for (size_t k = 0; k < il.size(); ++k) { nl++; if (il[k] >= c.topo.loops.size() || !used.insert(il[k]).second) sim::violation("loops-differ", "after %s: loop %zu of face %zu is %u", after, k, f, il[k]); auto &l = c.topo.loops[il[k]]; const RL &m = r.f[f].l[k]; bool ok = l.iv == m.iso && l.aIE.size() == m.e.size(); for (size_t j = 0; ok && j < m.e.size(); ++j) ok = l.aIE[j].first == m.e[j] && l.aIE[j].second;
      if (!ok) sim::violation("loops-differ", "after %s: loop %zu of face %zu is not the chain of edges the edits give", after, k, f); } }
  if (nl != c.topo.loops.size()) sim::violation("loops-differ", "after %s: %zu loops, the faces have %zu", after, c.topo.loops.size(), nl); }

void lookups(const CCad2D &c, const Ref &r) {
  gen::Rng g = gen::rng(); if (r.f.empty()) return;
  { unsigned v = g.n((uint32_t) r.v.size()); std::vector<unsigned> a, w; { sim::Lib l; a = c.topo.FindFaceIndexes_IncludeVeretx(v); } for (unsigned f = 0; f < r.f.size(); ++f) { bool in = false; for (auto &l : r.f[f].l) { in = in || l.iso == v; for (unsigned e : l.e) in = in || r.e[e].a == v; } if (in) w.push_back(f); } if (a != w) sim::violation("face-of-vertex", "vertex %u: %zu faces reported, it belongs to %zu", v, a.size(), w.size()); }
  if (r.e.size()) { unsigned e = g.n((uint32_t) r.e.size()); std::vector<unsigned> a, w; { sim::Lib l; a = c.topo.FindFaceIndexes_IncludeEdge(e); } for (unsigned f = 0; f < r.f.size(); ++f) for (auto &l : r.f[f].l) for (unsigned x : l.e) if (x == e) w.push_back(f); if (a != w) sim::violation("face-of-edge", "edge %u: %zu faces reported, it belongs to %zu", e, a.size(), w.size());
    auto q = c.topo.VertexIndexs_EdgeEndPoints(e); if (q.first != r.e[e].a || q.second != r.e[e].b) sim::violation("ends-of-edge", "edge %u: ends %u %u reported, they are %u %u", e, q.first, q.second, r.e[e].a, r.e[e].b); }
  unsigned f = g.n((uint32_t) r.f.size()); std::vector<unsigned> vs, we, ee; { sim::Lib l; vs = c.topo.VertexIndexs_Face(f); for (auto &x : c.topo.EdgeIndexes_Face(f)) ee.push_back(x.first); } std::set<unsigned> wv; for (auto &l : r.f[f].l) { if (l.iso != N) wv.insert(l.iso); for (unsigned e : l.e) { wv.insert(r.e[e].a); we.push_back(e); } }
  if (std::set<unsigned>(vs.begin(), vs.end()) != wv || vs.size() != wv.size()) sim::violation("vertices-of-face", "face %u: %zu vertices reported, it has %zu", f, vs.size(), wv.size()); if (ee != we) sim::violation("edges-of-face", "face %u: %zu edges reported, it has %zu", f, ee.size(), we.size());
  for (auto &l : c.topo.loops) { if (l.iv != N) continue; std::vector<unsigned> a = l.GetArray_IdVertex(c.topo.edges); if (a.size() != l.aIE.size()) sim::violation("vertices-of-loop", "%zu vertices for %zu edges", a.size(), l.aIE.size()); for (size_t k = 0; k < a.size(); ++k) if (a[k] != r.e[l.aIE[k].first].a) sim::violation("vertices-of-loop", "vertex %zu of a loop is %u, its edge starts at %u", k, a[k], r.e[l.aIE[k].first].a); if (l.IsIncludeEdge((unsigned) r.e.size())) sim::violation("edge-of-loop", "a loop claims an edge that does not exist"); } }

void geometry(const CCad2D &c, const Ref &r) {   // every answer about a curve against the reference curve
  gen::Rng g = gen::rng(); if (r.e.empty()) return; unsigned i = g.n((uint32_t) r.e.size()); const RE &k = r.e[i]; const CCad2D_EdgeGeo &e = c.aEdge[i]; double sc = 10; for (auto &p : r.v) sc = std::max(sc, std::fabs(p[0]) + std::fabs(p[1]));
  { unsigned n = 1 + g.n(12); std::vector<double> m; { sim::Lib l; m = e.GenMesh(n); } if (m.size() != (n - 1) * 3) sim::violation("curve-samples", "%zu numbers for %u divisions", m.size(), n); for (unsigned j = 1; j < n; ++j) { P2 p = r.at(k, j / (double) n); double *q = &m[(j - 1) * 3]; if (std::fabs(q[2] - j / (double) n) > 1e-12 || dist({q[0], q[1]}, p) > 1e-11 * sc) sim::violation("curve-samples", "sample %u of %u of edge %u is (%.9g %.9g) at %.9g, not (%.9g %.9g)", j, n, i, q[0], q[1], q[2], p[0], p[1]); } }
  { double a = e.ArcLength(), w = r.length(k), tol = k.type == 1 ? .35 : k.type == 2 ? 2e-4 : 1e-12; if (!(std::fabs(a - w) <= tol * (w + 1e-3))) sim::violation("curve-length", "edge %u of kind %d: length %.9g, not %.9g", i, k.type, a, w); }
  { double s = 0, w = 0; unsigned f = g.n((uint32_t) r.f.size()); std::vector<CCad2D_EdgeGeo> lp; for (auto &l : r.f[f].l) for (unsigned x : l.e) { lp.push_back(c.aEdge[x]); w += r.area(r.e[x]); }
    { sim::Lib l; s = AreaLoop(lp); } if (!(std::fabs(s - w) <= 1e-10 * sc * sc)) sim::violation("face-area", "area of face %u is %.12g, not %.12g", f, s, w);
    std::vector<CCad2D_EdgeGeo> in, back, rz; { sim::Lib l; in = InvertLoop(lp); s = AreaLoop(in); back = InvertLoop(in); } if (!(std::fabs(s + w) <= 1e-10 * sc * sc)) sim::violation("inverted-area", "area of the inverted face %u is %.12g, not %.12g", f, s, -w);
    size_t ne = lp.size(); if (in.size() != ne || back.size() != ne) sim::violation("inverted-loop", "%zu edges become %zu", ne, in.size()); unsigned n = 2 + g.n(6);
    for (size_t x = 0; x < ne; ++x) { std::vector<double> a = lp[x].GenMesh(n), b = in[ne - 1 - x].GenMesh(n), d = back[x].GenMesh(n); for (unsigned j = 0; j + 1 < n; ++j) { double *p = &a[j * 3], *q = &b[(n - 2 - j) * 3], *z = &d[j * 3]; if (std::hypot(p[0] - q[0], p[1] - q[1]) > 1e-11 * sc || std::hypot(p[0] - z[0], p[1] - z[1]) > 1e-11 * sc) sim::violation("inverted-loop", "edge %zu of kind %d does not run along the same curve after inversion", x, (int) lp[x].type_edge); } }
    std::vector<CCad2D_EdgeGeo> wz; std::vector<size_t> keep; for (size_t x = 0; x < ne; ++x) { if (g.n(3) == 0) { CCad2D_EdgeGeo z; z.p0 = z.p1 = lp[x].p0; wz.push_back(z); } wz.push_back(lp[x]); } { sim::Lib l; rz = RemoveEdgeWithZeroLength(wz); } if (rz.size() != ne) sim::violation("zero-edges", "%zu edges without zero-length ones, %zu were there", rz.size(), ne);
    for (size_t x = 0; x < ne; ++x) if (rz[x].p0.x != lp[x].p0.x || rz[x].p1.y != lp[x].p1.y || rz[x].type_edge != lp[x].type_edge || rz[x].param != lp[x].param) sim::violation("zero-edges", "edge %zu changed when zero-length edges were removed", x); }
  { P2 lo = {1e300, 1e300}, hi = {-1e300, -1e300}; for (auto &x : r.e) for (unsigned v : {x.a, x.b}) for (int d = 0; d < 2; ++d) { lo[d] = std::min(lo[d], r.v[v][d]); hi[d] = std::max(hi[d], r.v[v][d]); } auto b = c.BB(); if (b.x_min != lo[0] || b.y_min != lo[1] || b.x_max != hi[0] || b.y_max != hi[1]) sim::violation("box", "box x %.9g..%.9g y %.9g..%.9g, the vertices span %.9g..%.9g %.9g..%.9g", b.x_min, b.x_max, b.y_min, b.y_max, lo[0], hi[0], lo[1], hi[1]); }
  { double A[4] = {g.r(-1, 1), g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)}; CCad2D_EdgeGeo t = e; t.Transform(A); std::vector<double> a = t.GenMesh(5); for (int j = 1; j < 5; ++j) { P2 p = r.at(k, j / 5.), w = {A[0] * p[0] + A[1] * p[1], A[2] * p[0] + A[3] * p[1]}; if (dist({a[j * 3 - 3], a[j * 3 - 2]}, w) > 1e-11 * sc) sim::violation("transform", "a transformed edge of kind %d leaves the transformed curve", k.type); } }
  { P2 q = {r.v[k.a][0] + g.r(-1, 1), r.v[k.a][1] + g.r(-1, 1)}; double d = e.Distance(q[0], q[1]), w = r.distance(k, q, 400), up = 1e300; for (int j = 0; j <= 5; ++j) up = std::min(up, dist(q, r.at(k, j / 5.))); if (k.type == 0) up = w; if (!(d >= w - 1e-4) || !(d <= up + 1e-9 * sc)) sim::violation("curve-distance", "distance %.9g to edge %u of kind %d, the curve comes as close as %.9g", d, i, k.type, w); } }

// can this face be meshed: a simple loop, counter-clockwise, with its isolated vertices well inside
bool meshable(const Ref &r, const RF &f, const std::vector<unsigned> &nd) {
  std::vector<P2> b; for (unsigned e : f.l[0].e) for (unsigned j = 0; j < nd[e]; ++j) b.push_back(r.at(r.e[e], j / (double) nd[e])); size_t n = b.size(); if (n < 3) return false;
  double a = 0; for (size_t i = 0; i < n; ++i) a += crs(b[i], b[(i + 1) % n]); if (a < .1) return false;
  for (size_t i = 0; i < n; ++i) { double l = dist(b[i], b[(i + 1) % n]); if (l < .02) return false; P2 u = b[(i + 1) % n] - b[i], w = b[(i + n - 1) % n] - b[i]; double an = std::atan2(crs(u, w), u[0] * w[0] + u[1] * w[1]); if (std::fabs(an) < .15) return false; }
  auto cross = [&](P2 p, P2 q, P2 s, P2 t) { return (crs(q - p, s - p) > 0) != (crs(q - p, t - p) > 0) && (crs(t - s, p - s) > 0) != (crs(t - s, q - s) > 0); };
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) { size_t i1 = (i + 1) % n, j1 = (j + 1) % n; if (j == i1 || j1 == i) continue; if (cross(b[i], b[i1], b[j], b[j1])) return false; if (std::min({dseg(b[i], b[j], b[j1]), dseg(b[i1], b[j], b[j1]), dseg(b[j], b[i], b[i1]), dseg(b[j1], b[i], b[i1])}) < .02) return false; }
  std::vector<P2> is; for (auto &l : f.l) if (l.iso != N) is.push_back(r.v[l.iso]);
  for (size_t i = 0; i < is.size(); ++i) { double w = 0; for (size_t j = 0; j < n; ++j) { P2 u = b[j] - is[i], v = b[(j + 1) % n] - is[i]; w += std::atan2(crs(u, v), u[0] * v[0] + u[1] * v[1]); if (dseg(is[i], b[j], b[(j + 1) % n]) < .03) return false; } if (w < 3) return false; for (size_t j = 0; j < i; ++j) if (dist(is[i], is[j]) < .03) return false; }
  return true; }

void mesh(Session &s, const Ref &r) {
  gen::Rng g = gen::rng(); if (r.f.empty()) return; CMesher_Cad2D &m = s.mesher; double len; switch (sim::choose(4)) { case 0: len = 0; break; case 1: len = -1; break; default: len = g.r(.15, .6); }
  m.edge_length = len; m.mapIdEd_NDiv.clear(); if (len > 0 && g.n(2)) for (int k = 0; k < 2; ++k) m.mapIdEd_NDiv[g.n((uint32_t) r.e.size())] = 1 + g.n(6);
  std::vector<unsigned> nd; for (unsigned e = 0; e < r.e.size(); ++e) nd.push_back(len > 0 ? (m.mapIdEd_NDiv.count(e) ? m.mapIdEd_NDiv[e] : (unsigned) (s.cad.aEdge[e].ArcLength() / len + 1)) : 20);
  for (auto &f : r.f) if (!meshable(r, f, nd)) { sim::probe("not meshable"); return; }
  int k = sim::chance(1, 5) ? 1 + (int) sim::choose(80) : 0; bool threw = false; sim::step_budget(60000000);
  { sim::Lib l; if (k) sim::alloc_fail_at(k); try { m.Meshing(s.dm, s.cad); } catch (std::bad_alloc &) { threw = true; } bool hit = k && sim::alloc_failed(); sim::alloc_fail_at(0); if (hit) { sim::fault("allocation failure"); if (!threw) sim::violation("lost-error", "meshing swallowed a failed allocation"); } if (threw) m.Meshing(s.dm, s.cad); }
  const CMeshDynTri2D &d = s.dm; size_t nv = r.v.size(), ne = r.e.size(), np = d.aVec2.size(), nt = d.aETri.size(); auto P = [&](unsigned i) { return P2{d.aVec2[i].x, d.aVec2[i].y}; };
  if (m.aFlgPnt.size() != np || d.aEPo.size() != np || m.aFlgTri.size() != nt || m.edge_point.size() != ne || m.nvtx != nv || m.nedge != ne || m.nface != r.f.size()) sim::violation("mesh-tables", "%zu points and %zu triangles, flags for %zu and %zu, %zu links, %zu edge lists", np, nt, m.aFlgPnt.size(), m.aFlgTri.size(), d.aEPo.size(), m.edge_point.size());
  for (unsigned i = 0; i < nv; ++i) if (P(i) != r.v[i] || m.aFlgPnt[i] != i) sim::violation("mesh-vertex", "mesh point %u is not vertex %u (flag %u)", i, i, m.aFlgPnt[i]);
  std::vector<char> seen(np, 0); unsigned next = (unsigned) nv;
  for (unsigned e = 0; e < ne; ++e) { auto &ep = m.edge_point[e]; double L = r.length(r.e[e]); unsigned n = (unsigned) ep.size() + 1; if (len > 0 && !m.mapIdEd_NDiv.count(e)) { double tol = r.e[e].type == 1 ? .35 : .01; if (n < std::floor(L * (1 - tol) / len + 1) || n > std::floor(L * (1 + tol) / len + 1)) sim::violation("edge-division", "edge %u of length %.6g has %u divisions at edge length %.6g", e, L, n, len); } else if (n != nd[e]) sim::violation("edge-division", "edge %u has %u divisions, %u were asked for", e, n, nd[e]);
    for (unsigned j = 0; j + 1 < n; ++j) { unsigned ip = ep[j].first; if (ip != next++ || ip >= np) sim::violation("edge-points", "point %u of edge %u is mesh point %u", j, e, ip); double t = (j + 1) / (double) n; P2 w = r.at(r.e[e], t); if (std::fabs(ep[j].second - t) > 1e-12 || dist(P(ip), w) > 1e-9) sim::violation("edge-points", "point %u of edge %u is off the curve", j, e); if (m.aFlgPnt[ip] != nv + e) sim::violation("point-flag", "point %u of edge %u has flag %u", j, e, m.aFlgPnt[ip]); } }
  for (unsigned i = next; i < np; ++i) if (m.aFlgPnt[i] < nv + ne || m.aFlgPnt[i] >= nv + ne + r.f.size()) sim::violation("point-flag", "inner point %u has flag %u", i, m.aFlgPnt[i]);
  for (unsigned f = 0; f < r.f.size(); ++f) { std::map<std::pair<unsigned, unsigned>, unsigned> he; double A = 0; size_t nf = 0;
    for (unsigned t = 0; t < nt; ++t) if (m.aFlgTri[t] == f) { nf++; auto &v = d.aETri[t].v; double a = crs(P(v[1]) - P(v[0]), P(v[2]) - P(v[0])) / 2; if (!(a > -1e-10)) sim::violation("mesh-inverted", "triangle %u of face %u has area %.9g", t, f, a); A += a; for (int q = 0; q < 3; ++q) { unsigned ip = v[q]; seen[ip] = 1; if (ip >= next && m.aFlgPnt[ip] != nv + ne + f) sim::violation("point-flag", "inner point %u of face %u has flag %u", ip, f, m.aFlgPnt[ip]); if (!he.insert({{v[q], v[(q + 1) % 3]}, t}).second) sim::violation("mesh-overlap", "edge %u-%u of face %u is used twice", v[q], v[(q + 1) % 3], f); } }
    std::set<std::pair<unsigned, unsigned>> want, got; double B = 0; for (unsigned e : r.f[f].l[0].e) { unsigned o = r.e[e].a; for (auto &x : m.edge_point[e]) { want.insert({o, x.first}); o = x.first; } want.insert({o, r.e[e].b}); }
    for (auto &x : want) B += crs(P(x.first), P(x.second)) / 2; for (auto &x : he) if (!he.count({x.first.second, x.first.first})) got.insert(x.first);
    if (got != want) sim::violation("mesh-boundary", "the mesh of face %u has %zu boundary edges, the sampled outline has %zu, and they differ", f, got.size(), want.size()); if (!(std::fabs(A - B) < 1e-9 * (1 + B))) sim::violation("mesh-area", "the mesh of face %u covers %.12g of %.12g", f, A, B);
    for (auto &l : r.f[f].l) if (l.iso != N && !seen[l.iso]) sim::violation("vertex-lost", "isolated vertex %u of face %u is in no triangle", l.iso, f);
    if (len > 0 && A / nf > 2 * len * len) sim::violation("mesh-coarse", "%zu triangles of face %u have an average area of %.6g at edge length %.6g", nf, f, A / nf, len);
    for (auto &x : he) { auto &t = d.aETri[x.second]; int c = 0; while (t.v[c] == x.first.first || t.v[c] == x.first.second) c++; auto o = he.find({x.first.second, x.first.first}); unsigned w = o == he.end() ? N : o->second; if (t.s2[c] != w) sim::violation("mesh-adjacency", "triangle %u lists triangle %d behind edge %u-%u, it is %d", x.second, (int) t.s2[c], x.first.first, x.first.second, (int) w); }
    // lookups from CAD parts to mesh points
    std::vector<int> a; { sim::Lib l; a = m.IndPoint_IndFaceArray({(int) f}, s.cad); } std::vector<int> w; std::set<unsigned> mine; for (unsigned t = 0; t < nt; ++t) if (m.aFlgTri[t] == f) for (unsigned ip : d.aETri[t].v) mine.insert(ip); for (unsigned ip : mine) w.push_back((int) ip); if (a != w) sim::violation("points-of-face", "%zu points reported for face %u, its mesh has %zu", a.size(), f, w.size()); }
  for (unsigned i = 0; i < np; ++i) { if (!seen[i]) sim::violation("point-lost", "mesh point %u is in no triangle", i); auto &p = d.aEPo[i]; if (p.e >= nt || p.d > 2 || d.aETri[p.e].v[p.d] != i) sim::violation("mesh-link", "mesh point %u is linked to corner %u of triangle %d", i, p.d, (int) p.e); }
  { unsigned e = g.n((uint32_t) ne); bool ends = g.n(2); std::vector<unsigned> a, w, b; { sim::Lib l; a = m.IndPoint_IndEdge(e, ends, s.cad); b = m.IndPoint_IndEdgeArray({(int) e}, s.cad); } if (ends) w.push_back(r.e[e].a); for (auto &x : m.edge_point[e]) w.push_back(x.first); if (ends) w.push_back(r.e[e].b); if (a != w) sim::violation("points-of-edge", "%zu points reported for edge %u, it has %zu", a.size(), e, w.size());
    std::set<unsigned> z = {r.e[e].a, r.e[e].b}; for (auto &x : m.edge_point[e]) z.insert(x.first); if (std::set<unsigned>(b.begin(), b.end()) != z || b.size() != z.size()) sim::violation("points-of-edge", "%zu points reported for edge %u with its ends, it has %zu", b.size(), e, z.size()); }
  { CMeshDynTri2D f; CMesher_Cad2D q; q.edge_length = m.edge_length; q.mapIdEd_NDiv = m.mapIdEd_NDiv; { sim::Lib l; q.Meshing(f, s.cad); } bool ok = f.aVec2.size() == np && f.aETri.size() == nt && q.aFlgPnt == m.aFlgPnt && q.aFlgTri == m.aFlgTri && q.edge_point == m.edge_point; for (size_t i = 0; ok && i < np; ++i) ok = f.aVec2[i].x == d.aVec2[i].x && f.aVec2[i].y == d.aVec2[i].y; for (size_t t = 0; ok && t < nt; ++t) for (int c = 0; c < 3; ++c) ok = ok && f.aETri[t].v[c] == d.aETri[t].v[c]; if (!ok) sim::violation("mesh-history", "a new mesher meshes the same sketch differently"); }
  sim::probe("meshed"); sim::mix(np); sim::mix(nt); sim::state(gen::hv(std::vector<double>{(double) np, (double) nt, d.aVec2[np - 1].x}, 3)); }

void pick(Session &s, const Ref &r, gen::Rng &g) {   // what the cursor is over, and only that
  Cad2_Ui &u = s.ui; double vh = g.r(.5, 4), th = vh * .05; P2 q; int how = (int) g.n(4); if (r.e.empty()) return; if (u.iedge_picked < r.e.size() && r.e[u.iedge_picked].type == 1 && g.n(3)) how = 2; const RE &k = r.e[u.iedge_picked < r.e.size() ? u.iedge_picked : g.n((uint32_t) r.e.size())];
  if (how == 0) q = r.v[g.n((uint32_t) r.v.size())]; else if (how == 1) q = r.at(r.e[g.n((uint32_t) r.e.size())], g.r(.1, .9)); else if (how == 2 && k.type == 1) q = g.n(2) ? r.v[k.a] + P2{k.p[0], k.p[1]} : r.v[k.b] + P2{k.p[2], k.p[3]}; else q = {g.r(-2, 8), g.r(-2, 2)}; q = q + P2{g.r(-.8, .8) * th, g.r(-.8, .8) * th};
  Cad2_Ui o = u; { sim::Lib l; u.Pick(q[0], q[1], vh, s.cad); }
  if (o.iedge_picked < r.e.size() && r.e[o.iedge_picked].type == 1) { const RE &x = r.e[o.iedge_picked]; double d0 = dist(q, r.v[x.a] + P2{x.p[0], x.p[1]}), d1 = dist(q, r.v[x.b] + P2{x.p[2], x.p[3]}); if (std::fabs(d0 - th) < 1e-9 || std::fabs(d1 - th) < 1e-9) return; int w = d0 < th ? 1 : d1 < th ? 2 : 0; if (w) { sim::probe("handle picked"); if (u.ipicked_elem != w || u.iedge_picked != o.iedge_picked) sim::violation("pick", "handle %d of the selected edge is under the cursor, picked: element %d of edge %d", w, u.ipicked_elem, (int) u.iedge_picked); return; } }
  if (u.ipicked_elem != 0 || u.iface_picked != N) sim::violation("pick", "nothing but vertices and edges is near, but element %d, face %d is picked", u.ipicked_elem, (int) u.iface_picked);
  for (unsigned v = 0; v < r.v.size(); ++v) { double d = dist(q, r.v[v]); if (std::fabs(d - th) < 1e-9) return; if (d < th) { if (u.ivtx_picked != v || u.iedge_picked != N) sim::violation("pick", "vertex %u is %.6g away (reach %.6g), picked: vertex %d edge %d", v, d, th, (int) u.ivtx_picked, (int) u.iedge_picked); if (u.picked_pos[0] != (float) r.v[v][0] || u.picked_pos[1] != (float) r.v[v][1]) sim::violation("pick", "the picked position is not that of vertex %u", v); return; } if (u.ivtx_picked == v) sim::violation("pick", "vertex %u, %.6g away, was picked (reach %.6g)", v, d, th); }
  for (unsigned e = 0; e < r.e.size(); ++e) { double lo = r.distance(r.e[e], q, 400), hi = 1e300; if (r.e[e].type == 0) hi = lo; else for (int j = 0; j <= 5; ++j) hi = std::min(hi, dist(q, r.at(r.e[e], j / 5.))); if (std::fabs(lo - th) < 1e-3 || std::fabs(hi - th) < 1e-9) return;
    if (u.iedge_picked == e) { if (lo > th) sim::violation("pick", "edge %u, %.6g away, was picked (reach %.6g)", e, lo, th); return; } if (hi < th) sim::violation("pick", "edge %u is %.6g away (reach %.6g), picked: edge %d", e, hi, th, (int) u.iedge_picked); }
  if (u.iedge_picked != N || u.ivtx_picked != N) sim::violation("pick", "nothing is in reach, but vertex %d, edge %d is picked", (int) u.ivtx_picked, (int) u.iedge_picked); }
void drag(Session &s, Ref &r, gen::Rng &g) {
  Cad2_Ui &u = s.ui; if (g.n(6) == 0 && r.f.size()) { u.ivtx_picked = u.iedge_picked = N; u.iface_picked = g.n((uint32_t) r.f.size()); sim::probe("face dragged"); }
  P2 a = {g.r(-1, 1), g.r(-1, 1)}, b = a + P2{g.r(-.1, .1), g.r(-.1, .1)}; bool vtx = u.ivtx_picked < r.v.size(), ed = !vtx && u.iedge_picked < r.e.size();
  if (vtx) { a = r.v[u.ivtx_picked]; b = a + P2{g.r(-.1, .1), g.r(-.1, .1)}; } else if (ed && u.ipicked_elem && r.e[u.iedge_picked].type == 1) { const RE &k = r.e[u.iedge_picked]; a = u.ipicked_elem == 1 ? r.v[k.a] + P2{k.p[0], k.p[1]} : r.v[k.b] + P2{k.p[2], k.p[3]}; b = a + P2{g.r(-.1, .1), g.r(-.1, .1)}; }
  { sim::Lib l; u.DragPicked(s.cad, b[0], b[1], a[0], a[1]); }
  auto move = [&](unsigned v) { r.v[v][0] += b[0] - a[0]; r.v[v][1] += b[1] - a[1]; };
  if (vtx) { r.v[u.ivtx_picked] = b; sim::probe("vertex dragged"); } else if (ed) { RE &k = r.e[u.iedge_picked]; if (u.ipicked_elem == 0) { move(k.a); move(k.b); sim::probe("edge dragged"); } else if (k.type == 1) { P2 h = b - r.v[u.ipicked_elem == 1 ? k.a : k.b]; k.p[u.ipicked_elem == 1 ? 0 : 2] = h[0]; k.p[u.ipicked_elem == 1 ? 1 : 3] = h[1]; sim::probe("handle dragged"); } }
  else if (u.iface_picked < r.f.size()) { for (auto &l : r.f[u.iface_picked].l) { if (l.iso != N) move(l.iso); for (unsigned e : l.e) move(r.e[e].a); } } }

bool grow(Session &s, Ref &r, gen::Rng &g, std::string &what) {   // one edit; false: memory ran out and the sketch is not to be used
  Ref w = r; int k = sim::chance(1, 12) ? 1 + (int) sim::choose(6) : 0; bool threw = false; std::vector<double> xy; std::vector<CCad2D_EdgeGeo> eg; unsigned t = 0; P2 p{}; int op = (int) g.n(r.f.empty() ? 2 : 8); double cx = 3. * (double) r.f.size();
  auto ring = [&](int n) { double ph = g.r(0, 6.28); std::vector<P2> q; for (int i = 0; i < n; ++i) { double a = ph + 2 * M_PI * (i + g.r(-.2, .2)) / n, d = g.r(.7, 1.2); q.push_back({cx + d * std::cos(a), d * std::sin(a)}); } return q; };
  auto curve = [&](RE &e, std::vector<P2> &v) { P2 a = v[e.a], b = v[e.b], d = b - a, n = {d[1], -d[0]}; e.type = (int) g.n(3); double o = g.r(-.2, .3); if (e.type == 2) { P2 c = lerp(a, b, g.r(.35, .65)) + mul(n, o) - a; e.p = {c[0], c[1], 0, 0}; } else if (e.type == 1) { P2 c = lerp(a, b, g.r(.2, .4)) + mul(n, o) - a, f = lerp(a, b, g.r(.6, .8)) + mul(n, g.r(-.2, .3)) - b; e.p = {c[0], c[1], f[0], f[1]}; } };
  switch (op) {
    case 0: case 1: { if (r.f.size() > 3) return true; int n = 3 + (int) g.n(4); unsigned v0 = (unsigned) r.v.size(), e0 = (unsigned) r.e.size(); RL l{N, {}}; for (auto &q : ring(n)) w.v.push_back(q); for (int i = 0; i < n; ++i) { RE e{v0 + i, v0 + (i + 1) % n, 0, {}}; if (op == 1) curve(e, w.v); w.e.push_back(e); l.e.push_back(e0 + i); } w.f.push_back({{l}});
      if (op == 0) for (int i = 0; i < n; ++i) { xy.push_back(w.v[v0 + i][0]); xy.push_back(w.v[v0 + i][1]); } else for (int i = 0; i < n; ++i) { RE &e = w.e[e0 + i]; CCad2D_EdgeGeo q; q.p0 = CVec2d(w.v[e.a][0], w.v[e.a][1]); q.p1 = CVec2d(w.v[e.b][0], w.v[e.b][1]); if (e.type == 2) q.SetQuadraticBezierCurve(q.p0 + CVec2d(e.p[0], e.p[1])); else if (e.type == 1) q.SetCubicBezierCurve(q.p0 + CVec2d(e.p[0], e.p[1]), q.p1 + CVec2d(e.p[2], e.p[3])); eg.push_back(q); } what = op ? "AddFace" : "AddPolygon"; break; }
    case 2: case 3: { t = g.n((uint32_t) r.e.size() + 1); what = "AddVtxEdge"; if (t == r.e.size()) { if (g.n(2)) t = N; break; } RE o = r.e[t]; if (dist(r.v[o.a], r.v[o.b]) < .2) return true; p = o.type == 0 ? lerp(r.v[o.a], r.v[o.b], g.r(.3, .7)) + P2{g.r(-.03, .03), g.r(-.03, .03)} : r.at(o, g.r(.3, .7)); unsigned vn = (unsigned) r.v.size(), en = (unsigned) r.e.size(); w.v.push_back(p); w.e[t].b = vn; w.e.push_back({vn, o.b, 0, {}}); for (auto &f : w.f) for (auto &l : f.l) for (size_t i = 0; i < l.e.size(); ++i) if (l.e[i] == t) { l.e.insert(l.e.begin() + i + 1, en); break; } break; }
    case 4: { t = g.n((uint32_t) r.f.size() + 1); what = "AddVtxFace"; p = {3. * t + g.r(-.4, .4), g.r(-.4, .4)}; if (t < r.f.size()) { w.f[t].l.push_back({(unsigned) r.v.size(), {}}); w.v.push_back(p); } break; }
    case 5: { t = g.n((uint32_t) r.e.size()); curve(w.e[t], w.v); what = "changing the kind of an edge"; break; }
    case 6: { t = g.n((uint32_t) r.v.size()); w.v[t] = w.v[t] + P2{g.r(-.1, .1), g.r(-.1, .1)}; what = "moving a vertex"; break; }
    default: { if (g.n(4)) return true; what = "Clear"; w = Ref(); } }
  std::unique_ptr<CCad2D> back; if (k) back.reset(new CCad2D(s.cad));
  { sim::Lib l; if (k) sim::alloc_fail_at(k); try { switch (op) { case 0: s.cad.AddPolygon(xy); break; case 1: s.cad.AddFace(eg); break; case 2: case 3: s.cad.AddVtxEdge(p[0], p[1], t); break; case 4: s.cad.AddVtxFace(p[0], p[1], t); break;
        case 5: { auto &q = s.cad.aEdge[t]; const RE &e = w.e[t]; if (e.type == 0) q.SetLine(); else if (e.type == 2) q.SetQuadraticBezierCurve(q.p0 + CVec2d(e.p[0], e.p[1])); else q.SetCubicBezierCurve(q.p0 + CVec2d(e.p[0], e.p[1]), q.p1 + CVec2d(e.p[2], e.p[3])); break; }
        case 6: s.cad.aVtx[t].pos = CVec2d(w.v[t][0], w.v[t][1]); s.cad.CopyVertexPositionsToEdges(); break; default: s.cad.Clear(); } } catch (std::bad_alloc &) { threw = true; }
    bool hit = k && sim::alloc_failed(); sim::alloc_fail_at(0); if (hit) { sim::fault("allocation failure"); if (!threw) sim::violation("lost-error", "%s swallowed a failed allocation", what.c_str()); } }
  if (op == 7) s.ui = Cad2_Ui();
  if (threw) { what += " (memory ran out, restored from the copy)"; s.cad = *back; return false; }
  r = w; return true; }

void session() {
  std::cout.rdbuf(nullptr); Session s; Ref r; gen::Rng g = gen::rng(); int n = 3 + (int) sim::choose(24); bool bad = false; sim::step_budget(400000000);
  for (int k = 0; k < n; ++k) { sim::vtime(1); std::string what = "nothing";
    switch (k == 0 ? 0 : sim::choose(8)) {
      case 0: case 1: case 2: grow(s, r, g, what); break;
      case 3: { int m = 1 + (int) sim::choose(4); for (int j = 0; j < m; ++j) { pick(s, r, g); if (g.n(3) == 0) { drag(s, r, g); check("dragging", s.cad, r); } } what = "picking"; break; }
      case 4: { int m = 1 + (int) sim::choose(3); for (int j = 0; j < m; ++j) { drag(s, r, g); check("dragging", s.cad, r); } what = "dragging"; break; }
      case 5: mesh(s, r); what = "meshing"; break;
      case 6: geometry(s.cad, r); lookups(s.cad, r); what = "looking up"; break;
      default: { sim::fault("restart"); std::unique_ptr<Session> o(new Session); o->cad = s.cad; s.cad.Clear(); s.cad = o->cad; s.mesher = CMesher_Cad2D(); s.dm = CMeshDynTri2D(); what = "a restart from a copy"; } }
    sim::logf("%s: %zu vertices, %zu edges, %zu faces", what.c_str(), r.v.size(), r.e.size(), r.f.size()); check(what.c_str(), s.cad, r); sim::mix(gen::hv(std::vector<double>{(double) r.v.size(), (double) r.e.size(), r.v.size() ? r.v.back()[0] : 0}, k)); }
  geometry(s.cad, r); lookups(s.cad, r); mesh(s, r); sim::nontrivial(); }
const sim::Scenario H03[] = {{"session", 1, session}};
}
SIM_MAIN(SIM_TABLE("H03", H03))
