// H01: histories of edits on a dynamic triangle mesh against a reference model (a set of oriented triangles).
// H02: histories of 2D/3D Delaunay meshing: validity, area and the empty-circle property after every step.
#include "geomgen.h"
#include "seams.h"
#include <memory>
#include <new>
#include <cstdio>
#include "delfem2/dtri_topology.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
#include "delfem2/geo_polygon2.h"
#include "delfem2/dtet_v3.h"
#include "delfem2/msh_primitive.h"
using namespace delfem2;
namespace {
typedef std::array<unsigned, 3> T3;
typedef std::pair<unsigned, unsigned> E2;
T3 canon(unsigned a, unsigned b, unsigned c) { if (a < b && a < c) return {a, b, c}; if (b < a && b < c) return {b, c, a}; return {c, a, b}; }
T3 canon(const T3 &t) { return canon(t[0], t[1], t[2]); }
const unsigned N = UINT_MAX;

// ------------------------------------------------------------------ reference model of the topology
struct Model {
  std::vector<T3> t; std::map<E2, unsigned> he;      // directed edge -> triangle
  void index() { he.clear(); for (unsigned i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) he[{t[i][k], t[i][(k + 1) % 3]}] = i; }
  bool edge(unsigned a, unsigned b) const { return he.count({a, b}) || he.count({b, a}); }
  unsigned opp(unsigned a, unsigned b) const { auto it = he.find({a, b}); if (it == he.end()) return N; for (unsigned v : t[it->second]) if (v != a && v != b) return v; return N; }
  void drop(unsigned a, unsigned b, unsigned c) { T3 x = canon(a, b, c); for (size_t i = 0; i < t.size(); ++i) if (canon(t[i]) == x) { t.erase(t.begin() + i); return; } sim::harness_error("model has no such triangle"); }
  void put(unsigned a, unsigned b, unsigned c) { t.push_back({a, b, c}); }
  std::vector<T3> sorted() const { std::vector<T3> s; for (auto &x : t) s.push_back(canon(x)); std::sort(s.begin(), s.end()); return s; }
  bool uses(unsigned p) const { for (auto &x : t) for (unsigned v : x) if (v == p) return true; return false; }
  bool interior(unsigned p) const { bool u = false; for (auto &x : t) for (int k = 0; k < 3; ++k) if (x[k] == p) { u = true; if (!he.count({x[(k + 1) % 3], p}) || !he.count({p, x[(k + 2) % 3]})) return false; } return u; }
};
struct Work { CMeshDynTri3D d; };
// the mesh must be exactly the model, with exact adjacency and a valid link from every point
void check(const char *after, const std::vector<CDynPntSur> &po, const std::vector<CDynTri> &tr, const Model &m) {
  if (tr.size() != m.t.size()) sim::violation("triangles-differ", "after %s: %zu triangles, the edits give %zu", after, tr.size(), m.t.size());
  std::vector<T3> s; for (auto &x : tr) { for (unsigned v : x.v) if (v >= po.size()) sim::violation("bad-vertex", "after %s: vertex %u of %zu", after, v, po.size()); s.push_back(canon(x.v[0], x.v[1], x.v[2])); }
  std::sort(s.begin(), s.end()); std::vector<T3> r = m.sorted();
  for (size_t i = 0; i < s.size(); ++i) if (s[i] != r[i]) sim::violation("triangles-differ", "after %s: triangle (%u %u %u) where the edits give (%u %u %u)", after, s[i][0], s[i][1], s[i][2], r[i][0], r[i][1], r[i][2]);
  std::map<E2, unsigned> he; for (unsigned i = 0; i < tr.size(); ++i) for (int k = 0; k < 3; ++k) he[{tr[i].v[(k + 1) % 3], tr[i].v[(k + 2) % 3]}] = i;
  for (unsigned i = 0; i < tr.size(); ++i) for (int k = 0; k < 3; ++k) { auto it = he.find({tr[i].v[(k + 2) % 3], tr[i].v[(k + 1) % 3]}); unsigned want = it == he.end() ? N : it->second; if (tr[i].s2[k] != want) sim::violation("adjacency", "after %s: triangle %u names %d across its edge %d, it is %d", after, i, (int) tr[i].s2[k], k, (int) want); }
  std::vector<char> used(po.size(), 0); for (auto &x : tr) for (unsigned v : x.v) used[v] = 1;
  for (unsigned p = 0; p < po.size(); ++p) {
    if (!used[p]) { if (po[p].e != N) sim::violation("point-link", "after %s: unused point %u is linked to triangle %u", after, p, po[p].e); continue; }
    if (po[p].e >= tr.size() || po[p].d > 2 || tr[po[p].e].v[po[p].d] != p) sim::violation("point-link", "after %s: point %u is linked to corner %u of triangle %d", after, p, po[p].d, (int) po[p].e); } }
void queries(const std::vector<CDynPntSur> &po, const std::vector<CDynTri> &tr, const Model &m) {
  unsigned p = tr[sim::choose((uint32_t) tr.size())].v[sim::choose(3)];
  unsigned q = sim::chance(1, 2) ? sim::choose((uint32_t) po.size()) : tr[sim::choose((uint32_t) tr.size())].v[sim::choose(3)]; bool has = m.he.count({p, q});
  { unsigned t = N, a = N, b = N; bool f = FindEdge_LookAroundPoint(t, a, b, p, q, po, tr); if (f != has) sim::violation("find-edge", "edge %u-%u %s but is %s", p, q, has ? "exists" : "does not exist", f ? "found" : "not found");
    if (f && (t >= tr.size() || a > 2 || b > 2 || tr[t].v[a] != p || tr[t].v[b] != q)) sim::violation("find-edge", "edge %u-%u is reported in triangle %u, corners %u %u", p, q, t, a, b); }
  { unsigned t = N, e = N; FindEdge_LookAllTriangles(t, e, p, q, tr); if ((t != N) != has || (t != N && (tr[t].v[e] != p || tr[t].v[(e + 1) % 3] != q))) sim::violation("find-edge-all", "edge %u-%u %s; answer: triangle %d edge %d", p, q, has ? "exists" : "does not exist", (int) t, (int) e); }
  if (m.interior(p)) { std::vector<std::pair<unsigned, unsigned>> a; GetTriArrayAroundPoint(a, p, po, tr); std::set<unsigned> s; for (auto &x : a) { if (x.first >= tr.size() || x.second > 2 || tr[x.first].v[x.second] != p) sim::violation("around-point", "triangle %u corner %u is not at point %u", x.first, x.second, p); s.insert(x.first); }
    size_t deg = 0; std::set<unsigned> nb; for (auto &x : tr) for (int k = 0; k < 3; ++k) if (x.v[k] == p) { deg++; nb.insert(x.v[(k + 1) % 3]); } if (s.size() != deg || a.size() != deg) sim::violation("around-point", "%zu triangles (%zu different) listed around point %u, which has %zu", a.size(), s.size(), p, deg);
    std::vector<unsigned> ip; if (!FindPointAroundPoint(ip, p, po, tr) || std::set<unsigned>(ip.begin(), ip.end()) != nb || ip.size() != nb.size()) sim::violation("points-around-point", "%zu points listed around point %u, which has %zu neighbours", ip.size(), p, nb.size()); }
  { std::vector<std::vector<int>> h; h.resize(sim::choose(3)); extractHoles(h, (int) po.size(), tr); std::map<unsigned, unsigned> nx; bool simple = true; for (auto &e : m.he) if (!m.he.count({e.first.second, e.first.first})) { if (nx.count(e.first.first)) simple = false; nx[e.first.first] = e.first.second; }
    if (simple) { std::set<int> seen; for (auto &l : h) for (size_t i = 0; i < l.size(); ++i) { auto it = nx.find((unsigned) l[i]); if (it == nx.end() || (int) it->second != l[(i + 1) % l.size()]) sim::violation("holes", "point %d does not follow point %d along a hole", l[(i + 1) % l.size()], l[i]); if (!seen.insert(l[i]).second) sim::violation("holes", "point %d listed twice", l[i]); } if (seen.size() != nx.size()) sim::violation("holes", "%zu points listed, %zu lie on the boundary", seen.size(), nx.size()); } } }
std::vector<unsigned> start_mesh(unsigned &np) { std::vector<unsigned> t; gen::Rng g = gen::rng(); auto wrap = [&](unsigned nx, unsigned ny, bool wx, bool wy) { unsigned cx = wx ? nx : nx + 1, cy = wy ? ny : ny + 1; np = cx * cy; auto id = [&](unsigned i, unsigned j) { return (j % cy) * cx + i % cx; };
    for (unsigned j = 0; j < ny; ++j) for (unsigned i = 0; i < nx; ++i) { unsigned a = id(i, j), b = id(i + 1, j), c = id(i, j + 1), e = id(i + 1, j + 1); if (g.n(2)) { for (unsigned v : {a, b, e, a, e, c}) t.push_back(v); } else { for (unsigned v : {a, b, c, b, e, c}) t.push_back(v); } } };
  switch (sim::choose(6)) {
    case 0: { unsigned a = 1 + sim::choose(4), b = 1 + sim::choose(4); wrap(a, b, false, false); break; }
    case 1: np = 4; for (unsigned v : {0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3}) t.push_back(v); break;
    case 2: { gen::Mesh m = gen::sphere((int) sim::choose(2), 1); np = (unsigned) m.xyz.size() / 3; t = m.tri; break; }
    case 3: wrap(4 + sim::choose(3), 1 + sim::choose(3), true, false); break;      // annulus
    case 4: wrap(4 + sim::choose(2), 4 + sim::choose(2), true, true); break;       // torus
    default: { unsigned n = 3 + sim::choose(5); np = n + 1; for (unsigned i = 0; i < n; ++i) for (unsigned v : {n, i, (i + 1) % n}) t.push_back(v); } }   // fan around one point
  np += sim::choose(3); return t; }
void edits() {
  unsigned np = 0; std::vector<unsigned> t0 = start_mesh(np); int64_t live0 = sim::live_blocks();
  { Work *w; std::unique_ptr<Work> own; std::vector<double> x0(np * 3); { gen::Rng g(np); for (auto &x : x0) x = g.r(-1, 1); }
    { sim::Lib l; own.reset(new Work); w = own.get(); w->d.Initialize(x0.data(), (int) np, 3, t0.data(), (int) t0.size() / 3); }
    Model m; for (size_t i = 0; i < t0.size(); i += 3) m.put(t0[i], t0[i + 1], t0[i + 2]); m.index();
    auto &po = w->d.aEPo; auto &tr = w->d.aETri; check("start", po, tr, m);
    int n = 3 + (int) sim::choose(40); bool faults = sim::chance(1, 3), failed = false; const char *what = "";
    for (int s = 0; s < n && !tr.empty(); ++s) {
      unsigned it = sim::choose((uint32_t) tr.size()), ie = sim::choose(3); T3 v = {tr[it].v[ie], tr[it].v[(ie + 1) % 3], tr[it].v[(ie + 2) % 3]};   // edge ie: v[1]-v[2]
      unsigned opp = m.opp(v[2], v[1]); int64_t fa = faults && sim::chance(1, 3) ? 1 + sim::choose(4) : 0; bool thrown = false, ret = false; int op = (int) sim::choose(7); size_t np0 = po.size();
      auto lib = [&](auto f) { sim::alloc_fail_at(fa); try { sim::Lib l; f(); } catch (std::bad_alloc &) { thrown = true; } if (sim::alloc_failed()) { sim::fault("alloc-fail"); failed = true; } sim::alloc_fail_at(0); };
      switch (op) {
        case 0: what = "insert in triangle"; lib([&] { w->d.insertPointElem((int) it, .3, .3); }); if (!thrown) { unsigned p = (unsigned) np0; m.drop(v[0], v[1], v[2]); m.put(p, v[1], v[2]); m.put(p, v[2], v[0]); m.put(p, v[0], v[1]); } break;
        case 1: { if (opp == N) continue; what = "insert on edge"; { sim::Lib l; po.emplace_back(); w->d.aVec3.emplace_back(); } unsigned p = (unsigned) np0; lib([&] { InsertPoint_ElemEdge(p, it, ie, po, tr); }); if (!thrown) { m.drop(v[0], v[1], v[2]); m.drop(opp, v[2], v[1]); m.put(v[0], v[1], p); m.put(v[0], p, v[2]); m.put(opp, v[2], p); m.put(opp, p, v[1]); } break; }
        case 2: case 3: { if (opp != N && m.edge(v[0], opp)) continue; what = "flip"; lib([&] { ret = FlipEdge(it, ie, po, tr); }); if (ret != (opp != N)) sim::violation("flip-result", "flipping %s edge returned %d", opp == N ? "a boundary" : "an inner", (int) ret); if (ret) { m.drop(v[0], v[1], v[2]); m.drop(opp, v[2], v[1]); m.put(v[0], v[1], opp); m.put(v[0], opp, v[2]); } break; }
        case 4: case 5: { if (opp == N) continue; what = "collapse"; size_t nt0 = tr.size(); unsigned X = v[1], Z = v[2]; bool wrapper = sim::chance(1, 3); lib([&] { if (wrapper) { w->d.DeleteTriEdge((int) it, (int) ie); ret = tr.size() != nt0; } else ret = CollapseEdge_MeshDTri(it, ie, po, tr); });
          if (thrown) break; if (!ret) { if (tr.size() != nt0) sim::violation("collapse-result", "a refused collapse changed the number of triangles"); sim::probe("collapse-refused"); break; }
          sim::probe("collapse-done"); m.drop(v[0], v[1], v[2]); m.drop(opp, v[2], v[1]); for (auto &q : m.t) for (auto &u : q) if (u == Z) u = X;
          { std::map<E2, int> c; for (auto &q : m.t) for (int k = 0; k < 3; ++k) { if (q[k] == q[(k + 1) % 3]) sim::violation("collapse-degenerate", "collapsing %u into %u made a triangle with two equal corners", Z, X); if (c[{q[k], q[(k + 1) % 3]}]++) sim::violation("collapse-nonmanifold", "collapsing %u into %u made edge %u-%u appear twice", Z, X, q[k], q[(k + 1) % 3]); } } break; }
        default: { what = "restart"; std::vector<unsigned> t; std::vector<double> x; gen::Rng g = gen::rng(); std::vector<unsigned> ord(tr.size()); for (unsigned i = 0; i < ord.size(); ++i) ord[i] = i; for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[g.n((uint32_t) i)]); for (unsigned i : ord) { unsigned k = g.n(3); for (int j = 0; j < 3; ++j) t.push_back(tr[i].v[(k + j) % 3]); } for (auto &q : w->d.aVec3) for (double c : q.p) x.push_back(c);
          bool fresh = sim::chance(1, 2); int npo = (int) w->d.aVec3.size(); lib([&] { if (fresh) { Work *w2 = new Work; try { w2->d.Initialize(x.data(), npo, 3, t.data(), (int) t.size() / 3); } catch (...) { delete w2; throw; } w->d = w2->d; delete w2; } else w->d.Initialize(x.data(), npo, 3, t.data(), (int) t.size() / 3); });
          if (thrown) { sim::Lib l; w->d.Initialize(x.data(), npo, 3, t.data(), (int) t.size() / 3); } sim::fault("restart"); } }
      m.index(); sim::logf("%s at triangle %u edge %u%s%s -> %zu triangles", what, it, ie, ret ? "" : " (no change)", thrown ? " OUT OF MEMORY" : "", tr.size()); sim::vtime(1);
      check(what, po, tr, m); queries(po, tr, m); sim::mix(tr.size() * 131 + po.size()); }
    uint64_t h = 7; for (auto &q : m.sorted()) h = sim::hash_bytes(q.data(), 12, h); sim::state(h); sim::mix(h); (void) failed; sim::nontrivial();
    { sim::Lib l; own.reset(); } }
  if (sim::live_blocks() != live0) sim::violation("leak", "%lld blocks stay allocated", (long long) (sim::live_blocks() - live0)); }
// triangle and point deletion by flags on parts cut free with links removed
void purge() {
  unsigned np = 0; std::vector<unsigned> t0; gen::Rng g = gen::rng(); int parts = 2 + (int) sim::choose(3); std::vector<int> comp; std::vector<double> xy;
  for (int k = 0; k < parts; ++k) { gen::Mesh m = gen::grid(1 + g.n(3), 1 + g.n(3), g, 0); for (unsigned v : m.tri) t0.push_back(v + np); for (size_t i = 0; i < m.tri.size(); i += 3) comp.push_back(k); for (size_t i = 0; i < m.xyz.size(); i += 3) { xy.push_back(m.xyz[i] + 3 * k); xy.push_back(m.xyz[i + 1]); } np = (unsigned) xy.size() / 2; if (sim::chance(1, 3)) { xy.push_back(g.r(0, 1)); xy.push_back(-2); np++; } }
  CMeshDynTri2D d; d.Initialize(xy.data(), (int) np, t0.data(), (int) t0.size() / 3); Model m; for (size_t i = 0; i < t0.size(); i += 3) m.put(t0[i], t0[i + 1], t0[i + 2]); m.index(); check("start", d.aEPo, d.aETri, m);
  for (int round = 0; round < 2 && !d.aETri.empty(); ++round) {
    unsigned ker = sim::choose((uint32_t) d.aETri.size()); int keepval = sim::range(0, 1), val = 5; std::vector<int> flg(d.aETri.size(), 0); FlagConnected(flg, d.aETri, ker, val);
    for (size_t i = 0; i < flg.size(); ++i) if ((flg[i] == val) != (comp[i] == comp[ker])) sim::violation("flag-connected", "triangle %zu of part %d %s flagged from part %d", i, comp[i], flg[i] == val ? "is" : "is not", comp[ker]);
    int del = keepval ? 0 : val; std::vector<int> flg0 = flg; DeleteTriFlag(d.aETri, flg, del); std::vector<int> c2; Model m2; for (size_t i = 0; i < flg0.size(); ++i) if (flg0[i] != del) { c2.push_back(comp[i]); m2.t.push_back(m.t[i]); }
    if (flg.size() != d.aETri.size()) sim::violation("delete-tri", "flags and triangles differ in number"); for (int f : flg) if (f == del) sim::violation("delete-tri", "a flagged triangle is still there");
    std::vector<char> used(np, 0); for (auto &q : m2.t) for (unsigned v : q) used[v] = 1;
    std::vector<unsigned> map(np, N), pd; std::vector<int> pf(np, 0); unsigned n1 = 0; for (unsigned p = 0; p < np; ++p) if (used[p]) map[p] = n1++; else { pd.push_back(p); pf[p] = 1; }
    std::vector<CVec2d> v0 = d.aVec2; if (sim::chance(1, 2)) { for (size_t i = pd.size(); i > 1; --i) std::swap(pd[i - 1], pd[g.n((uint32_t) i)]); DeleteUnrefPoints(d.aVec2, d.aEPo, d.aETri, pd); } else { std::vector<int> f = pf; DeletePointsFlag(d.aVec2, d.aEPo, d.aETri, f, 1); if (f.size() != n1) sim::violation("delete-point", "%zu flags for %u points", f.size(), n1); }
    if (d.aVec2.size() != n1 || d.aEPo.size() != n1) sim::violation("delete-point", "%zu points left, %u are in use", d.aVec2.size(), n1);
    for (unsigned p = 0; p < np; ++p) if (map[p] != N && (d.aVec2[map[p]].p[0] != v0[p].p[0] || d.aVec2[map[p]].p[1] != v0[p].p[1])) sim::violation("delete-point", "point %u has moved", p);
    for (auto &q : m2.t) for (auto &v : q) v = map[v]; m2.index(); m = m2; comp = c2; np = n1; sim::logf("kept %zu triangles, %u points", m.t.size(), np); check("deletion by flags", d.aEPo, d.aETri, m); if (!d.aETri.empty()) queries(d.aEPo, d.aETri, m); sim::mix(np * 77 + m.t.size()); sim::vtime(1);
    if (!d.aETri.empty()) { unsigned it = sim::choose((uint32_t) d.aETri.size()); T3 v = {d.aETri[it].v[0], d.aETri[it].v[1], d.aETri[it].v[2]}; unsigned p = (unsigned) d.insertPointElem((int) it, .3, .3); std::vector<T3> nt; std::vector<int> nc; m.drop(v[0], v[1], v[2]); m.put(p, v[1], v[2]); m.put(p, v[2], v[0]); m.put(p, v[0], v[1]); m.index(); check("insert after deletion", d.aEPo, d.aETri, m); int cc = comp[it]; comp.push_back(cc); comp.push_back(cc); np = p + 1; m.t.clear(); for (auto &x : d.aETri) m.put(x.v[0], x.v[1], x.v[2]); m.index(); } }
  sim::state(sim::hash_u64(np, m.t.size())); sim::nontrivial(); }
// ------------------------------------------------------------------ H02: meshing
double area2(const CVec2d &a, const CVec2d &b, const CVec2d &c) { return .5 * ((b.p[0] - a.p[0]) * (c.p[1] - a.p[1]) - (b.p[1] - a.p[1]) * (c.p[0] - a.p[0])); }
// > 0: d inside the circle through a,b,c (counter-clockwise); relative to the size of the circle
double incircle(const CVec2d &a, const CVec2d &b, const CVec2d &c, const CVec2d &d) { double m[3][3]; const CVec2d *q[3] = {&a, &b, &c}; for (int i = 0; i < 3; ++i) { m[i][0] = q[i]->p[0] - d.p[0]; m[i][1] = q[i]->p[1] - d.p[1]; m[i][2] = m[i][0] * m[i][0] + m[i][1] * m[i][1]; }
  double det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  double s = 0; for (auto &r : m) s = std::max(s, r[2]); return det / (s * s + 1e-300); }
void adjacency(const char *after, const std::vector<CDynPntSur> &po, const std::vector<CDynTri> &tr) { Model m; for (auto &t : tr) { for (unsigned v : t.v) if (v >= po.size()) sim::violation("bad-vertex", "after %s: vertex %u of %zu", after, v, po.size()); m.put(t.v[0], t.v[1], t.v[2]); } check(after, po, tr, m); }
double areas(const char *after, const std::vector<CDynTri> &tr, const std::vector<CVec2d> &v, double mn) { double s = 0; for (auto &t : tr) { double a = area2(v[t.v[0]], v[t.v[1]], v[t.v[2]]); if (!(a > mn)) sim::violation("inverted", "after %s: triangle (%u %u %u) has area %.3e", after, t.v[0], t.v[1], t.v[2], a); s += a; } return s; }
void delaunay(const char *after, const std::vector<CDynTri> &tr, const std::vector<CVec2d> &v, unsigned only = N) {
  for (auto &t : tr) for (int k = 0; k < 3; ++k) { if (t.s2[k] == N) continue; if (only != N && t.v[k] != only) continue; const CDynTri &u = tr[t.s2[k]]; unsigned d = N; for (unsigned x : u.v) if (x != t.v[(k + 1) % 3] && x != t.v[(k + 2) % 3]) d = x;
    if (incircle(v[t.v[0]], v[t.v[1]], v[t.v[2]], v[d]) > 1e-9) sim::violation("not-delaunay", "after %s: point %u lies in the circle around triangle (%u %u %u)", after, d, t.v[0], t.v[1], t.v[2]); } }
void incremental() {
  std::vector<CVec2d> v; std::vector<CDynPntSur> po; std::vector<CDynTri> tr; bool lattice = sim::chance(1, 2); gen::Rng g = gen::rng(); std::vector<CVec2d> all; int n = 3 + (int) sim::choose(30), first = 3 + (int) sim::choose(6), G = 3 + (int) sim::choose(5);
  for (int tries = 0; (int) all.size() < n && tries < 4000; ++tries) { CVec2d p = lattice ? CVec2d(g.n(G + 1) / (double) G, g.n(G + 1) / (double) G) : CVec2d(g.r(0, 1), g.r(0, 1)); bool ok = true; for (auto &q : all) if ((q - p).norm() < .03) ok = false; if (ok) all.push_back(p); }
  double lo[2] = {9, 9}, hi[2] = {-9, -9}; std::vector<CVec2d> in; for (size_t i = 0; i < all.size(); ++i) { if ((int) i < first) { in.push_back(all[i]); for (int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], all[i].p[k]); hi[k] = std::max(hi[k], all[i].p[k]); } } }
  if (hi[0] - lo[0] < .2 && hi[1] - lo[1] < .2) return; v = in; Meshing_Initialize(po, tr, v); size_t sup = in.size(); double A = area2(v[sup], v[sup + 1], v[sup + 2]); bool faults = sim::chance(1, 3);
  auto verify = [&](const char *w) { adjacency(w, po, tr); double s = areas(w, tr, v, 0); if (fabs(s - A) > 1e-9 * A) sim::violation("area-lost", "after %s: the triangles cover %.12f of %.12f", w, s, A); delaunay(w, tr, v); std::vector<char> u(v.size(), 0); for (auto &t : tr) for (unsigned q : t.v) u[q] = 1; for (size_t i = 0; i < v.size(); ++i) if (!u[i]) sim::violation("point-lost", "after %s: point %zu is not in the mesh", w, i); };
  verify("initial points"); int added = 0;
  for (size_t i = in.size(); i < all.size(); ++i) { const CVec2d &p = all[i]; double a0 = area2(p, v[sup + 1], v[sup + 2]), a1 = area2(v[sup], p, v[sup + 2]), a2 = area2(v[sup], v[sup + 1], p); if (std::min(a0, std::min(a1, a2)) < 1e-3) continue;   // outside the region
    v.push_back(p); po.emplace_back(); unsigned ip = (unsigned) v.size() - 1; std::vector<CDynTri> before = tr; bool thrown = false; if (faults && sim::chance(1, 3)) sim::alloc_fail_at(1 + sim::choose(2)); try { sim::Lib l; AddPointsMesh(v, po, tr, (int) ip, 1e-10); } catch (std::bad_alloc &) { thrown = true; } if (sim::alloc_failed()) sim::fault("alloc-fail"); sim::alloc_fail_at(0);
    if (thrown) { if (po[ip].e != N || tr.size() != before.size()) sim::violation("failed-insert", "running out of memory changed the mesh"); { sim::Lib l; AddPointsMesh(v, po, tr, (int) ip, 1e-10); } }
    DelaunayAroundPoint(ip, po, tr, v); added++; sim::vtime(1); if (sim::chance(1, 4)) { size_t nt = tr.size(); AddPointsMesh(v, po, tr, (int) ip, 1e-10); if (tr.size() != nt) sim::violation("added-twice", "adding a point again changed the mesh"); }
    verify("adding a point"); if (sim::chance(1, 12)) { std::vector<unsigned> t; for (auto &x : tr) for (unsigned q : x.v) t.push_back(q); CMeshDynTri2D d; std::vector<double> xy; for (auto &q : v) { xy.push_back(q.p[0]); xy.push_back(q.p[1]); } d.Initialize(xy.data(), (int) v.size(), t.data(), (int) t.size() / 3); po = d.aEPo; tr = d.aETri; sim::fault("restart"); verify("restart"); } }
  sim::logf("%zu + %d points, %zu triangles, lattice %d", in.size(), added, tr.size(), (int) lattice); uint64_t h = 5; for (auto &t : tr) h = sim::hash_bytes(t.v, 12, h); sim::state(h); sim::mix(h); sim::nontrivial(); }
// polygons with holes
typedef std::vector<double> Loop;
Loop star(gen::Rng &g, int n, double cx, double cy, double r0, double r1) { Loop l; double ph = g.r(0, 6.28); for (int i = 0; i < n; ++i) { double t = ph + 6.283185307 * (i + g.r(-.25, .25)) / n, r = g.r(r0, r1); l.push_back(cx + r * cos(t)); l.push_back(cy + r * sin(t)); } return l; }
double larea(const Loop &l) { double a = 0; size_t n = l.size() / 2; for (size_t i = 0; i < n; ++i) { size_t j = (i + 1) % n; a += .5 * (l[2 * i] * l[2 * j + 1] - l[2 * j] * l[2 * i + 1]); } return a; }
double lperi(const Loop &l) { double a = 0; size_t n = l.size() / 2; for (size_t i = 0; i < n; ++i) { size_t j = (i + 1) % n; a += hypot(l[2 * j] - l[2 * i], l[2 * j + 1] - l[2 * i + 1]); } return a; }
void turn(Loop &l, gen::Rng &g) { size_t n = l.size() / 2, k = g.n((uint32_t) n); Loop r; bool rev = g.n(2); for (size_t i = 0; i < n; ++i) { size_t j = rev ? (k + n - i) % n : (k + i) % n; r.push_back(l[2 * j]); r.push_back(l[2 * j + 1]); } l = r; }
bool on_loop(const Loop &l, const CVec2d &p) { size_t n = l.size() / 2; for (size_t i = 0; i < n; ++i) { size_t j = (i + 1) % n; double ax = l[2 * i], ay = l[2 * i + 1], bx = l[2 * j] - ax, by = l[2 * j + 1] - ay, px = p.p[0] - ax, py = p.p[1] - ay, L2 = bx * bx + by * by, t = (px * bx + py * by) / L2; if (t < -1e-9 || t > 1 + 1e-9) continue; if (hypot(px - t * bx, py - t * by) < 1e-9) return true; } return false; }
struct Region { std::vector<Loop> l; double A = 0, P = 0; };
Region region(gen::Rng &g) { Region r; int kind = (int) sim::choose(6);
  if (kind == 4) { int n = 3 + (int) g.n(5); Loop l = star(g, 2 * n, 0, 0, .9, 1); double in = g.r(.08, .4); for (int i = 0; i < n; ++i) { double q = in * g.r(.8, 1.2); l[4 * i + 2] *= q; l[4 * i + 3] *= q; } r.l.push_back(l); }   // spikes
  else if (kind == 5) { int n = 2 + (int) g.n(3); Loop l = {1, -1}; double w = 2. / (2 * n - 1); for (int i = 0; i < 2 * n; ++i) { double x = 1 - w * (i + (i % 2 ? -g.r(0, .3) : g.r(0, .3)) * (i > 0 && i < 2 * n - 1)), y0 = g.r(-.9, -.6), y1 = g.r(.5, 1); if (i % 2 == 0) { l.push_back(x); l.push_back(y1); if (i < 2 * n - 1) { l.push_back(x - .6 * w); l.push_back(y1 * g.r(.8, 1)); } } else if (i < 2 * n - 1) { l.push_back(x - .0 * w); l.push_back(y0); } } l.push_back(-1.2); l.push_back(-1); r.l.push_back(l); }   // a comb
  else
  if (kind == 0) { double a = .25 * (1 + g.n(3)), b = .25 * (1 + g.n(3)); r.l.push_back({-1, -1, 1, -1, 1, 1 - 2 * b, 1 - 2 * a, 1 - 2 * b, 1 - 2 * a, 1, -1, 1}); }   // L shape
  else r.l.push_back(star(g, kind == 1 ? 3 + (int) g.n(3) : 5 + (int) g.n(6), 0, 0, kind == 3 ? .85 : .45, 1));
  if (kind == 3) { int h = (int) sim::choose(3); for (int i = 0; i < h; ++i) r.l.push_back(star(g, 3 + (int) g.n(3), h == 1 ? 0 : -.27 + .54 * i, 0, .08, .18)); }
  for (auto &l : r.l) { double a = fabs(larea(l)); r.A += &l == &r.l[0] ? a : -a; r.P += lperi(l); turn(l, g); } return r; }
void boundary_is(const char *after, const CMeshDynTri2D &d, const Region &r, double maxlen) { double P = 0; for (auto &t : d.aETri) for (int k = 0; k < 3; ++k) if (t.s2[k] == N) { const CVec2d &a = d.aVec2[t.v[(k + 1) % 3]], &b = d.aVec2[t.v[(k + 2) % 3]]; double len = (a - b).norm(); P += len; bool on = false; for (auto &l : r.l) on = on || (on_loop(l, a) && on_loop(l, b) && on_loop(l, .5 * (a + b))); if (!on) sim::violation("boundary", "after %s: the mesh ends at an edge that is not on the outline", after); if (maxlen > 0 && len > maxlen * (1 + 1e-9)) sim::violation("boundary-resolution", "after %s: boundary edge of length %.4f, at most %.4f was asked for", after, len, maxlen); }
  if (fabs(P - r.P) > 1e-8) sim::violation("boundary", "after %s: boundary of length %.9f, the outline has %.9f", after, P, r.P); }
void outlines() {
  gen::Rng g = gen::rng(); Region r = region(g); double len = sim::chance(1, 2) ? g.r(.15, .6) : 0; CMeshDynTri2D d; int used = (int) sim::choose(3); if (used) { Region q = region(g); d.meshing_loops(q.l, used == 1 ? 0 : .5); }
  double fl = 0; if (sim::chance(1, 3)) { fl = sim::chance(1, 2) ? g.r(.2, .6) : 0; GenMesh(d.aEPo, d.aETri, d.aVec2, r.l, len, fl); } else { d.meshing_loops(r.l, len); fl = len; }
  if (d.aETri.empty()) sim::violation("refused", "no mesh for a polygon with %zu loops", r.l.size());
  auto verify = [&](const char *w, double mn) { adjacency(w, d.aEPo, d.aETri); double s = areas(w, d.aETri, d.aVec2, mn); if (fabs(s - r.A) > 1e-8) sim::violation("area-lost", "after %s: the triangles cover %.10f, the region has %.10f", w, s, r.A); };
  verify("meshing", 0); boundary_is("meshing", d, r, len); size_t k = 0; std::vector<char> u(d.aVec2.size(), 0); for (auto &t : d.aETri) for (unsigned q : t.v) u[q] = 1;
  for (auto &l : r.l) for (size_t i = 0; i < l.size(); i += 2, ++k) if (d.aVec2[k].p[0] != l[i] || d.aVec2[k].p[1] != l[i + 1] || !u[k]) sim::violation("corner-lost", "corner %zu of the outline is not in the mesh", k);
  for (size_t i = 0; i < u.size(); ++i) if (!u[i]) sim::violation("point-lost", "point %zu is in no triangle", i);
  bool valid = true; for (auto &t : d.aETri) if (!(area2(d.aVec2[t.v[0]], d.aVec2[t.v[1]], d.aVec2[t.v[2]]) > 1e-9)) valid = false; if (!valid) { sim::probe("inverted-by-smoothing"); sim::nontrivial(); return; }
  int n = (int) sim::choose(12);
  for (int s = 0; s < n; ++s) { const char *w = ""; switch (sim::choose(3)) {
      case 0: { w = "inserting a point"; unsigned it = sim::choose((uint32_t) d.aETri.size()); const CDynTri &t = d.aETri[it]; if (area2(d.aVec2[t.v[0]], d.aVec2[t.v[1]], d.aVec2[t.v[2]]) < 1e-4) continue; double r0 = g.r(.2, .4), r1 = g.r(.2, .4); unsigned p = (unsigned) d.insertPointElem((int) it, r0, r1); d.DelaunayAroundPoint((int) p); delaunay(w, d.aETri, d.aVec2, p); break; }
      case 1: { w = "refining"; CCmdRefineMesh cmd; double el = g.r(.2, .7), cx = g.r(-.8, .8), cy = g.r(-.8, .8), rad = g.r(.2, 1); std::set<E2> want, bnd; for (auto &t : d.aETri) { CVec2d c = (d.aVec2[t.v[0]] + d.aVec2[t.v[1]] + d.aVec2[t.v[2]]) * .333333; if (Distance(c, CVec2d(cx, cy)) < rad) for (int k = 0; k < 3; ++k) { unsigned a = t.v[(k + 1) % 3], b = t.v[(k + 2) % 3]; if (Distance(d.aVec2[a], d.aVec2[b]) > el) { want.insert({std::min(a, b), std::max(a, b)}); if (t.s2[k] == N) bnd.insert({std::min(a, b), std::max(a, b)}); } } }
        std::vector<CVec2d> v0 = d.aVec2; if (d.aETri.size() > 400) continue; d.RefinementPlan_EdgeLongerThan_InsideCircle(cmd, el, cx, cy, rad); std::set<E2> got; std::vector<char> in(d.aVec2.size(), 0); for (auto &t : d.aETri) for (unsigned q : t.v) in[q] = 1;
        for (auto &c : cmd.aCmdEdge) { E2 e{(unsigned) c.ipo0, (unsigned) c.ipo1}; got.insert(e); CVec2d m = .5 * (v0[e.first] + v0[e.second]); if ((unsigned) c.ipo_new >= d.aVec2.size() || Distance(d.aVec2[c.ipo_new], m) > 1e-12) sim::violation("refine-point", "the new point of edge %u-%u is not at its middle", e.first, e.second); if (!bnd.count(e) && !in[c.ipo_new]) sim::violation("refine-missing", "inner edge %u-%u is longer than asked for, its new point is not in the mesh", e.first, e.second); }
        if (got != want) sim::violation("refine-plan", "%zu edges planned, %zu are longer than asked for in the circle", got.size(), want.size()); std::vector<double> val(d.aVec2.size(), 0); for (size_t i = 0; i < v0.size(); ++i) val[i] = 3 * v0[i].p[0] - 2 * v0[i].p[1]; cmd.Interpolate(val.data(), (int) val.size(), 1); for (auto &c : cmd.aCmdEdge) if (fabs(val[c.ipo_new] - (3 * d.aVec2[c.ipo_new].p[0] - 2 * d.aVec2[c.ipo_new].p[1])) > 1e-9) sim::violation("refine-interpolate", "a linear value is not interpolated linearly"); break; }
      default: { w = "collapsing"; unsigned it = sim::choose((uint32_t) d.aETri.size()), ie = sim::choose(3); if (d.aETri[it].s2[ie] == N) continue; unsigned X = d.aETri[it].v[(ie + 1) % 3], Z = d.aETri[it].v[(ie + 2) % 3]; bool ok = true; for (auto &t : d.aETri) { bool z = false, x = false; for (unsigned q : t.v) { z |= q == Z; x |= q == X; } if (!z || x) continue; CVec2d q[3]; for (int k = 0; k < 3; ++k) q[k] = d.aVec2[t.v[k] == Z ? X : t.v[k]]; if (area2(q[0], q[1], q[2]) < 1e-6) ok = false; } if (!ok) continue; d.DeleteTriEdge((int) it, (int) ie); } }
    sim::logf("%s -> %zu triangles", w, d.aETri.size()); sim::vtime(1); verify(w, 0); boundary_is(w, d, r, 0); }
  uint64_t h = 5; for (auto &t : d.aETri) h = sim::hash_bytes(t.v, 12, h); for (auto &q : d.aVec2) h = sim::hash_bytes(q.p, 16, h); sim::state(h); sim::mix(h); sim::nontrivial(); }
// Delaunay tetrahedra
void tets() {
  std::vector<CDynPointTet> po(4); double L = 3; const double c[4][3] = {{-L, L, -L}, {L, -L, -L}, {L, L, L}, {-L, -L, L}}; for (unsigned i = 0; i < 4; ++i) { po[i].p = CVec3d(c[i][0], c[i][1], c[i][2]); po[i].e = 0; po[i].poel = i; }
  std::vector<CDynTet> te(1); for (unsigned i = 0; i < 4; ++i) { te[0].v[i] = i; te[0].s[i] = N; } std::vector<CVec3d> cen(1, CircumCenter(po[0].p, po[1].p, po[2].p, po[3].p)); auto vol = [&](unsigned a, unsigned b, unsigned d, unsigned e) { gen::V3 p[4]; unsigned q[4] = {a, b, d, e}; for (int i = 0; i < 4; ++i) p[i] = {po[q[i]].p.p[0], po[q[i]].p.p[1], po[q[i]].p.p[2]}; return gen::dot(gen::cross(gen::sub(p[1], p[0]), gen::sub(p[2], p[0])), gen::sub(p[3], p[0])) / 6; };
  double V = fabs(vol(0, 1, 2, 3)), sg = vol(0, 1, 2, 3) > 0 ? 1 : -1; gen::Rng g = gen::rng(); int n = 3 + (int) sim::choose(22); bool reuse = sim::chance(1, 2); std::vector<int> keep;
  for (int s = 0; s < n; ++s) { unsigned ip = (unsigned) po.size(); CDynPointTet q; q.p = CVec3d(g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)); q.e = N; q.poel = N; bool close = false; for (auto &x : po) if ((x.p - q.p).norm() < .1) close = true; if (close) continue; po.push_back(q);
    unsigned it0 = N; for (unsigned it = 0; it < te.size(); ++it) { if (te[it].v[0] == N) continue; unsigned *v = te[it].v; double m = std::min(std::min(sg * vol(ip, v[1], v[2], v[3]), sg * vol(v[0], ip, v[2], v[3])), std::min(sg * vol(v[0], v[1], ip, v[3]), sg * vol(v[0], v[1], v[2], ip))); if (m > 1e-6) { it0 = it; break; } }
    if (it0 == N) { po.pop_back(); continue; } std::vector<int> tmp; AddPointTetDelaunay(ip, it0, po, te, cen, reuse ? keep : tmp); sim::vtime(1); double sum = 0; std::map<T3, std::pair<int, unsigned>> f; int act = 0;
    if (cen.size() != te.size()) sim::violation("tet-centers", "%zu centres for %zu tetrahedra", cen.size(), te.size());
    for (unsigned it = 0; it < te.size(); ++it) { if (te[it].v[0] == N) continue; act++; unsigned *v = te[it].v; double w = sg * vol(v[0], v[1], v[2], v[3]); if (!(w > 0)) sim::violation("tet-inverted", "tetrahedron (%u %u %u %u) has volume %.3e", v[0], v[1], v[2], v[3], w); sum += w; for (int k = 0; k < 4; ++k) { T3 t = {v[(k + 1) % 4], v[(k + 2) % 4], v[(k + 3) % 4]}; std::sort(t.begin(), t.end()); f[t].first++; } 
      double r2 = (cen[it] - po[v[0]].p).norm(); for (unsigned p = 0; p < po.size(); ++p) { if (po[p].e == N) continue; if ((cen[it] - po[p].p).norm() < r2 - 1e-7 * (1 + r2)) sim::violation("tet-not-delaunay", "point %u lies in the sphere around tetrahedron (%u %u %u %u)", p, v[0], v[1], v[2], v[3]); if ((p == v[1] || p == v[2] || p == v[3]) && fabs((cen[it] - po[p].p).norm() - r2) > 1e-6 * (1 + r2)) sim::violation("tet-centre", "the stored centre of a tetrahedron is not at equal distance from its corners"); } }
    if (fabs(sum - V) > 1e-8 * V) sim::violation("tet-volume", "the tetrahedra fill %.10f of %.10f", sum, V);
    for (unsigned it = 0; it < te.size(); ++it) { if (te[it].v[0] == N) continue; unsigned *v = te[it].v; for (int k = 0; k < 4; ++k) { T3 t = {v[(k + 1) % 4], v[(k + 2) % 4], v[(k + 3) % 4]}; std::sort(t.begin(), t.end()); unsigned j = te[it].s[k]; if ((f[t].first == 2) != (j != N)) sim::violation("tet-adjacency", "tetrahedron %u: face %d is shared by %d, neighbour %d", it, k, f[t].first, (int) j); if (j == N) continue; int com = 0; bool back = false; if (j >= te.size() || te[j].v[0] == N) sim::violation("tet-adjacency", "tetrahedron %u names %u, which does not exist", it, j); for (unsigned a : te[j].v) for (unsigned b : t) com += a == b; for (unsigned b : te[j].s) back |= b == it; if (com != 3 || !back) sim::violation("tet-adjacency", "tetrahedra %u and %u are not neighbours across that face", it, j); } }
    for (unsigned p = 0; p < po.size(); ++p) if (po[p].e != N && (po[p].e >= te.size() || po[p].poel > 3 || te[po[p].e].v[po[p].poel] != p)) sim::violation("tet-point-link", "point %u is linked to a tetrahedron that does not contain it", p); if (po[ip].e == N) sim::violation("tet-point-link", "the new point is not linked"); }
  uint64_t h = 3; for (auto &t : te) h = sim::hash_bytes(t.v, 16, h); sim::state(h); sim::mix(h); sim::nontrivial(); }
const sim::Scenario H02[] = {{"incremental-delaunay", 3, incremental}, {"outlines-with-holes", 4, outlines}, {"delaunay-tetrahedra", 2, tets}};
const sim::Scenario H01[] = {{"edit-histories", 4, edits}, {"delete-by-flag", 1, purge}};
}
SIM_MAIN(SIM_TABLE("H01", H01), SIM_TABLE("H02", H02))
