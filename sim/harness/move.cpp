// H05: search structures over moving geometry. A tree or grid is built once, the geometry moves step after step,
// volumes are refitted (with memory running out, restarts and rebuilds in between) and every answer is compared
// with an exhaustive pass over the geometry as it is now.
#include "geomgen.h"
#include "seams.h"
#include <memory>
#include <new>
#include <cmath>
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srch_selfintersection_bvh.h"
#include "delfem2/srchgrid.h"
#include <limits>
#include "delfem2/srch_kdtree.h"
#include "delfem2/msh_normal.h"
using namespace delfem2;
namespace {
typedef std::vector<double> VD; typedef std::vector<unsigned> VU;
using gen::V3; using gen::at;
// run f; half of the time with one allocation failing, then again without: the second attempt must do the job
template <class F> void may_fail(const char *what, F f) {
  if (sim::chance(1, 3)) { int k = 1 + (int) sim::choose(4); bool threw = false, hit = false;
    { sim::Lib l; sim::alloc_fail_at(k); try { f(); } catch (std::bad_alloc &) { threw = true; } hit = sim::alloc_failed(); sim::alloc_fail_at(0); }
    if (hit) { sim::fault("allocation failure"); sim::nontrivial(); if (!threw) sim::violation("lost-error", "%s swallowed a failed allocation", what); } else return; }
  sim::Lib l; f(); }
VD motion(const VD &rest, const VD &cur, gen::Rng &g) {   // the next shape: star-shaped about the origin if the rest shape is
  VD x = rest; int mode = (int) sim::choose(5); double s[3] = {1, 1, 1}, t[3] = {0, 0, 0}, amp = 0;
  if (mode == 0) { return cur; }
  if (mode == 1 || mode == 4) for (double &v : t) v = g.r(-3, 3);
  if (mode == 2 || mode == 4) for (double &v : s) v = g.r(.3, 2.5);
  if (mode >= 3) amp = .25;
  if (sim::chance(1, 6)) { double k = std::pow(10., g.r(-1, 2)); for (double &v : s) v *= k; sim::probe("change of scale"); }
  double a = g.r(0, 6.28), c = std::cos(a), d = std::sin(a);
  for (size_t i = 0; i + 2 < x.size(); i += 3) { double k = 1 + g.r(-amp, amp), p[3]; for (int j = 0; j < 3; ++j) p[j] = x[i + j] * k * s[j]; double u = c * p[0] - d * p[1], v = d * p[0] + c * p[1]; x[i] = u + t[0]; x[i + 1] = v + t[1]; x[i + 2] = p[2] + t[2]; }
  return x; }
// refitted volumes are those of the present geometry alone
template <class BV, class L> void same_as_fresh(const char *what, const std::vector<BV> &bb, unsigned root, const std::vector<CNodeBVH2> &n, const L &lvm) {
  std::vector<BV> f; BVH_BuildBVHGeometry(f, root, n, lvm); if (f.size() != bb.size()) sim::violation("volume-count", "%s: %zu volumes for %zu nodes", what, bb.size(), f.size());
  for (size_t i = 0; i < f.size(); ++i) { double a[6], b[6]; if constexpr (std::is_same<BV, CBV3d_Sphere>::value) { a[0] = f[i].r; b[0] = bb[i].r; for (int d = 0; d < 3; ++d) { a[1 + d] = f[i].c[d]; b[1 + d] = bb[i].c[d]; } a[4] = a[5] = b[4] = b[5] = 0; } else for (int d = 0; d < 3; ++d) { a[d] = f[i].bbmin[d]; b[d] = bb[i].bbmin[d]; a[3 + d] = f[i].bbmax[d]; b[3 + d] = bb[i].bbmax[d]; }
    for (int d = 0; d < 6; ++d) if (std::memcmp(a + d, b + d, 8)) sim::violation("volume-remembers", "%s: volume of node %zu is not the one of the present geometry (%.17g, not %.17g)", what, i, b[d], a[d]); } }
bool in_closed(const V3 &p, const VD &x, const VU &t) { double w = 0; for (size_t i = 0; i + 2 < t.size(); i += 3) { V3 a = gen::sub(at(x, t[i]), p), b = gen::sub(at(x, t[i + 1]), p), c = gen::sub(at(x, t[i + 2]), p); double la = gen::norm(a), lb = gen::norm(b), lc = gen::norm(c); w += 2 * std::atan2(gen::dot(a, gen::cross(b, c)), la * lb * lc + gen::dot(a, b) * lc + gen::dot(b, c) * la + gen::dot(c, a) * lb); } return std::fabs(w) > 6.283; }
V3 query_point(const VD &x, gen::Rng &g) { if (sim::chance(1, 3)) { V3 p = at(x, g.n((uint32_t) x.size() / 3)); return {p[0] + g.r(-.2, .2), p[1] + g.r(-.2, .2), p[2] + g.r(-.2, .2)}; }
  V3 lo = {1e9, 1e9, 1e9}, hi = {-1e9, -1e9, -1e9}; for (size_t i = 0; i < x.size(); ++i) { lo[i % 3] = std::min(lo[i % 3], x[i]); hi[i % 3] = std::max(hi[i % 3], x[i]); }
  V3 p; for (int d = 0; d < 3; ++d) p[d] = g.r(lo[d] - .5, hi[d] + .5); return p; }
// the predicates must list every element an exhaustive test of the triangles meets, each at most once
template <class BV> void list_queries(const VD &x, const VU &t, unsigned root, const std::vector<CNodeBVH2> &n, const std::vector<BV> &bb, gen::Rng &g) {
  V3 o = query_point(x, g), q = at(x, t[g.n((uint32_t) t.size())]), e = gen::sub(query_point(x, g), o); if (sim::chance(1, 2)) e = gen::sub({q[0] + g.r(-.1, .1), q[1] + g.r(-.1, .1), q[2] + g.r(-.1, .1)}, o);
  double l = gen::norm(e); if (l < 1e-3) return; for (double &v : e) v /= l;
  VU line, ray, pt;
  constexpr bool sph = std::is_same<BV, CBV3d_Sphere>::value;   // boxes have no line and ray tests
  if constexpr (sph) may_fail("list of elements on a line", [&] { line.clear(); BVH_GetIndElem_Predicate(line, CIsBV_IntersectLine<BV, double>(o.data(), e.data()), root, n, bb); });
  if constexpr (sph) may_fail("list of elements on a ray", [&] { ray.clear(); BVH_GetIndElem_Predicate(ray, CIsBV_IntersectRay<BV>(o.data(), e.data()), root, n, bb); });
  V3 c; { unsigned k = g.n((uint32_t) t.size() / 3); double a = g.r(.05, .5), b = g.r(.05, .4); V3 A = at(x, t[k * 3]), B = at(x, t[k * 3 + 1]), C = at(x, t[k * 3 + 2]); for (int d = 0; d < 3; ++d) c[d] = A[d] * (1 - a - b) + B[d] * a + C[d] * b;
    may_fail("list of elements at a point", [&] { pt.clear(); BVH_GetIndElem_Predicate(pt, CIsBV_IncludePoint<BV>(c.data()), root, n, bb); });
    if (std::find(pt.begin(), pt.end(), k) == pt.end()) sim::violation("point-misses-element", "the search at a point of triangle %u does not list it (%zu listed)", k, pt.size()); }
  auto once = [&](const char *w, const VU &v) { std::set<unsigned> s; for (unsigned i : v) { if (i >= t.size() / 3) sim::violation("bad-element", "%s lists element %u of %zu", w, i, t.size() / 3); if (!s.insert(i).second) sim::violation("listed-twice", "%s lists element %u twice", w, i); } return s; };
  std::set<unsigned> sl = once("line search", line), sr = once("ray search", ray); once("point search", pt); unsigned hits = 0;
  for (unsigned k = 0; k < t.size() / 3; ++k) { double z; V3 A = at(x, t[k * 3]), B = at(x, t[k * 3 + 1]), C = at(x, t[k * 3 + 2]); V3 m = {-e[0], -e[1], -e[2]};
    int f = gen::ray_tri(o, e, A, B, C, z), b = gen::ray_tri(o, m, A, B, C, z);
    if (sph && (f > 0 || b > 0) && !sl.count(k)) sim::violation("line-misses-element", "triangle %u is hit by the line but not listed (%zu listed)", k, line.size());
    if (sph && f > 0 && !sr.count(k)) sim::violation("ray-misses-element", "triangle %u is hit by the ray but not listed (%zu listed)", k, ray.size()); hits += f > 0 || b > 0; }
  sim::mix(sim::hash_u64(line.size() * 64 + pt.size(), hits)); if (hits) sim::probe("line hits the moved mesh"); }

void moving_mesh() {
  gen::Rng g = gen::rng(); std::unique_ptr<CBVH_MeshTri3D<CBV3d_Sphere, double>> bvh(new CBVH_MeshTri3D<CBV3d_Sphere, double>());
  gen::Mesh m; bool closed = false; VD cur; double margin = 0;
  auto fresh = [&] { closed = sim::chance(1, 2); if (closed) m = gen::sphere(1 + (int) sim::choose(2), 0.8); else do m = gen::any_mesh(g, (int) sim::choose(2)); while (m.tri.size() < 6); closed = closed || false; cur = m.xyz; margin = sim::chance(1, 2) ? 0. : g.r(0, .1);
    may_fail("Init", [&] { bvh->Init(cur.data(), cur.size() / 3, m.tri.data(), m.tri.size() / 3, margin); }); };
  fresh(); int steps = 2 + (int) sim::choose(7);
  for (int s = 0; s < steps; ++s) { sim::vtime(1);
    uint32_t act = sim::choose(8);
    if (act == 7) { sim::fault("rebuilt for another mesh"); fresh(); }
    else { cur = motion(m.xyz, cur, g); if (sim::chance(1, 4)) margin = g.r(0, .3);
      if (act == 6) { sim::fault("restart"); bvh.reset(new CBVH_MeshTri3D<CBV3d_Sphere, double>()); may_fail("Init", [&] { bvh->Init(cur.data(), cur.size() / 3, m.tri.data(), m.tri.size() / 3, margin); }); }
      else may_fail("UpdateGeometry", [&] { bvh->UpdateGeometry(cur.data(), cur.size() / 3, m.tri.data(), m.tri.size() / 3, margin); }); }
    if (s) sim::nontrivial();
    same_as_fresh("mesh tree", bvh->aBB_BVH, bvh->iroot_bvh, bvh->aNodeBVH, CLeafVolumeMaker_Mesh<CBV3d_Sphere, double>(margin, cur.data(), cur.size() / 3, m.tri.data(), m.tri.size() / 3, 3));
    VD nrm; if (closed) { nrm.resize(cur.size()); Normal_MeshTri3D(nrm.data(), cur.data(), cur.size() / 3, m.tri.data(), m.tri.size() / 3); }
    for (int k = 0; k < 4; ++k) { V3 p = query_point(cur, g); double d = gen::dist_mesh(p, cur, m.tri), scale = 1 + gen::norm(p);
      PointOnSurfaceMesh<double> pes = bvh->NearestPoint_Global(CVec3d(p[0], p[1], p[2]), cur, m.tri); if (pes.itri >= m.tri.size() / 3) sim::violation("no-nearest", "step %d: nearest element %u of %zu", s, pes.itri, m.tri.size() / 3);
      CVec3d q = pes.PositionOnMeshTri3(cur, m.tri); double e = gen::norm(gen::sub({q.x, q.y, q.z}, p)); if (!(std::fabs(e - d) < 1e-7 * scale)) sim::violation("not-nearest", "step %d: the answer is %.12g away, the nearest point of the mesh %.12g", s, e, d);
      double lo = 1, hi = -1; BVH_Range_DistToNearestPoint(lo, hi, p.data(), bvh->iroot_bvh, bvh->aNodeBVH, bvh->aBB_BVH); if (!(lo <= d + 1e-9 * scale && hi >= d - 1e-9 * scale)) sim::violation("range-misses-nearest", "step %d: distance %.12g outside of the range %.12g to %.12g", s, d, lo, hi);
      double a = std::max(0., d + g.r(-.3, .1)), b = d + g.r(0.001, .2); if (a <= d) { VU in; may_fail("list of elements in a range", [&] { in.clear(); BVH_GetIndElem_Predicate(in, CIsBV_InsideRange<CBV3d_Sphere>(p.data(), a, b), bvh->iroot_bvh, bvh->aNodeBVH, bvh->aBB_BVH); });
        std::set<unsigned> l(in.begin(), in.end()); for (unsigned i = 0; i < m.tri.size() / 3; ++i) { double di = gen::dist_tri(p, at(cur, m.tri[i * 3]), at(cur, m.tri[i * 3 + 1]), at(cur, m.tri[i * 3 + 2])); if (di > a + 1e-9 && di < b - 1e-9 && !l.count(i)) sim::violation("range-misses-element", "triangle %u at distance %g is not listed for the range %g to %g", i, di, a, b); } }
      double rad = g.r(0, .3); PointOnSurfaceMesh<double> pin; double din = bvh->Nearest_Point_IncludedInBVH(pin, CVec3d(p[0], p[1], p[2]), rad, cur.data(), cur.size() / 3, m.tri.data(), m.tri.size() / 3);
      if (margin > 1e-6 && d < margin * .999999 && (pin.itri == UINT_MAX || std::fabs(din - d) > 1e-7 * scale)) sim::violation("not-nearest-included", "step %d: the mesh is %.12g away, within the margin %g, but the search reports %.12g", s, d, margin, din);
      if (pin.itri == UINT_MAX && din > d + 1e-9 * scale) { if (d < rad) sim::violation("clearance", "step %d: clearance %.12g reported where the mesh is %.12g away", s, din, d); }
      if (closed && d > 1e-4) { CVec3d n0; double sd = 0; bool done = false; may_fail("signed distance", [&] { sd = bvh->SignedDistanceFunction(n0, CVec3d(p[0], p[1], p[2]), cur, m.tri, nrm); done = true; }); if (done) { bool in = in_closed(p, cur, m.tri); sim::mix(in); if (in) sim::probe("query inside the moved mesh");
          if (std::fabs(std::fabs(sd) - d) > 1e-7 * scale || (sd > 0) != in) sim::violation("signed-distance", "step %d: %.12g for a point %s at distance %.12g", s, sd, in ? "inside" : "outside", d);
          CVec3d h = q + (sd < 0 ? 1. : -1.) * std::fabs(sd) * n0; if (gen::norm(gen::sub({h.x, h.y, h.z}, p)) > 1e-6 * scale && std::fabs(n0.norm() - 1) < 1e-6 ) { V3 z = gen::sub(p, {q.x, q.y, q.z}); double zn = gen::dot(z, {n0.x, n0.y, n0.z}); if ((zn > 0) == in) sim::violation("sdf-normal", "step %d: normal (%g %g %g) points the wrong way", s, n0.x, n0.y, n0.z); } } }
      sim::mix(pes.itri); sim::state(sim::hash_u64(pes.itri, sim::hash_u64(s, (uint64_t) (d * 1e6)))); }
    list_queries(cur, m.tri, bvh->iroot_bvh, bvh->aNodeBVH, bvh->aBB_BVH, g); } }

// the generic functions: any volume, either topology
template <class BV> void generic_tree() {
  gen::Rng g = gen::rng(); gen::Mesh m; do m = gen::any_mesh(g, (int) sim::choose(2)); while (m.tri.size() < 6); VD cur = m.xyz; std::vector<CNodeBVH2> n; std::vector<BV> bb; unsigned root = 0; bool morton = sim::chance(1, 2);
  auto build = [&] { may_fail("construction", [&] { n.clear(); bb.clear(); root = 0; if (morton) ConstructBVHTriangleMeshMortonCode(n, bb, cur, m.tri); else { std::vector<double> c; VU su; ElSuEl_MeshElem(su, m.tri.data(), m.tri.size() / 3, MESHELEM_TRI, cur.size() / 3); for (size_t i = 0; i + 2 < m.tri.size(); i += 3) for (int d = 0; d < 3; ++d) c.push_back((cur[m.tri[i] * 3 + d] + cur[m.tri[i + 1] * 3 + d] + cur[m.tri[i + 2] * 3 + d]) / 3); root = (unsigned) BVHTopology_TopDown_MeshElem(n, 3, su, c); CLeafVolumeMaker_Mesh<BV, double> lvm(1e-10, cur.data(), cur.size() / 3, m.tri.data(), m.tri.size() / 3, 3); BVH_BuildBVHGeometry(bb, root, n, lvm); } }); };
  build(); int steps = 2 + (int) sim::choose(6);
  for (int s = 0; s < steps; ++s) { sim::vtime(1); if (s) sim::nontrivial(); cur = motion(m.xyz, cur, g);
    if (sim::chance(1, 6)) { sim::fault("restart"); morton = sim::chance(1, 2); build(); }
    else may_fail("refit", [&] { if (sim::chance(1, 6)) bb.clear(); CLeafVolumeMaker_Mesh<BV, double> lvm(1e-10, cur.data(), cur.size() / 3, m.tri.data(), m.tri.size() / 3, 3); BVH_BuildBVHGeometry(bb, root, n, lvm); });
    same_as_fresh("tree", bb, root, n, CLeafVolumeMaker_Mesh<BV, double>(1e-10, cur.data(), cur.size() / 3, m.tri.data(), m.tri.size() / 3, 3));
    for (int k = 0; k < 3; ++k) list_queries(cur, m.tri, root, n, bb, g); } }
void tree_sphere() { generic_tree<CBV3d_Sphere>(); }
void tree_aabb() { generic_tree<CBV3d_AABB>(); }

void moving_points() {
  gen::Rng g = gen::rng(); unsigned np = 2 + sim::choose(60); VD rest(np * 3); for (double &v : rest) v = g.r(-1, 1); VD cur = rest; std::vector<CNodeBVH2> n; std::vector<CBV3d_Sphere> bb;
  auto topo = [&] { may_fail("topology", [&] { std::vector<unsigned> id; std::vector<std::uint32_t> mc; double lo[3] = {-9, -9, -9}, hi[3] = {9, 9, 9}; n.clear(); SortedMortenCode_Points3(id, mc, cur, lo, hi); BVHTopology_Morton(n, id, mc); }); };
  topo(); int steps = 2 + (int) sim::choose(7);
  for (int s = 0; s < steps; ++s) { sim::vtime(1); if (s) { cur = motion(rest, cur, g); sim::nontrivial(); } if (sim::chance(1, 6)) { sim::fault("restart"); bb.clear(); topo(); }
    may_fail("refit", [&] { CLeafVolumeMaker_Point<CBV3d_Sphere, double> lvm(cur.data(), np); BVH_BuildBVHGeometry(bb, 0u, n, lvm); });
    same_as_fresh("point tree", bb, 0u, n, CLeafVolumeMaker_Point<CBV3d_Sphere, double>(cur.data(), np));
    for (int k = 0; k < 6; ++k) { V3 p = query_point(cur, g); if (k == 5) p = at(cur, g.n(np)); unsigned ip = UINT_MAX; double d = -1; BVH_IndPoint_NearestPoint(ip, d, p.data(), 0u, n, bb); double best = 1e300; for (unsigned i = 0; i < np; ++i) best = std::min(best, gen::norm(gen::sub(at(cur, i), p)));
      if (ip >= np) sim::violation("no-nearest-point", "step %d: nearest point %u of %u", s, ip, np); double e = gen::norm(gen::sub(at(cur, ip), p)); if (std::fabs(e - best) > 1e-9 * (1 + gen::norm(p)) || std::fabs(d - best) > 1e-9 * (1 + gen::norm(p))) sim::violation("not-nearest-point", "step %d: point %u is %.12g away (reported %.12g), the nearest %.12g", s, ip, e, d, best);
      double lo = 1, hi = -1; BVH_Range_DistToNearestPoint(lo, hi, p.data(), 0u, n, bb); if (std::fabs(lo - best) > 1e-9 * (1 + gen::norm(p)) || std::fabs(hi - best) > 1e-9 * (1 + gen::norm(p))) sim::violation("point-range", "step %d: range %.12g to %.12g for the nearest distance %.12g", s, lo, hi, best); sim::mix(ip); sim::state(sim::hash_u64(ip, s)); } } }

// the point kd-tree: built anew at every step, for points at any scale, repeated points included
void kd_tree() {
  gen::Rng g = gen::rng(); unsigned np = 1 + sim::choose(60); VD rest(np * 3); for (double &v : rest) v = g.r(-1, 1); if (sim::chance(1, 3)) for (unsigned k = 0; k < np / 2; ++k) { unsigned a = g.n(np), b = g.n(np), d = g.n(3); for (unsigned j = 0; j <= d; ++j) rest[a * 3 + j] = rest[b * 3 + j]; } VD cur = rest; int steps = 1 + (int) sim::choose(4);
  for (int s = 0; s < steps; ++s) { sim::vtime(1); if (s || sim::chance(1, 2)) { cur = motion(rest, cur, g); sim::nontrivial(); } std::vector<CVec3d> pts; for (unsigned i = 0; i < np; ++i) pts.emplace_back(cur[i * 3], cur[i * 3 + 1], cur[i * 3 + 2]);
    KDTNodePoint<CVec3d> *root = nullptr; may_fail("ConstructKDT", [&] { root = ConstructKDT<CVec3d, double>(pts); }); double ext = 0; for (double c : cur) ext = std::max(ext, std::fabs(c));
    for (int k = 0; k < 8; ++k) { V3 p = query_point(cur, g); if (k == 6) p = at(cur, g.n(np)); if (k == 7) for (int d = 0; d < 3; ++d) p[d] = g.r(-4, 4) * ext; double best = 1e300; for (unsigned i = 0; i < np; ++i) best = std::min(best, gen::norm(gen::sub(at(cur, i), p)));
      double r = 1e300; CVec3d a = k & 1 ? SearchNearstPoint<CVec3d, double>(root, CVec3d(p[0], p[1], p[2])) : SearchNearstPoint<CVec3d, double>(root, CVec3d(p[0], p[1], p[2]), 0, r); double e = gen::norm(gen::sub({a.x, a.y, a.z}, p)), tol = 1e-9 * (1 + ext + gen::norm(p));
      bool is = false; for (auto &q : pts) is = is || (q.x == a.x && q.y == a.y && q.z == a.z); if (!is) sim::violation("no-nearest-point", "step %d: the kd-tree answers %g %g %g, which is none of the points", s, a.x, a.y, a.z);
      if (std::fabs(e - best) > tol || (!(k & 1) && std::fabs(r - best) > tol)) sim::violation("not-nearest-point", "step %d: the kd-tree answers a point %.12g away (reported %.12g), the nearest is %.12g away", s, e, r, best); sim::mix((uint64_t) (e * 1e6)); sim::state(sim::hash_u64((uint64_t) (e * 1e6), s)); }
    DeleteKDT<CVec3d, double>(root); } }
void hash_grid() {
  gen::Rng g = gen::rng(); SearchGrid sg; VD cur; unsigned np = 0; double h = 1, lo[3], hi[3]; bool initial = true;
  auto init = [&] { np = sim::choose(60); h = g.r(.15, .8); for (int d = 0; d < 3; ++d) { lo[d] = g.r(-2, -.3); hi[d] = lo[d] + g.r(.2, 3); } cur.assign(np * 3, 0); for (unsigned i = 0; i < np * 3; ++i) cur[i] = g.r(lo[i % 3], hi[i % 3]); may_fail("Initialize", [&] { sg.Initialize(lo, hi, h, np); }); for (unsigned i = 0; i < np; ++i) sg.aGrid2Obj[i].iobj = i; initial = true; };
  init(); int steps = 2 + (int) sim::choose(8); std::vector<unsigned> nb;
  for (int s = 0; s < steps; ++s) { sim::vtime(1); if (s) { sim::nontrivial(); if (sim::chance(1, 6)) { sim::fault("rebuilt for other bounds"); init(); } else { double a = sim::chance(1, 3) ? 2. : h * .7; for (unsigned i = 0; i < np * 3; ++i) { cur[i] += g.r(-a, a); cur[i] = std::min(std::max(cur[i], lo[i % 3] - .1), hi[i % 3] + .1); } } }
    if (sim::chance(1, 6)) initial = true;
    may_fail("PostProcess", [&] { for (auto &o : sg.aGrid2Obj) o.igrid = sg.GetGridIndex(cur.data() + o.iobj * 3); sg.PostProcess(initial); }); initial = false;
    for (int k = 0; k < 4; ++k) { V3 p; if (np && sim::chance(1, 2)) p = at(cur, g.n(np)); else for (int d = 0; d < 3; ++d) p[d] = g.r(lo[d], hi[d]); may_fail("GetOneRingNeighbor", [&] { sg.GetOneRingNeighbor(nb, p.data()); });
      std::set<unsigned> st; for (unsigned i : nb) { if (i >= np) sim::violation("bad-object", "step %d: object %u of %u", s, i, np); if (!st.insert(i).second) sim::violation("object-twice", "step %d: object %u listed twice", s, i); }
      for (unsigned i = 0; i < np; ++i) { V3 q = at(cur, i); bool inside = true; for (int d = 0; d < 3; ++d) inside = inside && q[d] >= lo[d] && q[d] <= hi[d] && p[d] >= lo[d] && p[d] <= hi[d]; if (inside && gen::norm(gen::sub(q, p)) < h * .999999 && !st.count(i)) sim::violation("neighbour-missed", "step %d: object %u is %g away, the cell size is %g, and not listed", s, i, gen::norm(gen::sub(q, p)), h);
        if (inside && st.count(i)) for (int d = 0; d < 3; ++d) if (std::fabs(q[d] - p[d]) > 2 * h * 1.000001) sim::violation("far-object", "step %d: object %u is listed but %g cells away", s, i, std::fabs(q[d] - p[d]) / h); }
      sim::mix(nb.size()); sim::state(sim::hash_u64(nb.size(), s)); } } }

// self contact of a moving, folded cloth
typedef std::array<int, 5> Ce;
Ce key(bool fv, int a, int b, int c, int d) { if (fv) { int v[3] = {a, b, c}; std::sort(v, v + 3); return {1, v[0], v[1], v[2], d}; } if (a > b) std::swap(a, b); if (c > d) std::swap(c, d); if (c < a) { std::swap(a, c); std::swap(b, d); } return {0, a, b, c, d}; }
std::set<Ce> keys(const std::set<CContactElement> &s) { std::set<Ce> r; for (auto &c : s) r.insert(key(c.is_fv, c.ino0, c.ino1, c.ino2, c.ino3)); return r; }
// do a corner and a face (or two edges) meet while their points move straight from s to e? 1 yes, 0 too close to call, -1 no
int meet(bool fv, const V3 s[4], const V3 e[4]) {
  auto f = [&](double t) { V3 p[4]; for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) p[i][d] = (1 - t) * s[i][d] + t * e[i][d]; return gen::dot(gen::cross(gen::sub(p[1], p[0]), gen::sub(p[2], p[0])), gen::sub(p[3], p[0])); };
  double sc = 0; for (int i = 1; i < 4; ++i) sc = std::max(sc, std::max(gen::norm(gen::sub(s[i], s[0])), gen::norm(gen::sub(e[i], e[0])))); double eps = 1e-5 * sc * sc * sc;
  // the cubic k1 t + k2 t^2 + k3 t^3 + f(0) by its values, its turning points, its roots
  double k0 = f(0), A = f(1) - k0, B = f(.5) - k0, C = f(2) - k0, k1 = (8 * B - 3 * A + C / 4) / 1.5, k2 = 8 * B - A - 3 * k1, k3 = A - k1 - k2;
  std::vector<double> cut = {0}; { double a = 3 * k3, b = 2 * k2, c = k1; if (std::fabs(a) > 1e-12 * sc * sc * sc) { double D = b * b - 4 * a * c; if (D > 0) { double q = std::sqrt(D), u = (-b - q) / (2 * a), v = (-b + q) / (2 * a); if (u > v) std::swap(u, v); for (double t : {u, v}) if (t > 0 && t < 1) cut.push_back(t); } } else if (std::fabs(b) > 1e-12 * sc * sc * sc) { double t = -c / b; if (t > 0 && t < 1) cut.push_back(t); } } cut.push_back(1);
  for (double t : cut) if (std::fabs(f(t)) < eps) return 0;
  int roots = 0, sure = 0, open = 0, first = 0; for (size_t i = 0; i + 1 < cut.size(); ++i) { double lo = cut[i], hi = cut[i + 1], fl = f(lo); if (fl * f(hi) > 0) continue; ++roots; for (int k = 0; k < 60; ++k) { double m = .5 * (lo + hi), fm = f(m); if (fl * fm <= 0) hi = m; else { lo = m; fl = fm; } } double t = .5 * (lo + hi); V3 p[4]; for (int k = 0; k < 4; ++k) for (int d = 0; d < 3; ++d) p[k][d] = (1 - t) * s[k][d] + t * e[k][d];
    double mn; if (fv) { V3 N = gen::cross(gen::sub(p[1], p[0]), gen::sub(p[2], p[0])); double nn = gen::dot(N, N), l = std::max(gen::norm(gen::sub(p[1], p[0])), gen::norm(gen::sub(p[2], p[0]))); if (nn < 1e-2 * l * l * l * l) { ++open; continue; } double w0 = gen::dot(gen::cross(gen::sub(p[1], p[3]), gen::sub(p[2], p[3])), N) / nn, w1 = gen::dot(gen::cross(gen::sub(p[2], p[3]), gen::sub(p[0], p[3])), N) / nn; mn = std::min(std::min(w0, w1), 1 - w0 - w1); }
    else { V3 u = gen::sub(p[1], p[0]), v = gen::sub(p[3], p[2]), w = gen::sub(p[0], p[2]); double a2 = gen::dot(u, u), b2 = gen::dot(u, v), c2 = gen::dot(v, v), D2 = a2 * c2 - b2 * b2; if (D2 < 1e-2 * a2 * c2) { ++open; continue; } double rp = (b2 * gen::dot(v, w) - c2 * gen::dot(u, w)) / D2, rq = (a2 * gen::dot(v, w) - b2 * gen::dot(u, w)) / D2; mn = std::min(std::min(rp, 1 - rp), std::min(rq, 1 - rq)); }
    if (mn > 1e-2) { ++sure; if (roots == 1) first = 1; } else if (mn > -1e-2) ++open; }
  if (sure == roots && roots) return 1; if (roots == 2 && first) return 1; if (open || sure) return 0; return -1; }   // of several moments with the four points in one plane the library looks at one: the first of two
template <class BV> void self_contact() {
  gen::Rng g = gen::rng(); int nx = 2 + (int) sim::choose(3), ny = 2 + (int) sim::choose(4); gen::Mesh m = gen::grid(nx, ny, g, 0); if (sim::chance(1, 4)) { unsigned o = (unsigned) m.xyz.size() / 3; gen::Mesh b = gen::grid(2, 2, g, 0); for (double v : b.xyz) m.xyz.push_back(v); for (unsigned v : b.tri) m.tri.push_back(v + o); }
  unsigned np = (unsigned) m.xyz.size() / 3; VD cur, vel(np * 3); std::vector<CNodeBVH2> n; std::vector<BV> bb; int root = 0; const VU &t = m.tri; unsigned nt = (unsigned) t.size() / 3;
  auto shape = [&] { cur = m.xyz; double k = g.r(0, 3.3); for (unsigned i = 0; i < np; ++i) { double y = cur[i * 3 + 1] * k; double r = 1. / std::max(k, .1); cur[i * 3 + 1] = r * std::sin(y); cur[i * 3 + 2] = r * (1 - std::cos(y)); for (int d = 0; d < 3; ++d) cur[i * 3 + d] += g.r(-.08, .08); } };
  shape(); may_fail("topology", [&] { std::vector<double> c; VU su; ElSuEl_MeshElem(su, t.data(), nt, MESHELEM_TRI, np); for (unsigned i = 0; i < nt * 3; i += 3) for (int d = 0; d < 3; ++d) c.push_back((cur[t[i] * 3 + d] + cur[t[i + 1] * 3 + d] + cur[t[i + 2] * 3 + d]) / 3); n.clear(); root = BVHTopology_TopDown_MeshElem(n, 3, su, c); });
  int steps = 1 + (int) sim::choose(5);
  auto P = [&](unsigned i) { return CVec3d(cur[i * 3], cur[i * 3 + 1], cur[i * 3 + 2]); };
  for (int s = 0; s < steps; ++s) { sim::vtime(1); if (s) { sim::nontrivial(); if (sim::chance(1, 2)) shape(); else for (double &v : cur) v += g.r(-.1, .1); }
    double delta = g.r(.02, .3), dt = g.r(.05, 1);
    if (sim::chance(2, 3)) { // proximity, against my own definition
      std::set<CContactElement> set; may_fail("proximity search", [&] { set.clear(); CLeafVolumeMaker_Mesh<BV, double> lvm(delta * .5, cur.data(), np, t.data(), nt, 3); BVH_BuildBVHGeometry(bb, (unsigned) root, n, lvm); GetContactElement_Proximity(set, delta, cur, t, root, n, bb); });
      same_as_fresh("proximity tree", bb, root, n, CLeafVolumeMaker_Mesh<BV, double>(delta * .5, cur.data(), np, t.data(), nt, 3));
      std::map<Ce, int> want;   // 1: contact, 0: too close to call
      for (unsigned i = 0; i < nt; ++i) for (unsigned j = 0; j < nt; ++j) if (i != j) for (int k = 0; k < 3; ++k) { unsigned a = t[i * 3], b = t[i * 3 + 1], c = t[i * 3 + 2], d = t[j * 3 + k];
        if (d != a && d != b && d != c) { V3 A = at(cur, a), B = at(cur, b), C = at(cur, c), D = at(cur, d), N = gen::cross(gen::sub(B, A), gen::sub(C, A)); double nn = gen::norm(N); if (nn > 1e-6) { double hgt = std::fabs(gen::dot(gen::sub(D, A), N)) / nn; double w0 = gen::dot(gen::cross(gen::sub(B, D), gen::sub(C, D)), N) / (nn * nn), w1 = gen::dot(gen::cross(gen::sub(C, D), gen::sub(A, D)), N) / (nn * nn), w2 = 1 - w0 - w1; double mn = std::min(std::min(w0, w1), std::min(w2, (delta - hgt) / delta)); if (mn > -1e-6) { auto &w = want[key(true, a, b, c, d)]; w = std::max(w, mn > 1e-6 ? 1 : 0); } } }
        for (int l = 0; l < 3; ++l) { unsigned p0 = t[i * 3 + l], p1 = t[i * 3 + (l + 1) % 3], q0 = d, q1 = t[j * 3 + (k + 1) % 3]; if (p0 == q0 || p0 == q1 || p1 == q0 || p1 == q1) continue; V3 X = at(cur, p0), Y = at(cur, q0), u = gen::sub(at(cur, p1), X), v = gen::sub(at(cur, q1), Y), w = gen::sub(X, Y); double a2 = gen::dot(u, u), b2 = gen::dot(u, v), c2 = gen::dot(v, v), D2 = a2 * c2 - b2 * b2; if (D2 < 1e-8) { want.emplace(key(false, (int) p0, (int) p1, (int) q0, (int) q1), 0); continue; }
          double rp = (b2 * gen::dot(v, w) - c2 * gen::dot(u, w)) / D2, rq = (a2 * gen::dot(v, w) - b2 * gen::dot(u, w)) / D2, di = gen::norm(gen::sub(gen::add(X, u, rp), gen::add(Y, v, rq))); double mn = std::min(std::min(std::min(rp, 1 - rp), std::min(rq, 1 - rq)), (delta - di) / delta); if (mn > -1e-6) { auto &z = want[key(false, (int) p0, (int) p1, (int) q0, (int) q1)]; z = std::max(z, mn > 1e-6 ? 1 : 0); } } }
      std::set<Ce> got = keys(set); if (got.size() != set.size()) sim::violation("contact-twice", "step %d: %zu contacts listed, %zu different", s, set.size(), got.size());
      for (auto &w : want) if (w.second && !got.count(w.first)) sim::violation("contact-missed", "step %d: %s contact of points %d %d %d %d within %g is not found (%zu found)", s, w.first[0] ? "face-vertex" : "edge-edge", w.first[1], w.first[2], w.first[3], w.first[4], delta, got.size());
      for (auto &c : got) if (!want.count(c)) sim::violation("contact-invented", "step %d: %s contact of points %d %d %d %d within %g does not exist", s, c[0] ? "face-vertex" : "edge-edge", c[1], c[2], c[3], c[4], delta);
      if (!got.empty()) sim::probe("proximity contact"); sim::mix(got.size()); sim::state(sim::hash_u64(got.size(), s)); }
    if (sim::chance(2, 3)) { // continuous collision: the tree must find what the element tests find over all pairs
      double sp = g.r(.1, 1.5); for (double &v : vel) v = g.r(-sp, sp); std::set<CContactElement> set;
      may_fail("collision search", [&] { set.clear(); CLeafVolumeMaker_DynamicTriangle<BV, double> lvm(dt, cur, vel, t, 1e-10); BVH_BuildBVHGeometry(bb, (unsigned) root, n, lvm); GetContactElement_CCD(set, dt, delta, cur, vel, t, root, n, bb); });
      same_as_fresh("collision tree", bb, root, n, CLeafVolumeMaker_DynamicTriangle<BV, double>(dt, cur, vel, t, 1e-10));
      auto Q = [&](unsigned i) { return CVec3d(cur[i * 3] + dt * vel[i * 3], cur[i * 3 + 1] + dt * vel[i * 3 + 1], cur[i * 3 + 2] + dt * vel[i * 3 + 2]); }; std::map<Ce, int> want;
      std::vector<BV> box(nt); CLeafVolumeMaker_DynamicTriangle<BV, double> lvm(dt, cur, vel, t, 1e-10); for (unsigned i = 0; i < nt; ++i) lvm.SetVolume(box[i], i);
      for (unsigned i = 0; i < nt; ++i) for (unsigned j = 0; j < nt; ++j) if (i != j) for (int k = 0; k < 3; ++k) { int a = t[i * 3], b = t[i * 3 + 1], c = t[i * 3 + 2], d = t[j * 3 + k];
        auto moved = [&](int w) { V3 x = at(cur, w), v = at(vel, w); for (int q = 0; q < 3; ++q) x[q] += dt * v[q]; return x; }; auto judge = [&](bool fv, int w, int x, int y, int z, bool got) { if (w == x || w == y || w == z || x == y || x == z || y == z) return; V3 S[4] = {at(cur, w), at(cur, x), at(cur, y), at(cur, z)}, E[4] = {moved(w), moved(x), moved(y), moved(z)}; int m2 = meet(fv, S, E); if (m2) sim::probe(m2 > 0 ? "surely meets" : "surely passes"); if (m2 > 0 && !got) sim::violation("collision-undetected", "step %d: %s %d %d %d %d meet on the way, and the element test denies it", s, fv ? "face and vertex" : "edges", w, x, y, z); if (m2 < 0 && got) sim::violation("collision-imagined", "step %d: %s %d %d %d %d never meet, and the element test says so", s, fv ? "face and vertex" : "edges", w, x, y, z); };
        if ((i + j + s) % 8 == 0 || box[i].IsIntersect(box[j])) { judge(true, a, b, c, d, IsContact_FV_CCD(a, b, c, d, P(a), P(b), P(c), P(d), Q(a), Q(b), Q(c), Q(d), box[i])); for (int l = 0; l < 3 && i < j; ++l) { int p0 = t[i * 3 + l], p1 = t[i * 3 + (l + 1) % 3], q0 = d, q1 = t[j * 3 + (k + 1) % 3]; judge(false, p0, p1, q0, q1, IsContact_EE_CCD<BV>(p0, p1, q0, q1, P(p0), P(p1), P(q0), P(q1), Q(p0), Q(p1), Q(q0), Q(q1))); } }
        if (IsContact_FV_CCD(a, b, c, d, P(a), P(b), P(c), P(d), Q(a), Q(b), Q(c), Q(d), box[i])) want[key(true, a, b, c, d)] |= 1;
        for (int l = 0; l < 3; ++l) { int p0 = t[i * 3 + l], p1 = t[i * 3 + (l + 1) % 3], q0 = d, q1 = t[j * 3 + (k + 1) % 3]; if (IsContact_EE_CCD<BV>(p0, p1, q0, q1, P(p0), P(p1), P(q0), P(q1), Q(p0), Q(p1), Q(q0), Q(q1))) want[key(false, p0, p1, q0, q1)] |= i < j ? 1 : 2; } }
      std::set<Ce> got = keys(set); if (got.size() != set.size()) sim::violation("collision-twice", "step %d: %zu collisions listed, %zu different", s, set.size(), got.size());
      for (auto &w : want) if (!got.count(w.first) && (w.first[0] || w.second == 3)) sim::violation("collision-missed", "step %d: %s collision of points %d %d %d %d is not found (%zu found)", s, w.first[0] ? "face-vertex" : "edge-edge", w.first[1], w.first[2], w.first[3], w.first[4], got.size());
      for (auto &c : got) if (!want.count(c)) sim::violation("collision-invented", "step %d: %s collision of points %d %d %d %d does not exist", s, c[0] ? "face-vertex" : "edge-edge", c[1], c[2], c[3], c[4]);
      if (!got.empty()) sim::probe("collision in the step"); sim::mix(got.size()); sim::state(sim::hash_u64(got.size(), s + 100)); }
    if (sim::chance(1, 2)) { std::vector<CIntersectTriPair<double>> pr; may_fail("intersection search", [&] { pr.clear(); CLeafVolumeMaker_Mesh<BV, double> lvm(1e-10, cur.data(), np, t.data(), nt, 3); BVH_BuildBVHGeometry(bb, (unsigned) root, n, lvm); GetIntersectTriPairs(pr, cur, t, root, n, bb); });
      std::set<std::pair<int, int>> got; for (auto &p : pr) { if (p.itri == p.jtri || !got.insert({std::min(p.itri, p.jtri), std::max(p.itri, p.jtri)}).second) sim::violation("pair-twice", "step %d: triangles %d and %d listed twice", s, p.itri, p.jtri); }
      for (unsigned i = 0; i < nt; ++i) for (unsigned j = i + 1; j < nt; ++j) { bool share = false; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) share = share || t[i * 3 + a] == t[j * 3 + b]; int hit = -1;
        if (!share) for (int s2 = 0; s2 < 2; ++s2) for (int k = 0; k < 3; ++k) { unsigned u = s2 ? j : i, w = s2 ? i : j; V3 A = at(cur, t[u * 3 + k]), B = at(cur, t[u * 3 + (k + 1) % 3]), d = gen::sub(B, A); double L = gen::norm(d), z; if (L < 1e-6) { hit = std::max(hit, 0); continue; } for (double &v : d) v /= L; int r = gen::ray_tri(A, d, at(cur, t[w * 3]), at(cur, t[w * 3 + 1]), at(cur, t[w * 3 + 2]), z); if (r > 0) r = z < L - 1e-6 ? 1 : z < L + 1e-6 ? 0 : -1; hit = std::max(hit, r); }
        bool g2 = got.count({(int) i, (int) j}) != 0; if (hit == 1 && !g2) sim::violation("pair-missed", "step %d: triangles %u and %u cross and are not listed", s, i, j); if (hit == -1 && g2) sim::violation("pair-invented", "step %d: triangles %u and %u do not touch and are listed", s, i, j); }
      if (!pr.empty()) sim::probe("crossing triangles"); sim::mix(pr.size()); } } }

const sim::Scenario H05[] = {{"moving-mesh", 4, moving_mesh}, {"tree-spheres", 2, tree_sphere}, {"tree-boxes", 2, tree_aabb}, {"moving-points", 2, moving_points}, {"kd-tree", 2, kd_tree}, {"hash-grid", 2, hash_grid}, {"self-contact, boxes", 3, self_contact<CBV3d_AABB>}, {"self-contact, spheres", 2, self_contact<CBV3d_Sphere>}};
} // namespace
SIM_MAIN(SIM_TABLE("H05", H05))
