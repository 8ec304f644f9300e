// T03: image ray casting, parallel == exhaustive search, for every schedule.
#include "sim.h"
#include "simsched.h"
#include "geomgen.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include <thread>
namespace sc = sim::sched; namespace dfm2 = delfem2; using gen::V3;
namespace {
typedef dfm2::PointOnSurfaceMesh<double> PES;
struct Img { unsigned w, h; double mvp[16]; };
Img camera(gen::Rng &g) {
  Img c; c.w = 1 + sim::choose(9); c.h = 1 + sim::choose(9);
  double ax = g.r(-3, 3), ay = g.r(-3, 3), z = g.r(1.0, 2.0), sx = g.r(.5, 1.2), sy = g.r(.5, 1.2);
  bool persp = g.n(2); double cx = g.r(-.3, .3), cy = g.r(-.3, .3);
  // row-major modelview (rotation) times projection
  double R[16] = {cos(ay), 0, sin(ay), 0, sin(ax) * sin(ay), cos(ax), -sin(ax) * cos(ay), 0, -cos(ax) * sin(ay), sin(ax), cos(ax) * cos(ay), 0, 0, 0, 0, 1};
  R[3] = cx; R[7] = cy;
  double P[16] = {sx, 0, 0, 0, 0, sy, 0, 0, 0, 0, 1 / (3 * z), 0, 0, 0, 0, 1};
  if (persp) { P[14] = g.r(.1, .4) / z; if (g.n(2)) P[14] = -P[14]; P[10] = 0.2; }
  if (sim::chance(1, 3)) P[10] = g.r(.7, 4);   // the rays start inside the scene
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double s = 0; for (int k = 0; k < 4; ++k) s += P[i * 4 + k] * R[k * 4 + j]; c.mvp[i * 4 + j] = s; }
  return c; }
template<class BV> struct Scene {
  gen::Mesh m; std::vector<dfm2::CNodeBVH2> node; std::vector<BV> bv;
  void build(gen::Rng &g) {
    m = gen::any_mesh(g, 0);
    if (sim::chance(1, 2)) dfm2::ConstructBVHTriangleMeshMortonCode(node, bv, m.xyz, m.tri);
    else dfm2::BuildBVH_MeshTri3D_Morton(node, bv, m.xyz, m.tri); }
};
void ray_of(const Img &c, const double inv[16], unsigned ih, unsigned iw, V3 &o, V3 &d) {
  auto un = [&](double z) { double p[4] = {-1 + 2.0 * (iw + .5) / c.w, -1 + 2.0 * (ih + .5) / c.h, z, 1}, q[4]; for (int i = 0; i < 4; ++i) { q[i] = 0; for (int k = 0; k < 4; ++k) q[i] += inv[i * 4 + k] * p[k]; }
    return V3{q[0] / q[3], q[1] / q[3], q[2] / q[3]}; };
  o = un(1); V3 e = un(-1); d = gen::sub(e, o); double n = gen::norm(d); for (double &x : d) x /= n; }
void check(const char *who, const std::vector<PES> &out, const Img &c, const gen::Mesh &m, int &nhit) {
  if (out.size() != (size_t) c.w * c.h) sim::violation("image-size", "%s: %zu pixels for a %ux%u image", who, out.size(), c.w, c.h);
  double inv[16]; if (!gen::inv4(c.mvp, inv)) return;
  for (unsigned ih = 0; ih < c.h; ++ih) for (unsigned iw = 0; iw < c.w; ++iw) {
    V3 o, d; ray_of(c, inv, ih, iw, o, d);
    double best = 1e300; bool unsure = false; double unsure_depth = 1e300;
    for (size_t t = 0; t < m.tri.size() / 3; ++t) { double dep = 0;
      int r = gen::ray_tri(o, d, gen::at(m.xyz, m.tri[t * 3]), gen::at(m.xyz, m.tri[t * 3 + 1]), gen::at(m.xyz, m.tri[t * 3 + 2]), dep);
      if (r > 0) best = std::min(best, dep); else if (r == 0) { unsure = true; } }
    const PES &p = out[ih * c.w + iw];
    if (p.itri == UINT_MAX) { if (best < 1e299) sim::violation("pixel-missed", "%s: pixel (%u,%u) of %ux%u reports no hit but the mesh is hit at depth %g", who, iw, ih, c.w, c.h, best); continue; }
    ++nhit;
    if (p.itri >= m.tri.size() / 3) sim::violation("pixel-bad-triangle", "%s: pixel (%u,%u) names triangle %u of %zu", who, iw, ih, p.itri, m.tri.size() / 3);
    V3 a = gen::at(m.xyz, m.tri[p.itri * 3]), b = gen::at(m.xyz, m.tri[p.itri * 3 + 1]), e = gen::at(m.xyz, m.tri[p.itri * 3 + 2]);
    double r2 = 1 - p.r0 - p.r1; V3 q; for (int k = 0; k < 3; ++k) q[k] = a[k] * p.r0 + b[k] * p.r1 + e[k] * r2;
    if (unsure) continue;
    V3 oq = gen::sub(q, o); double dep = gen::dot(oq, d); V3 off = gen::add(oq, d, -dep);
    double tol = 1e-6 * (1 + std::fabs(dep));
    if (!(gen::norm(off) < tol)) sim::violation("pixel-off-ray", "%s: the hit of pixel (%u,%u) of %ux%u is %g away from the pixel's ray", who, iw, ih, c.w, c.h, gen::norm(off));
    if (best > 1e299) sim::violation("pixel-false-hit", "%s: pixel (%u,%u) reports a hit, exhaustive search finds none", who, iw, ih);
    if (std::fabs(dep - best) > tol) sim::violation("pixel-not-nearest", "%s: pixel (%u,%u) of %ux%u hit at depth %g, the first hit is at %g", who, iw, ih, c.w, c.h, dep, best);
  } }
void hashout(const std::vector<PES> &o) { uint64_t h = 7; for (auto &p : o) { h = sim::hash_u64(p.itri, h); h = sim::hash_bytes(&p.r0, 8, h); h = sim::hash_bytes(&p.r1, 8, h); } sim::mix(h); }
void same(const std::vector<PES> &a, const std::vector<PES> &b, const Img &c) {
  if (a.size() != b.size()) sim::violation("image-size", "parallel %zu, serial %zu", a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) if (a[i].itri != b[i].itri || memcmp(&a[i].r0, &b[i].r0, 8) || memcmp(&a[i].r1, &b[i].r1, 8))
    sim::violation("parallel-differs", "pixel %zu of %ux%u: parallel triangle %d, serial triangle %d", i, c.w, c.h, (int) a[i].itri, (int) b[i].itri); }
void env() { sc::hw_concurrency(1 + sim::choose(6)); sc::pick_mode(); sc::begin(); }
void fin(bool nt) { if (sc::live_threads() != 1) sim::violation("thread-left-running", "%d threads", sc::live_threads() - 1); sim::state(sc::interleaving_hash()); sim::mix(sc::interleaving_hash()); if (nt) sim::nontrivial(); }
template<class BV> void cast(bool reuse) {
  gen::Rng g = gen::rng(); Scene<BV> s; s.build(g);
  int rounds = reuse ? 2 + (int) sim::choose(2) : 1; std::vector<PES> buf, ser; int hits = 0;
  std::vector<Img> cs; for (int k = 0; k < rounds; ++k) cs.push_back(camera(g));
  sim::logf("cast ntri=%zu rounds=%d first=%ux%u", s.m.tri.size() / 3, rounds, cs[0].w, cs[0].h);
  env();
  for (int k = 0; k < rounds; ++k) {
    const Img &c = cs[k];
    if (reuse && sim::chance(1, 4)) { buf.assign(sim::choose(40), PES(0, .3, .3)); }   // a buffer with unrelated contents
    dfm2::Intersection_ImageRay_TriMesh3(buf, c.h, c.w, c.mvp, s.node, s.bv, s.m.xyz, s.m.tri, true);
    sc::no_preempt(true);
    check("parallel", buf, c, s.m, hits); ser.clear(); if (reuse && k) ser.assign(3, PES(1, .1, .1));
    dfm2::Intersection_ImageRay_TriMesh3(ser, c.h, c.w, c.mvp, s.node, s.bv, s.m.xyz, s.m.tri, false);
    same(buf, ser, c); hashout(buf); sc::no_preempt(false); sim::vtime(c.w * c.h); }
  if (hits) sim::probe("pixels_hit", hits);
  fin(sc::created_threads() >= 2 && hits > 0); }
void s_sphere() { cast<dfm2::CBV3d_Sphere>(false); }
void s_reuse() { cast<dfm2::CBV3d_Sphere>(true); }
void s_concurrent() {   // two threads cast images of the same scene at the same time
  gen::Rng g = gen::rng(); Scene<dfm2::CBV3d_Sphere> s; s.build(g); Img c1 = camera(g), c2 = camera(g); c1.w = std::min(c1.w, 5u); c2.h = std::min(c2.h, 5u);
  std::vector<PES> b1, b2; sim::logf("concurrent %ux%u %ux%u", c1.w, c1.h, c2.w, c2.h); bool p2 = sim::chance(1, 2);
  env();
  { std::thread th([&] { dfm2::Intersection_ImageRay_TriMesh3(b1, c1.h, c1.w, c1.mvp, s.node, s.bv, s.m.xyz, s.m.tri, true); });
    dfm2::Intersection_ImageRay_TriMesh3(b2, c2.h, c2.w, c2.mvp, s.node, s.bv, s.m.xyz, s.m.tri, p2); th.join(); }
  int hits = 0; sc::no_preempt(true); check("thread 1", b1, c1, s.m, hits); check("thread 2", b2, c2, s.m, hits); hashout(b1); hashout(b2); sc::no_preempt(false);
  fin(true); }
void s_serial() {  // many pixels, no threads: the exhaustive oracle on larger scenes
  gen::Rng g = gen::rng(); Scene<dfm2::CBV3d_Sphere> s; s.m = gen::any_mesh(g, 1); dfm2::BuildBVH_MeshTri3D_Morton(s.node, s.bv, s.m.xyz, s.m.tri);
  Img c = camera(g); c.w = 1 + g.n(14); c.h = 1 + g.n(14); std::vector<PES> b; int hits = 0;
  dfm2::Intersection_ImageRay_TriMesh3(b, c.h, c.w, c.mvp, s.node, s.bv, s.m.xyz, s.m.tri, false); check("serial", b, c, s.m, hits); hashout(b); sim::logf("serial %ux%u hits=%d", c.w, c.h, hits); }
const sim::Scenario t03[] = {{"cast", 5, s_sphere}, {"cast-reused-buffer", 3, s_reuse}, {"cast-concurrently", 2, s_concurrent}, {"cast-serial", 1, s_serial}};
}
SIM_MAIN(SIM_TABLE("T03", t03))
