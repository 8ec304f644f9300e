// R01: randomised operations under every source of randomness. The entropy seam answers std::random_device and rand(); engines
// handed to or held by the library are given states whose next outputs the simulator has chosen, the rarest ones included.
#include "geomgen.h"
#include "seams.h"
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <system_error>
#include "delfem2/sampling.h"
#include "delfem2/sampler_trimesh.h"
#include "delfem2/dijkstra.h"
#include "delfem2/4rotsym.h"
#include "delfem2/noise.h"
#include "delfem2/color.h"
#include "delfem2/quat.h"
#include "delfem2/mat3.h"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/msh_affine_transformation.h"
using namespace delfem2;
namespace {
// ---- an engine whose next 624 outputs are chosen
uint32_t untemper(uint32_t y) { y ^= y >> 18; y ^= (y << 15) & 0xefc60000u; uint32_t x = y; for (int i = 0; i < 5; ++i) x = y ^ ((x << 7) & 0x9d2c5680u); y = x; for (int i = 0; i < 3; ++i) x = y ^ (x >> 11); return x; }
void script(std::mt19937 &e, const std::vector<uint32_t> &w) { std::ostringstream o; for (int i = 0; i < 624; ++i) o << untemper(w[(size_t) i % w.size()]) << ' '; o << 0; std::istringstream s(o.str()); s >> e; }
std::vector<uint32_t> words() {   // outputs: usual, extreme, on binary fractions
  std::vector<uint32_t> w; int k = (int) sim::choose(6); gen::Rng g = gen::rng();
  if (k == 0) { sim::fault("engine stuck at zero"); w = {0}; } else if (k == 1) { sim::fault("engine stuck at its maximum"); w = {0xffffffffu}; }
  else for (int i = 0; i < 624; ++i) { uint32_t r = (uint32_t) (g.next() >> 16); if (k == 2) r = g.n(2) ? 0 : 0xffffffffu; if (k == 3) r = (i & 1) ? g.n(16) << 28 : 0; if (k == 4 && g.n(4) == 0) r = g.n(3) ? 0 : 0xffffffffu; w.push_back(r); }
  if (k >= 2 && k <= 4) sim::fault("engine with extreme outputs"); return w; }

template <typename S> void samples(S &s, const gen::Mesh &m, const std::vector<unsigned> &flagged, int n) {
  std::vector<double> cum{0}, area; for (unsigned t : flagged) { gen::V3 a = gen::at(m.xyz, m.tri[t * 3]), b = gen::at(m.xyz, m.tri[t * 3 + 1]), c = gen::at(m.xyz, m.tri[t * 3 + 2]); area.push_back(.5 * gen::norm(gen::cross(gen::sub(b, a), gen::sub(c, a)))); cum.push_back(cum.back() + area.back()); }
  double tot = cum.back();
  for (int i = 0; i < n; ++i) { std::mt19937 e = s.rndeng; std::uniform_real_distribution<double> d = s.dist_01; double v = d(e), a0 = v * tot; std::tuple<unsigned, double, double> r; { sim::Lib l; r = s.Sample(); }
    auto [t, u, w] = r; size_t k = (size_t) (std::find(flagged.begin(), flagged.end(), t) - flagged.begin()); if (k == flagged.size()) sim::violation("sample-outside", "triangle %u of %zu was sampled, which was not selected", t, m.tri.size() / 3);
    if (!(a0 >= cum[k] - 1e-9 * tot && a0 <= cum[k + 1] + 1e-9 * tot)) sim::violation("sample-wrong-share", "the draw %g of the area fell on triangle %u, whose share is [%g,%g] of %g", a0, t, cum[k], cum[k + 1], tot); if (!(area[k] > 0)) sim::violation("sample-degenerate", "a triangle without area was sampled (draw %.17g)", v);
    if (!(u >= -1e-9 && w >= -1e-9 && u + w <= 1 + 1e-9)) sim::violation("sample-off-triangle", "the sample (%g,%g) lies outside triangle %u", u, w, t); sim::add_steps(1); } }
void sampler() {
  gen::Rng g = gen::rng(); gen::Mesh m; int k = (int) sim::choose(4), deg = (int) sim::choose(3);
  if (k == 0) m = gen::sphere((int) g.n(3), 1); else if (k == 1) m = gen::grid(1 + g.n(6), 1 + g.n(6), g, .3); else if (k == 2) { int n = 1 << g.n(5); for (int i = 0; i < n; ++i) { double p[9] = {i * 2., 0, 0, i * 2. + 1, 0, 0, i * 2., 1, 0}; m.xyz.insert(m.xyz.end(), p, p + 9); for (unsigned j = 0; j < 3; ++j) m.tri.push_back((unsigned) i * 3 + j); } } else m = gen::soup(1 + g.n(40), g);
  for (int i = 0; i < deg; ++i) { unsigned v = m.tri[g.n((uint32_t) m.tri.size())], w = m.tri[g.n((uint32_t) m.tri.size())]; size_t at = sim::choose(3) * (m.tri.size() / 3) / 2 * 3; m.tri.insert(m.tri.begin() + (long) at, {v, w, v}); sim::probe("triangle without area"); }
  unsigned nt = (unsigned) m.tri.size() / 3; std::vector<unsigned> all(nt), some; std::iota(all.begin(), all.end(), 0u); std::vector<char> f(nt); for (unsigned t = 0; t < nt; ++t) { f[t] = g.n(3) != 0; if (f[t]) some.push_back(t); } double a = 0; for (unsigned t : some) { gen::V3 p = gen::at(m.xyz, m.tri[t * 3]); a += gen::norm(gen::cross(gen::sub(gen::at(m.xyz, m.tri[t * 3 + 1]), p), gen::sub(gen::at(m.xyz, m.tri[t * 3 + 2]), p))); }
  int n = 1 + (int) sim::choose(200);
  try { sim::entropy_pick(); if (sim::chance(1, 12)) { sim::entropy(5, 1); }
    if (a > 0 && sim::chance(1, 2)) { std::unique_ptr<RandomSamplingOnMeshTri3Selective> s; { sim::Lib l; s = std::make_unique<RandomSamplingOnMeshTri3Selective>(m.xyz, m.tri, [&](unsigned t) { return f[t] != 0; }); } if (sim::chance(2, 3)) script(s->rndeng, words()); samples(*s, m, some, n); sim::probe("selective"); }
    else { std::unique_ptr<RandomSamplingOnMeshTri3> s; { sim::Lib l; s = std::make_unique<RandomSamplingOnMeshTri3>(m.xyz, m.tri); } if (sim::chance(2, 3)) script(s->rndeng, words()); samples(*s, m, all, n); }
    sim::nontrivial(); } catch (std::system_error &) { sim::probe("source unavailable"); }
  sim::state(sim::hash_u64(nt, (uint64_t) k)); sim::mix((uint64_t) n); }
// what is drawn comes from the entropy source: other entropy, other draws
void fresh() {
  gen::Rng g = gen::rng(); gen::Mesh m = gen::sphere(2, 1); sim::entropy(4, sim::choose(1000)); auto first = [&](int k) -> std::vector<double> { std::vector<double> r; if (k == 0) { RandomSamplingOnMeshTri3 s(m.xyz, m.tri); for (int i = 0; i < 8; ++i) { auto [t, u, w] = s.Sample(); r.insert(r.end(), {(double) t, u, w}); } }
    if (k == 1) { RandomSamplingOnMeshTri3Selective s(m.xyz, m.tri, [](unsigned t) { return t % 2 == 0; }); for (int i = 0; i < 8; ++i) { auto [t, u, w] = s.Sample(); r.insert(r.end(), {(double) t, u, w}); } } if (k == 2) { CMat3d R; R.SetRandom(); r.assign(R.p_, R.p_ + 9); } if (k == 3) { r.resize(24); double a[3] = {0, 0, 0}, b[3] = {1, 1, 1}; Points_RandomUniform(r.data(), 8, 3, a, b); }
    if (k == 4) { std::vector<int> x(200); std::iota(x.begin(), x.end(), 0); Shuffle(x); r.assign(x.begin(), x.end()); } if (k == 5) ComputePerlin(r, 32, 32, 8, 2, .7); return r; };
  for (int k = 0; k < 4; ++k) { auto a = first(k), b = first(k); if (a == b) sim::violation("entropy-ignored", "under other entropy randomised operation %d gives the same results", k); sim::mix(sim::hash_bytes(a.data(), a.size() * 8)); }
  sim::entropy(0, sim::choose(1000)); for (int k = 4; k < 6; ++k) { auto a = first(k), b = first(k); if (a == b) sim::violation("entropy-ignored", "under other entropy randomised operation %d gives the same results", k); sim::mix(sim::hash_bytes(a.data(), a.size() * 8)); } sim::nontrivial(); (void) g; }
// even spread: the draws of a fine regular grid fall evenly over the triangle
void spread() {
  std::vector<double> p = {0, 0, 0, 1, 0, 0, 0, 1, 0}; std::vector<unsigned> t = {0, 1, 2}; gen::Rng g = gen::rng(); double cnt[4] = {0, 0, 0, 0}; const int N = 24; sim::entropy_pick(); RandomSamplingOnMeshTri3 s(p, t); double mu[2] = {0, 0};
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { uint32_t a = (uint32_t) ((i + g.r(.3, .7)) / N * 4294967296.), b = (uint32_t) ((j + g.r(.3, .7)) / N * 4294967296.); script(s.rndeng, {0, a, 0, b}); auto [k, u, w] = s.Sample(); (void) k; cnt[u > .5 ? 1 : w > .5 ? 2 : u + w < .5 ? 0 : 3]++; mu[0] += u; mu[1] += w; }
  for (double c : cnt) if (std::fabs(c / (N * N) - .25) > .06) sim::violation("sample-uneven", "%g of an even set of draws fall on one quarter of the triangle", c / (N * N)); for (double v : mu) if (std::fabs(v / (N * N) - 1. / 3) > .03) sim::violation("sample-uneven", "the mean of an even set of draws is %g, not one third", v / (N * N)); sim::nontrivial(); sim::mix((uint64_t) cnt[0]); }

void erand() {
  std::array<unsigned short, 3> x; uint64_t X = 0; int k = (int) sim::choose(4); for (int i = 0; i < 3; ++i) { x[i] = k == 0 ? 0 : k == 1 ? 0xffff : (unsigned short) sim::bits32(); X |= (uint64_t) x[i] << (16 * i); } auto y = x; auto z = x, h = x;
  for (int i = 0; i < 200; ++i) { X = (X * 0x5DEECE66Dull + 0xB) & 0xffffffffffffull; double r = MyERand48<double>(x), want = (double) X / 281474976710656.; if (r != want) sim::violation("stream-wrong", "number %d of the 48-bit stream is %.17g instead of %.17g", i, r, want); float f = MyERand48<float>(y); if (!(f >= 0 && f <= 1)) sim::violation("random-out-of-range", "a single precision draw is %g", f);
    double t = SampleTent<double>(z); if (!(t >= -1 && t <= 1)) sim::violation("random-out-of-range", "a draw from the tent is %g", t); double rr = 2 * want, tt = rr < 1 ? std::sqrt(rr) - 1 : 1 - std::sqrt(2 - rr); if (std::fabs(t - tt) > 1e-12) sim::violation("stream-wrong", "draw %d from the tent is %g instead of %g", i, t, tt);
    auto v2 = RandomVec2<double>(h); for (double v : v2) if (!(v >= 0 && v < 1)) sim::violation("random-out-of-range", "a pair holds %g", v); if (sim::chance(1, 10)) v2 = {(double) sim::choose(2), sim::real(0, 1)};
    auto c = SampleHemisphereZupCos(v2); double l = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]; if (!(std::fabs(l - 1) < 1e-9) || !(c[2] >= 0) || std::fabs(c[2] * c[2] - v2[0]) > 1e-9) sim::violation("hemisphere-wrong", "draw (%g,%g) gives (%g,%g,%g)", v2[0], v2[1], c[0], c[1], c[2]);
    CVec3d n(sim::sreal(1), sim::sreal(1), sim::sreal(1)); if (sim::chance(1, 4)) { n = CVec3d(0, 0, 0); n[(int) sim::choose(3)] = sim::chance(1, 2) ? 1 : -1; } if (n.norm() < 1e-3) continue; n.normalize(); auto q = SampleHemisphereNormalCos<CVec3d, double>(n, v2); if (!(std::fabs(q.norm() - 1) < 1e-9) || !(std::fabs(q.dot(n) - c[2]) < 1e-9)) sim::violation("hemisphere-wrong", "a direction about (%g,%g,%g) is (%g,%g,%g)", n.x, n.y, n.z, q.x, q.y, q.z); }
  sim::nontrivial(); sim::mix(X); sim::state(X); }

void small() {
  sim::entropy_pick(); std::mt19937 e; script(e, words()); std::uniform_real_distribution<double> d(0, 1); double mag = sim::real(-3, 3), off = sim::sreal(5), lo = std::min(off, off + mag) - 1e-12, hi = std::max(off, off + mag) + 1e-12;
  auto r = RandomVec<7, double>(d, e, mag, off); for (double v : r) if (!(v >= lo && v <= hi)) sim::violation("random-out-of-range", "%g is outside [%g,%g]", v, lo, hi); double A[4][3]; for (auto &row : A) for (double &v : row) v = 1e9; Fill2dArrayWithRandomValue<4, 3, double>(A, d, e, mag, off); for (auto &row : A) for (double v : row) if (!(v >= lo && v <= hi)) sim::violation("random-out-of-range", "%g is outside [%g,%g]", v, lo, hi);
  for (int i = 0; i < 50; ++i) { auto gd = RandGaussVec3<double>(e); auto gf = RandGaussVec3<float>(e); for (int k = 0; k < 3; ++k) if (!(std::fabs(gd[k]) < 40) || !(std::fabs(gf[k]) < 40)) sim::violation("random-not-finite", "a normal draw is %g / %g", gd[k], gf[k]);
    double n2[2]; float f2[2]; GaussianDistribution2(n2); GaussianDistribution2(f2); for (int k = 0; k < 2; ++k) if (!(std::fabs(n2[k]) < 40) || !(std::fabs(f2[k]) < 40)) sim::violation("random-not-finite", "a normal pair holds %g / %g", n2[k], f2[k]);
    double a = sim::real(0, 3); auto q = CQuatd::Random(a); double l = 0; for (double v : q.p) l += v * v; if (!(std::fabs(l - 1) < 1e-9)) sim::violation("rotation-wrong", "a random rotation has norm %g", l);
    CColor c; c.setRandomColor(); for (float v : {c.r, c.g, c.b}) if (!(v >= 0 && v <= 1)) sim::violation("random-out-of-range", "a random colour holds %g", v); c.setRandomVividColor(); float mx = std::max(c.r, std::max(c.g, c.b)), mn = std::min(c.r, std::min(c.g, c.b)); if (!(mn >= 0 && mx <= 1) || std::fabs(mx - 1) > 1e-4 || std::fabs(mn) > 1e-4) sim::violation("random-out-of-range", "a vivid colour is (%g,%g,%g)", c.r, c.g, c.b); }
  std::vector<int> X(1 + sim::choose(60)); for (size_t i = 0; i < X.size(); ++i) X[i] = (int) i * 3 - 7; auto Y = X; Shuffle(Y); auto Z = Y; std::sort(Z.begin(), Z.end()); if (Z != X) sim::violation("not-a-permutation", "shuffling %zu numbers lost some", X.size());
  try { if (sim::chance(1, 10)) sim::entropy(5, 1); CMat3d R; R.SetRandom(); for (int i = 0; i < 9; ++i) if (!(std::fabs(R.p_[i]) <= 50)) sim::violation("random-out-of-range", "a random matrix holds %g", R.p_[i]);
    unsigned nd = 2 + sim::choose(2); size_t np = 1 + sim::choose(50); double a[3], b[3]; for (int i = 0; i < 3; ++i) { a[i] = sim::sreal(5); b[i] = sim::chance(1, 5) ? a[i] : a[i] + sim::real(0, 5); } std::vector<double> P(np * nd + 1, 1e9); Points_RandomUniform(P.data(), np, nd, a, b); if (P.back() != 1e9) sim::violation("random-out-of-range", "points were written past the end"); for (size_t i = 0; i < np * nd; ++i) if (!(P[i] >= a[i % nd] - 1e-12 && P[i] <= b[i % nd] + 1e-12)) sim::violation("random-out-of-range", "a random point holds %g outside [%g,%g]", P[i], a[i % nd], b[i % nd]);
    if (np > 20) for (unsigned k = 0; k < nd; ++k) if (b[k] > a[k] + .1) { double m = 0; for (size_t i = 0; i < np; ++i) m = std::max(m, std::fabs(P[i * nd + k] - P[k])); if (!(m > 0)) sim::violation("random-constant", "%zu random points share one coordinate", np); }
  } catch (std::system_error &) { sim::probe("source unavailable"); }
  sim::nontrivial(); sim::mix((uint64_t) (Y[0] + 7)); sim::state(sim::hash_bytes(Y.data(), Y.size() * 4)); }

void perlin() {
  sim::entropy_pick(); unsigned nrep = 1u << sim::choose(4), noct = 1 + sim::choose(4), px = 1u << sim::choose(4); double pers = sim::real(.2, 1); unsigned W = nrep * px, H = nrep * px * (sim::chance(1, 2) ? 1 : 2); std::vector<double> V(sim::choose(9), 5.); { sim::Lib l; ComputePerlin(V, W, H, (int) nrep, (int) noct, pers); }
  if (V.size() != (size_t) W * H) sim::violation("noise-wrong", "%zu values for a %ux%u image", V.size(), W, H); double bound = 0, m = 1; for (unsigned i = 0; i < noct; ++i, m *= pers) bound += 2 * m; unsigned py = H / nrep; for (unsigned y = 0; y < H; ++y) for (unsigned x = 0; x < W; ++x) { double v = V[y * W + x]; if (!(std::fabs(v) <= bound + 1e-9)) sim::violation("noise-wrong", "the noise is %g, the bound is %g", v, bound); if (x % px == 0 && y % py == 0 && std::fabs(v) > 1e-9) sim::violation("noise-wrong", "the noise is %g at a lattice point", v); }
  // repeats with its period, and is continuous across cells
  std::vector<int> P(256); std::iota(P.begin(), P.end(), 0); Shuffle(P); P.insert(P.end(), P.begin(), P.begin() + 256); std::vector<double> G = {-1, -1, -1, 1, 1, -1, 1, 1}, G3; for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) G3.push_back((i >> k & 1) ? 1 : -1);
  for (int i = 0; i < 20; ++i) { double x = sim::real(0, nrep), y = sim::real(0, nrep), z = sim::real(0, nrep); if (sim::chance(1, 2)) x = std::floor(x); if (sim::chance(1, 3)) y = std::floor(y); if (sim::chance(1, 3)) z = std::floor(z); double h = 1e-6, lip = 0; m = 1; for (unsigned o = 0; o < noct; ++o, m *= pers) lip += 40 * m * (1 << o);
    auto f = [&](double a, double b) { return noise_perlin_2d_oct(a, b, (int) nrep, (int) noct, pers, G, P); }; double v = f(x, y); if (std::fabs(v - f(x + nrep, y)) > 1e-7 || std::fabs(v - f(x, y + nrep)) > 1e-7) sim::violation("noise-wrong", "the noise does not repeat with its period"); double xm = std::max(0., x - h), ym = std::max(0., y - h); if (std::fabs(v - f(xm, y)) > lip * h || std::fabs(v - f(x, ym)) > lip * h) sim::violation("noise-wrong", "the noise jumps by %g at (%g,%g)", v - f(xm, y), x, y);
    auto f3 = [&](double a, double b, double c) { return noise_perlin_3d_oct(a, b, c, (int) nrep, (int) noct, pers, G3, P); }; double u = f3(x, y, z); if (std::fabs(u - f3(x + nrep, y, z)) > 1e-7 || std::fabs(u - f3(x, y, z + nrep)) > 1e-7 || std::fabs(u - f3(x, y + nrep, z)) > 1e-7) sim::violation("noise-wrong", "the 3D noise does not repeat with its period"); double zm = std::max(0., z - h); if (std::fabs(u - f3(xm, y, z)) > 2 * lip * h || std::fabs(u - f3(x, ym, z)) > 2 * lip * h || std::fabs(u - f3(x, y, zm)) > 2 * lip * h) sim::violation("noise-wrong", "the 3D noise jumps at (%g,%g,%g)", x, y, z); }
  sim::nontrivial(); sim::mix(sim::hash_bytes(V.data(), V.size() * 8)); sim::state(sim::hash_bytes(V.data(), V.size() * 8)); }

std::vector<unsigned> adjacent(const gen::Mesh &m) { unsigned nt = (unsigned) m.tri.size() / 3; std::map<std::pair<unsigned, unsigned>, unsigned> e; std::vector<unsigned> r(nt * 3, UINT_MAX); for (unsigned t = 0; t < nt; ++t) for (unsigned k = 0; k < 3; ++k) { unsigned a = m.tri[t * 3 + (k + 1) % 3], b = m.tri[t * 3 + (k + 2) % 3]; auto it = e.find({b, a}); if (it != e.end()) { r[t * 3 + k] = it->second / 3; r[it->second] = t; } else e[{a, b}] = t * 3 + k; } return r; }
std::vector<unsigned> bfs(unsigned s, const std::vector<unsigned> &adj) { size_t n = adj.size() / 3; std::vector<unsigned> d(n, UINT_MAX), q{s}; d[s] = 0; for (size_t h = 0; h < q.size(); ++h) for (int k = 0; k < 3; ++k) { unsigned o = adj[q[h] * 3 + (unsigned) k]; if (o != UINT_MAX && d[o] == UINT_MAX) { d[o] = d[q[h]] + 1; q.push_back(o); } } return d; }
void clusters() {
  gen::Rng g = gen::rng(); gen::Mesh m = g.n(2) ? gen::sphere((int) g.n(3), 1) : gen::grid(1 + g.n(6), 1 + g.n(6), g, .3); auto adj = adjacent(m); unsigned nt = (unsigned) m.tri.size() / 3, nc = 1 + g.n(g.n(3) ? std::min(nt, 8u) : nt + 3); std::vector<unsigned> flg(g.n(5), 77u); sim::entropy_pick(); if (sim::chance(1, 12)) sim::entropy(5, 1);
  try { sim::Lib l; MeshClustering(flg, nc, adj, nt); } catch (std::system_error &) { sim::probe("source unavailable"); return; }
  if (flg.size() != nt) sim::violation("cluster-wrong", "%zu flags for %u elements", flg.size(), nt); std::set<unsigned> used(flg.begin(), flg.end()); if (*used.rbegin() >= nc) sim::violation("cluster-wrong", "cluster %u of %u", *used.rbegin(), nc); if (used.size() != std::min(nc, nt)) sim::violation("cluster-wrong", "%zu of %u clusters have elements (%u elements)", used.size(), nc, nt);
  bool ok = false; for (unsigned s = 0; s < nt && !ok; ++s) if (flg[s] == 0) { auto d = bfs(s, adj); std::vector<unsigned> f(nt, 0); for (unsigned c = 1; c < nc; ++c) { unsigned b = 0; for (unsigned t = 1; t < nt; ++t) if (d[t] > d[b]) b = t; if (!d[b]) break; auto e = bfs(b, adj); for (unsigned t = 0; t < nt; ++t) if (e[t] < d[t]) { d[t] = e[t]; f[t] = c; } } ok = f == flg; } if (!ok) sim::violation("cluster-wrong", "the %u clusters are not those of farthest-point kernels from any first element", nc);
  sim::nontrivial(); sim::mix(sim::hash_bytes(flg.data(), nt * 4)); sim::state(sim::hash_bytes(flg.data(), nt * 4)); }

double align(const std::vector<double> &o, const std::vector<double> &n, const std::vector<unsigned> &pi, const std::vector<unsigned> &ps) { double s = 0; size_t c = 0; for (size_t i = 0; i < o.size() / 3; ++i) for (unsigned k = pi[i]; k < pi[i + 1]; ++k) { gen::V3 a = gen::at(o, (unsigned) i), b = gen::at(o, ps[k]), na = gen::at(n, (unsigned) i), nb = gen::at(n, ps[k]), a2 = gen::cross(na, a), b2 = gen::cross(nb, b); s += std::max(std::max(std::fabs(gen::dot(a, b)), std::fabs(gen::dot(a2, b2))), std::max(std::fabs(gen::dot(a, b2)), std::fabs(gen::dot(a2, b)))); ++c; } return s / (double) c; }
void crossfield() {
  gen::Rng g = gen::rng(); bool flat = g.n(2); gen::Mesh m = flat ? gen::grid(2 + g.n(6), 2 + g.n(6), g, 0) : gen::sphere(1 + (int) g.n(2), 1); unsigned np = (unsigned) m.xyz.size() / 3; std::vector<std::set<unsigned>> nb(np); for (size_t t = 0; t < m.tri.size(); t += 3) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) nb[m.tri[t + (size_t) a]].insert(m.tri[t + (size_t) b]);
  std::vector<unsigned> pi{0}, ps; for (auto &s : nb) { ps.insert(ps.end(), s.begin(), s.end()); pi.push_back((unsigned) ps.size()); } std::vector<double> nrm, o; for (unsigned i = 0; i < np; ++i) { gen::V3 n = flat ? gen::V3{0, 0, 1} : gen::at(m.xyz, i), r = {g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)}; double l = gen::norm(n); for (double &v : n) v /= l; gen::V3 t = gen::cross(n, r); l = gen::norm(t); if (l < 1e-6) { t = gen::cross(n, {1, .3, .2}); l = gen::norm(t); } for (int k = 0; k < 3; ++k) { nrm.push_back(n[k]); o.push_back(t[k] / l); } }
  std::vector<unsigned> perm(np); std::iota(perm.begin(), perm.end(), 0u); sim::entropy_pick(); double a0 = align(o, nrm, pi, ps); int sweeps = 1 + (int) sim::choose(30);
  for (int s = 0; s < sweeps; ++s) { auto o0 = o; auto p0 = perm; bool gone = sim::chance(1, 40); if (gone) sim::entropy(5, 1); try { sim::Lib l; Smooth4RotSym_RandomPermutation(o, perm, nrm, pi, ps); } catch (std::system_error &) { if (o != o0 || perm != p0) sim::violation("half-done", "with no entropy the field or the order were changed all the same"); sim::probe("source unavailable"); sim::entropy_pick(); continue; } if (gone) sim::entropy_pick();
    auto q = perm; std::sort(q.begin(), q.end()); for (unsigned i = 0; i < np; ++i) if (q[i] != i) sim::violation("not-a-permutation", "the visiting order lost point %u", i);
    for (unsigned i = 0; i < np; ++i) { gen::V3 d = gen::at(o, i), n = gen::at(nrm, i); if (!(std::fabs(gen::norm(d) - 1) < 1e-9) || !(std::fabs(gen::dot(d, n)) < 1e-9)) sim::violation("field-wrong", "after a sweep the direction of point %u is not a unit tangent", i); }
    if (o == o0 && align(o, nrm, pi, ps) < .999) sim::violation("field-frozen", "a sweep over a field aligned to %g changed nothing", align(o, nrm, pi, ps)); }
  double a1 = align(o, nrm, pi, ps); if (sweeps >= 10 && !(a1 > a0 - 1e-3) ) sim::violation("field-worse", "%d smoothing sweeps took the alignment from %g to %g", sweeps, a0, a1);
  sim::nontrivial(); sim::mix(sim::hash_bytes(o.data(), o.size() * 8)); sim::state(sim::hash_bytes(o.data(), o.size() * 8)); }
const sim::Scenario R01[] = {{"surface samples", 4, sampler}, {"even spread", 1, spread}, {"fresh draws", 1, fresh}, {"48-bit stream", 2, erand}, {"small draws", 3, small}, {"noise", 2, perlin}, {"clusters", 3, clusters}, {"cross field", 2, crossfield}};
}
SIM_MAIN(SIM_TABLE("R01", R01))
