// S01-S03, S05: time-stepping sessions. The simulator owns the clock (step sizes jump, stall and shrink by orders of
// magnitude), stops and restores sessions at any step, leaves rubbish in work buffers and lets memory run out;
// conservation, range and reference-model checks hold after every step.
#include "geomgen.h"
#include "seams.h"
#include <memory>
#include <new>
#include <cmath>
#include <iostream>
#include <sstream>
#include <functional>
#include "delfem2/fdm_array2.h"
#include "delfem2/fdm_stablefluids.h"
#include "delfem2/pbd_geo3.h"
#include "delfem2/pbd_stvk.h"
#include "delfem2/pbd_bending_for_dtri.h"
#include "delfem2/kinetic_damping.h"
#include "delfem2/rgd_v2m3.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_selfintersection_bvh.h"
#include "delfem2/cloth_selfcollision.h"
#include "delfem2/cloth_selfcollision.cpp"
#include "delfem2/dtri_topology.h"
using namespace delfem2;
namespace {
typedef std::vector<double> VD; typedef std::vector<unsigned> VU;
using gen::V3; using gen::at; using gen::norm;
struct Quiet { std::ostringstream s; std::streambuf *o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
struct Null : std::streambuf { int overflow(int c) override { return c; } };   // swallows what the library prints, without memory
struct Hush { static Null n; std::streambuf *o; Hush() : o(std::cout.rdbuf(&n)) {} ~Hush() { std::cout.rdbuf(o); } }; Null Hush::n;
double clock_step(const char *what) {   // the next time step: regular, stalled, tiny or huge
  double dt; switch (sim::choose(6)) { case 0: dt = 1e-6; sim::fault("tiny time step"); break; case 1: dt = sim::real(1, 1000); sim::fault("clock jump"); break; case 2: dt = sim::real(.1, 1); break; default: dt = sim::real(1e-3, .05); }
  sim::vtime((uint64_t) (dt * 1e6) + 1); (void) what; return dt; }
bool same(const void *a, const void *b, size_t n) { return !std::memcmp(a, b, n); }
// ---- S01 fluids on grids
typedef FdmArray2<double> A1; typedef FdmArray2<std::array<double, 2>> A2;
void wild(A2 &a, gen::Rng &g) { for (auto &v : a.v) for (double &x : v) x = g.n(8) ? g.r(-1e6, 1e6) : std::nan(""); }
void range(const VD &v, double &lo, double &hi) { lo = 1e300; hi = -1e300; for (double x : v) { lo = std::min(lo, x); hi = std::max(hi, x); } }
void check_range(const char *what, const VD &now, double lo, double hi) { double e = 1e-9 * (std::fabs(lo) + std::fabs(hi)) + 1e-300; for (double x : now) if (!(x >= lo - e && x <= hi + e)) sim::violation("advection-leaves-range", "%s is %.9g after advection, range before was [%.9g, %.9g]", what, x, lo, hi); }
double sample(const std::function<double(int, int)> &f, int ni, int nj, double x, double y) { x = std::max(0., std::min(ni - 1., x)); y = std::max(0., std::min(nj - 1., y)); int i = std::min((int) x, ni - 2), j = std::min((int) y, nj - 2); double a = x - i, b = y - j; return (f(i, j) * (1 - a) + f(i + 1, j) * a) * (1 - b) + (f(i, j + 1) * (1 - a) + f(i + 1, j + 1) * a) * b; }
double fetch(const A1 &a, int i, int j) { i = std::max(0, std::min(a.ni - 1, i)); j = std::max(0, std::min(a.nj - 1, j)); return a.v[(size_t) j * a.ni + i]; }
void check_traced(const char *what, double got, double want, double lo, double hi, double reach) { if (!(std::fabs(got - want) <= (1e-7 + 1e-13 * reach) * (hi - lo) + 1e-9 * (std::fabs(lo) + std::fabs(hi)) + 1e-300)) sim::violation("advection-wrong", "%s is %.9g after advection, the value at the traced-back position is %.9g", what, got, want); }
double energy(const A1 &u, const A1 &v) { double e = 0; for (double x : u.v) e += x * x; for (double x : v.v) e += x * x; return e; }
void fluids_staggered() {
  gen::Rng g = gen::rng(); int ni = 2 + (int) sim::choose(9), nj = 2 + (int) sim::choose(9); double h = sim::real(.02, 1), rho = sim::real(.5, 2); int steps = 1 + (int) sim::choose(8);
  A1 u(ni + 1, nj, 0.), v(ni, nj + 1, 0.), p(ni, nj, 0.), d(ni, nj); A2 ut(ni + 1, nj), vt(ni, nj + 1); wild(ut, g); wild(vt, g);
  double amp = std::pow(10., sim::real(-3, 3)); for (double &x : u.v) x = g.r(-amp, amp); for (double &x : v.v) x = g.r(-amp, amp);
  std::unique_ptr<A1> su, sv, sp; std::vector<double> sdt; std::vector<unsigned> sit; bool replayed = false; Hush q;
  auto wall = [&](A1 &u, A1 &v) { for (int j = 0; j < nj; ++j) u(0, j) = u(ni, j) = 0; for (int i = 0; i < ni; ++i) v(i, 0) = v(i, nj) = 0; };
  auto step = [&](A1 &u, A1 &v, A1 &p, double dt, unsigned it, bool check) {
    wall(u, v); Divergence_StaggerdGrid2(d, ni, nj, u, v, h);
    if (check) for (int j = 0; j < nj; ++j) for (int i = 0; i < ni; ++i) { double w = (u(i + 1, j) - u(i, j) + v(i, j + 1) - v(i, j)) / h; if (!(std::fabs(w - d(i, j)) <= 1e-9 * (std::fabs(w) + amp / h * 10))) sim::violation("divergence-wrong", "cell %d,%d: %.9g, not %.9g", i, j, d(i, j), w); }
    double e0 = energy(u, v); A1 u0 = u, v0 = v; bool warm = false; for (double x : p.v) if (x != 0) warm = true; A1 p0 = p;
    SolvePoissionEquationOnGrid2ByGaussSeidelMethod(p, d, rho / dt * h * h, ni, nj, it);
    SubstructPressureGradient_StaggeredGrid2(u, v, ni, nj, dt / (rho * h), p);
    if (!check) { AdvectionSemiLagrangian_StaggeredGrid2(u, v, ut, vt, ni, nj, dt, h); return; }
    double e1 = energy(u, v); if (!warm && !(e1 <= e0 * (1 + 1e-9) + 1e-300)) sim::violation("projection-adds-energy", "%.9g before, %.9g after %u iterations", e0, e1, it);
    for (int j = 0; j < nj; ++j) if (u(0, j) != 0 || u(ni, j) != 0) sim::violation("wall-moves", "row %d: %.9g, %.9g", j, u(0, j), u(ni, j));
    for (int i = 0; i < ni; ++i) if (v(i, 0) != 0 || v(i, nj) != 0) sim::violation("wall-moves", "column %d: %.9g, %.9g", i, v(i, 0), v(i, nj));
    // more iterations from here only lower the energy; split iterations are the same as iterations at one go
    { A1 q = p, u2 = u0, v2 = v0; unsigned more = 1 + (unsigned) (sdt.size() % 7); SolvePoissionEquationOnGrid2ByGaussSeidelMethod(q, d, rho / dt * h * h, ni, nj, more); SubstructPressureGradient_StaggeredGrid2(u2, v2, ni, nj, dt / (rho * h), q);
      double e2 = energy(u2, v2); if (!(e2 <= e1 * (1 + 1e-9) + e0 * 1e-9)) sim::violation("iterations-add-energy", "%.9g after %u iterations, %.9g after %u", e1, it, e2, it + more);
      A1 o = p0; SolvePoissionEquationOnGrid2ByGaussSeidelMethod(o, d, rho / dt * h * h, ni, nj, it + more); if (!same(o.v.data(), q.v.data(), 8 * o.v.size())) sim::violation("iterations-depend-on-call", "%u+%u iterations differ from %u", it, more, it + more); }
    double dm = 0, dn = 0; for (double x : d.v) dm = std::max(dm, std::fabs(x)); A1 d2(ni, nj); Divergence_StaggerdGrid2(d2, ni, nj, u, v, h); double s = 0; for (double x : d2.v) dn = std::max(dn, std::fabs(x)), s += x;
    double pm = 0; for (double x : p.v) pm = std::max(pm, std::fabs(x)); if (!(std::fabs(s) <= (1e-7 * std::sqrt(e0) / h + 1e-12 * pm * dt / (rho * h * h) + 1e-300) * ni * nj)) sim::violation("mass-appears", "divergence sums to %.9g over a closed box", s);
    if (!warm && it >= 400u && ni <= 6 && nj <= 6 && !(dn <= 1e-3 * dm + 1e-9 * amp / h)) sim::violation("flow-not-incompressible", "divergence %.9g before, %.9g after %u iterations on %dx%d cells", dm, dn, it, ni, nj);
    double ul, uh, vl, vh; range(u.v, ul, uh); range(v.v, vl, vh);
    A1 ub = u, vb = v; AdvectionSemiLagrangian_StaggeredGrid2(u, v, ut, vt, ni, nj, dt, h);
    check_range("u", u.v, ul, uh); check_range("v", v.v, vl, vh);
    for (int j = 0; j < nj; ++j) for (int i = 0; i <= ni; ++i) { double a = ub(i, j), b = (fetch(vb, i - 1, j) + fetch(vb, i, j) + fetch(vb, i - 1, j + 1) + fetch(vb, i, j + 1)) / 4; check_traced("u", u(i, j), sample([&](int k, int l) { return ub(k, l); }, ni + 1, nj, i - a * dt / h, j - b * dt / h), ul, uh, (std::fabs(a) + std::fabs(b)) * dt / h); }
    for (int j = 0; j <= nj; ++j) for (int i = 0; i < ni; ++i) { double b = vb(i, j), a = (fetch(ub, i, j - 1) + fetch(ub, i + 1, j - 1) + fetch(ub, i, j) + fetch(ub, i + 1, j)) / 4; check_traced("v", v(i, j), sample([&](int k, int l) { return vb(k, l); }, ni, nj + 1, i - a * dt / h, j - b * dt / h), vl, vh, (std::fabs(a) + std::fabs(b)) * dt / h); } };
  for (int k = 0; k < steps; ++k) {
    double dt = clock_step("fluid") ; unsigned it = sim::chance(1, 4) ? 400 : sim::choose(60); if (sim::chance(1, 2)) p.v.assign(p.v.size(), 0.);
    if (!su && sim::chance(1, 2)) { su.reset(new A1(u)); sv.reset(new A1(v)); sp.reset(new A1(p)); } else if (su) for (double &x : u.v) (void) x;
    double gr = sim::chance(1, 2) ? g.r(-10, 10) : 0; for (double &x : v.v) x += gr * dt * 1e-2; if (su) { su->v = u.v; sv->v = v.v; sp->v = p.v; }
    bool chk = su && sim::chance(1, 2); step(u, v, p, dt, it, true); sdt.push_back(dt); for (double x : u.v) amp = std::max(amp, std::fabs(x)); for (double x : v.v) amp = std::max(amp, std::fabs(x));
    if (chk) { sim::fault("restart"); wild(ut, g); wild(vt, g); step(*su, *sv, *sp, dt, it, false); if (!same(su->v.data(), u.v.data(), 8 * u.v.size()) || !same(sv->v.data(), v.v.data(), 8 * v.v.size()) || !same(sp->v.data(), p.v.data(), 8 * p.v.size())) sim::violation("restart-differs", "a step from the saved state gave other fields"); replayed = true; }
    sim::state(gen::hv(u.v, gen::hv(v.v, k))); }
  sim::nontrivial(); (void) replayed; sim::mix(gen::hv(u.v, gen::hv(v.v, 3))); }
void fluids_centered() {
  gen::Rng g = gen::rng(); int ni = 2 + (int) sim::choose(9), nj = 2 + (int) sim::choose(9); double h = sim::real(.02, 1); A2 w(ni, nj), t(ni, nj); A1 p(ni, nj, 0.), d(ni, nj, 0.); wild(t, g); int steps = 1 + (int) sim::choose(8);
  double amp = std::pow(10., sim::real(-3, 3)); for (auto &x : w.v) x = {g.r(-amp, amp), g.r(-amp, amp)};
  Hush hush; for (int k = 0; k < steps; ++k) { double dt = clock_step("fluid");
    { // linear fields have constant divergence and gradient
      double a = g.r(-2, 2), b = g.r(-2, 2), c = g.r(-2, 2), e = g.r(-2, 2); A2 l(ni, nj); A1 q(ni, nj); for (int j = 0; j < nj; ++j) for (int i = 0; i < ni; ++i) { l(i, j) = {a * i + b * j, c * i + e * j}; q(i, j) = a * i + b * j; }
      A1 z(ni, nj, 7.); Divergence_CellCenteredGrid2(z, ni, nj, l, h); A2 y = l; double s = g.r(.1, 2); SubstructPressureGradient_CellCenteredGrid2(y, ni, nj, s, q);
      for (int j = 0; j < nj; ++j) for (int i = 0; i < ni; ++i) { bool in = i > 0 && j > 0 && i < ni - 1 && j < nj - 1; double want = in ? -2 * (a + e) / h : 7.; if (!(std::fabs(z(i, j) - want) < 1e-9 * (1 + 40 / h))) sim::violation("divergence-wrong", "cell %d,%d: %.9g, not %.9g", i, j, z(i, j), want);
        double du = y(i, j)[0] - l(i, j)[0], dv = y(i, j)[1] - l(i, j)[1], wu = in ? s * a : 0, wv = in ? s * b : 0; if (!(std::fabs(du - wu) < 1e-9 * 100 && std::fabs(dv - wv) < 1e-9 * 100)) sim::violation("gradient-wrong", "cell %d,%d: %.9g %.9g, not %.9g %.9g", i, j, du, dv, wu, wv); } }
    VD u, v; for (auto &x : w.v) u.push_back(x[0]), v.push_back(x[1]); double ul, uh, vl, vh; range(u, ul, uh); range(v, vl, vh); A2 keep = w, other = w, t2(ni, nj); wild(t2, g);
    AdvectionSemiLagrangian_CellCenteredGrid2(w, t, ni, nj, dt, h); u.clear(); v.clear(); for (auto &x : w.v) u.push_back(x[0]), v.push_back(x[1]); check_range("u", u, ul, uh); check_range("v", v, vl, vh);
    AdvectionSemiLagrangian_CellCenteredGrid2(other, t2, ni, nj, dt, h); if (!same(other.v.data(), w.v.data(), 16 * w.v.size())) sim::violation("restart-differs", "advection from the saved state gave another field");
    for (int j = 0; j < nj; ++j) for (int i = 0; i < ni; ++i) for (int c = 0; c < 2; ++c) { auto &q = keep(i, j); check_traced(c ? "v" : "u", w(i, j)[c], sample([&](int k, int l) { return keep(k, l)[c]; }, ni, nj, i - q[0] * dt / h, j - q[1] * dt / h), c ? vl : ul, c ? vh : uh, (std::fabs(q[0]) + std::fabs(q[1])) * dt / h); }
    // a uniform flow stays uniform, and a backtrace of whole cells copies
    { double a = g.r(-3, 3), b = g.r(-3, 3); A2 c(ni, nj, {a, b}); AdvectionSemiLagrangian_CellCenteredGrid2(c, t2, ni, nj, dt, h); for (auto &x : c.v) if (!(std::fabs(x[0] - a) < 1e-9 && std::fabs(x[1] - b) < 1e-9)) sim::violation("uniform-flow-changes", "%.9g %.9g became %.9g %.9g", a, b, x[0], x[1]); }
    sim::state(gen::hv(u, gen::hv(v, k))); }
  sim::nontrivial(); sim::mix(gen::hv(std::vector<std::array<double, 2>>(w.v), 5)); }
// ---- S02 position based dynamics
V3 centre(const VD &x, const std::vector<unsigned> *sel = nullptr) { V3 c = {0, 0, 0}; size_t n = x.size() / 3, m = 0; for (size_t i = 0; i < n; ++i) { if (sel && !std::count(sel->begin(), sel->end(), (unsigned) i)) continue; for (int d = 0; d < 3; ++d) c[d] += x[i * 3 + d]; ++m; } for (double &v : c) v /= std::max<size_t>(m, 1); return c; }
double extent(const VD &x) { double e = 0; for (double v : x) e = std::max(e, std::fabs(v)); return e; }
template <class F> bool maybe_oom(const char *what, F f) {   // true: memory ran out and was reported
  int k = sim::chance(1, 4) ? 1 + (int) sim::choose(6) : 0; bool threw = false, hit = false;
  { sim::Lib l; if (k) sim::alloc_fail_at(k); try { f(); } catch (std::bad_alloc &) { threw = true; } hit = k && sim::alloc_failed(); sim::alloc_fail_at(0); }
  if (hit) { sim::fault("allocation failure"); if (!threw) sim::violation("lost-error", "%s swallowed a failed allocation", what); }
  return threw; }
void keeps_centre(const char *what, const V3 &c0, const VD &x, double scale) { V3 c = centre(x); for (int d = 0; d < 3; ++d) if (!(std::fabs(c[d] - c0[d]) <= 1e-9 * (1 + scale) )) sim::violation("centre-moves", "%s moved the centre of mass by %.9g", what, norm(gen::sub(c, c0))); }
void pbd_cloth() {
  gen::Rng g = gen::rng(); gen::Mesh m = gen::grid(1 + (int) sim::choose(4), 1 + (int) sim::choose(4), g, 0); size_t np = m.xyz.size() / 3; auto jitter = [&] { return g.r(-.08, .08); };
  std::vector<CVec2d> xy(np); std::vector<std::array<double, 2>> xya(np); for (size_t i = 0; i < np; ++i) { xy[i] = CVec2d(m.xyz[i * 3] + jitter(), m.xyz[i * 3 + 1] + jitter()); xya[i] = {xy[i].x, xy[i].y}; }
  std::vector<std::array<unsigned, 3>> tri; for (size_t i = 0; i + 2 < m.tri.size(); i += 3) tri.push_back({m.tri[i], m.tri[i + 1], m.tri[i + 2]});
  std::vector<CDynTri> dt_; std::vector<CDynPntSur> dp; { sim::NoLib nl; InitializeMesh(dp, dt_, m.tri.data(), m.tri.size() / 3, np); }
  VU seam; int ns = (int) sim::choose(3); for (int i = 0; i < ns; ++i) { unsigned a = g.n((uint32_t) np), b = g.n((uint32_t) np); if (a != b) { seam.push_back(a); seam.push_back(b); } }
  VD x(np * 3), v(np * 3), t; double a = g.r(0, 6.28), b = g.r(-1, 1); for (size_t i = 0; i < np; ++i) { double p[3] = {xy[i].x, xy[i].y, 0}; double u = std::cos(a) * p[0] - std::sin(a) * p[1], w = std::sin(a) * p[0] + std::cos(a) * p[1]; x[i * 3] = u + 1; x[i * 3 + 1] = w * std::cos(b); x[i * 3 + 2] = w * std::sin(b) - 2; }
  { // the rest shape, moved as a whole, satisfies strain and bending: nothing moves
    VD y = x; PBD_TriStrain(y.data(), np, tri, xya); PBD_Bend(y.data(), np, dt_, xy, 1.0); for (size_t i = 0; i < y.size(); ++i) if (!(std::fabs(y[i] - x[i]) < 1e-9)) sim::violation("rest-moves", "coordinate %zu of a rigidly moved rest shape moved by %.9g", i, y[i] - x[i]); }
  for (double &c : v) c = g.r(-.5, .5); std::vector<int> bc(np, 0); for (size_t i = 0; i < np; ++i) if (g.n(6) == 0) bc[i] = 1 + (int) g.n(3);
  CKineticDamper damp; std::vector<double> es; int steps = 1 + (int) sim::choose(8); VD home = x;
  for (int k = 0; k < steps; ++k) { double dt; switch (sim::choose(4)) { case 0: dt = sim::real(1e-6, 1e-4); sim::fault("tiny time step"); break; case 1: dt = sim::real(.1, .4); sim::fault("clock jump"); break; default: dt = sim::real(.005, .03); } sim::vtime((uint64_t) (dt * 1e6) + 1);
    double gr[3] = {0, g.r(-1, 1), sim::chance(1, 2) ? -9.8 : 0};
    VD x0 = x, v0 = v; t.assign(sim::choose(2) * np * 3, 77.); PBD_Pre3D(t, dt, gr, x, v, bc);
    if (x != x0 || v != v0) sim::violation("prediction-moves-state", "positions or velocities changed");
    for (size_t i = 0; i < np * 3; ++i) { double want = bc[i / 3] ? x[i] : x[i] + dt * v[i] + dt * dt * gr[i % 3]; if (!(std::fabs(t[i] - want) <= 1e-12 * (1 + std::fabs(want)))) sim::violation("prediction-wrong", "coordinate %zu: %.17g, not %.17g", i, t[i], want); }
    int nit = (int) sim::choose(4); for (int it = 0; it < nit; ++it) { double sc = extent(t); if (!(sc < 1e3)) break; V3 c0 = centre(t);
      switch (sim::choose(3)) {
        case 0: maybe_oom("PBD_TriStrain", [&] { PBD_TriStrain(t.data(), np, tri, xya); }); keeps_centre("strain projection", c0, t, extent(t)); break;
        case 1: maybe_oom("PBD_Bend", [&] { PBD_Bend(t.data(), np, dt_, xy, 0.5); }); keeps_centre("bending projection", c0, t, extent(t)); break;
        default: { VD before = t; PBD_Seam(t.data(), np, seam.data(), seam.size() / 2); keeps_centre("seam projection", c0, t, sc);
          std::set<unsigned> in(seam.begin(), seam.end()); for (unsigned i = 0; i < np; ++i) if (!in.count(i) && !same(&t[i * 3], &before[i * 3], 24)) sim::violation("seam-moves-others", "point %u is in no seam but moved", i);
          if (seam.size() == 2) { double l0 = norm(gen::sub(at(before, seam[0]), at(before, seam[1]))), l1 = norm(gen::sub(at(t, seam[0]), at(t, seam[1]))), want = l0 > .01 ? l0 - .01 : 0; if (!(std::fabs(l1 - want) < 1e-9 * (1 + sc))) sim::violation("seam-not-closing", "ends %.9g apart, after a step %.9g (not %.9g)", l0, l1, want); } } }
      for (double c : t) if (!std::isfinite(c)) break; }
    bool fin = true; for (double c : t) fin = fin && std::isfinite(c) && std::fabs(c) < 1e6; if (!fin) break;
    VD xs = x, vs = v; PBD_Post(x, v, dt, t, bc);
    for (size_t i = 0; i < np * 3; ++i) { if (bc[i / 3]) { if (!same(&x[i], &home[i], 8) || !same(&v[i], &vs[i], 8)) sim::violation("pinned-point-moves", "pinned point %zu moved", i / 3); continue; }
      if (x[i] != t[i]) sim::violation("commit-wrong", "coordinate %zu is %.9g, not %.9g", i, x[i], t[i]); double want = (t[i] - xs[i]) / dt; if (!(std::fabs(v[i] - want) <= 1e-9 * (std::fabs(want) + 1e-12))) sim::violation("velocity-wrong", "velocity %zu is %.9g, not %.9g", i, v[i], want); }
    if (sim::chance(1, 4)) { double f = g.r(.1, 1.2); for (double &c : v) c *= f; }
    double e = 0; for (double c : v) e += c * c; es.push_back(e); VD vb = v; bool bad = maybe_oom("CKineticDamper", [&] { damp.Damp(v); });
    if (bad) { if (v != vb) sim::violation("failed-damping-acts", "velocities changed although memory ran out"); es.pop_back(); es.clear(); damp.aEnergy.clear(); continue; }
    size_t n = es.size(); bool peak = n > 3 && es[n - 2] > es[n - 3] && es[n - 1] < es[n - 2]; bool close = n > 3 && (std::fabs(es[n - 2] - es[n - 3]) < 1e-12 * es[n - 2] || std::fabs(es[n - 1] - es[n - 2]) < 1e-12 * es[n - 2]);
    if (!close) { if (peak) { sim::probe("kinetic peak"); for (double c : v) if (c != 0) sim::violation("peak-not-damped", "kinetic energies %.9g %.9g %.9g, but the motion goes on", es[n - 3], es[n - 2], es[n - 1]); } else if (v != vb) sim::violation("damped-without-peak", "velocities changed at energies %.9g", e); }
    sim::state(gen::hv(x, k)); }
  // progress: once nothing else acts, separate seams close within a bounded number of steps
  if (seam.size() == 2 && sim::chance(1, 2)) { double l = norm(gen::sub(at(x, seam[0]), at(x, seam[1]))); if (l < 5) { int n = (int) (l / .01) + 3; for (int i = 0; i < n; ++i) { double l0 = norm(gen::sub(at(x, seam[0]), at(x, seam[1]))); PBD_Seam(x.data(), np, seam.data(), 1); double l1 = norm(gen::sub(at(x, seam[0]), at(x, seam[1]))), want = l0 > .01 ? l0 - .01 : 0; if (std::fabs(l0 - .01) > 1e-9 && !(std::fabs(l1 - want) < 1e-9)) sim::violation("seam-not-closing", "ends %.9g apart, after a step %.9g (not %.9g)", l0, l1, want); } l = norm(gen::sub(at(x, seam[0]), at(x, seam[1]))); if (!(l < 1e-9)) sim::violation("seam-never-closes", "still %.9g apart after %d steps", l, n); sim::probe("seam closed"); } }
  sim::nontrivial(); sim::mix(gen::hv(x, 11)); }
void pbd_damper() {   // the damper on any course of the kinetic energy, rest included
  gen::Rng g = gen::rng(); CKineticDamper damp; std::vector<double> es; int n = 4 + (int) sim::choose(24), np = 1 + (int) g.n(3); bool coarse = sim::chance(1, 2);
  for (int k = 0; k < n; ++k) { sim::vtime(1); VD v(np * 3, 0.); double f; switch (sim::choose(4)) { case 0: f = 0; sim::fault("stopped"); break; case 1: f = es.empty() ? 1 : std::sqrt(es.back()); break; default: f = coarse ? (double) sim::range(1, 3) : g.r(0, 4); } if (sim::chance(1, 2)) v[g.n(np * 3)] = f; else { for (double &c : v) c = g.r(-1, 1); double l = 0; for (double c : v) l += c * c; for (double &c : v) c *= f / std::sqrt(l); }
    double e = 0; for (size_t i = 0; i + 2 < v.size(); i += 3) e += v[i] * v[i] + v[i + 1] * v[i + 1] + v[i + 2] * v[i + 2]; VD b = v; { sim::Lib l; damp.Damp(v); } es.push_back(e); size_t m = es.size(); bool near = false; for (size_t i = m > 3 ? m - 3 : 0; i + 1 < m; ++i) near = near || (es[i] + es[i + 1] > 0 && std::fabs(es[i] - es[i + 1]) < 1e-9 * (es[i] + es[i + 1])); if (near || m < 4) { if (m < 4 && v != b) sim::violation("damped-without-peak", "velocities changed at call %zu", m); continue; }
    bool peak = es[m - 2] > es[m - 3] && es[m - 1] < es[m - 2]; if (peak) { sim::probe("kinetic peak"); for (double c : v) if (c != 0) sim::violation("peak-not-damped", "kinetic energies %.9g %.9g %.9g, but the motion goes on", es[m - 3], es[m - 2], es[m - 1]); } else if (v != b) sim::violation("damped-without-peak", "velocities changed at energies %.9g %.9g %.9g", es[m - 3], es[m - 2], es[m - 1]);
    sim::state(sim::hash_u64(peak, sim::hash_u64((uint64_t) (e * 8), k))); }
  sim::nontrivial(); }
// one triangle strained and one hinge bent: repeated projections return to the rest shape, a soft one removes just its fraction
void pbd_lone() {
  gen::Rng g = gen::rng(); double P[4][2]; for (int it = 0;; ++it) { P[0][0] = g.r(-.5, .5); P[0][1] = g.r(.4, 1); P[1][0] = g.r(-.5, .5); P[1][1] = -g.r(.4, 1); P[2][0] = g.r(-1, -.6); P[2][1] = g.r(-.1, .1); P[3][0] = g.r(.6, 1); P[3][1] = g.r(-.1, .1); break; }   // the hinge runs from 2 to 3
  double a = g.r(0, 6.28), sc = std::pow(10., g.r(-1, 1)); for (auto &p : P) { double u = p[0], v = p[1]; p[0] = sc * (std::cos(a) * u - std::sin(a) * v) + 3; p[1] = sc * (std::sin(a) * u + std::cos(a) * v); }
  VU tri = {0, 2, 3, 1, 3, 2}; int turn = (int) g.n(3); std::rotate(tri.begin(), tri.begin() + turn, tri.begin() + 3); turn = (int) g.n(3); std::rotate(tri.begin() + 3, tri.begin() + 3 + turn, tri.end()); if (g.n(2)) std::swap_ranges(tri.begin(), tri.begin() + 3, tri.begin() + 3);
  // a stray point in front moves the numbers away from the local ones
  unsigned off = g.n(3); for (auto &t : tri) t += off; size_t np = 4 + off; std::vector<CVec2d> xy(np, CVec2d(7, 7)); std::vector<std::array<double, 2>> xya(np, {7., 7.}); for (int i = 0; i < 4; ++i) { xy[off + i] = CVec2d(P[i][0], P[i][1]); xya[off + i] = {P[i][0], P[i][1]}; }
  std::vector<CDynTri> dt_; std::vector<CDynPntSur> dp; { sim::NoLib nl; InitializeMesh(dp, dt_, tri.data(), 2, np); }
  auto start = [&](double amount) { VD x(np * 3, 5.); double q[4] = {g.r(-1, 1), g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)}; double l = 0; for (double v : q) l += v * v; l = std::sqrt(l); for (double &v : q) v /= l; double R[9] = {1 - 2 * (q[1] * q[1] + q[2] * q[2]), 2 * (q[0] * q[1] - q[2] * q[3]), 2 * (q[0] * q[2] + q[1] * q[3]), 2 * (q[0] * q[1] + q[2] * q[3]), 1 - 2 * (q[0] * q[0] + q[2] * q[2]), 2 * (q[1] * q[2] - q[0] * q[3]), 2 * (q[0] * q[2] - q[1] * q[3]), 2 * (q[1] * q[2] + q[0] * q[3]), 1 - 2 * (q[0] * q[0] + q[1] * q[1])};
    for (int i = 0; i < 4; ++i) { double u[3] = {P[i][0] + g.r(-1, 1) * amount * sc, P[i][1] + g.r(-1, 1) * amount * sc, g.r(-1, 1) * amount * sc}; for (int d = 0; d < 3; ++d) x[(off + i) * 3 + d] = R[d * 3] * u[0] + R[d * 3 + 1] * u[1] + R[d * 3 + 2] * u[2]; } return x; };
  auto dist = [&](const VD &x, unsigned i, unsigned j) { return norm(gen::sub(at(x, i), at(x, j))); };
  { // strain
    VD x = start(.1); int which = (int) g.n(2); std::vector<std::array<unsigned, 3>> one = {{tri[which * 3], tri[which * 3 + 1], tri[which * 3 + 2]}}; double worst = 1e9; int k = 0; VD y = x; for (; k < 12; ++k) { y = x; if (maybe_oom("PBD_TriStrain", [&] { PBD_TriStrain(x.data(), np, one, xya); })) x = y; }
    worst = 0; for (int i = 0; i < 3; ++i) { unsigned p = one[0][i], q = one[0][(i + 1) % 3]; double L = std::hypot(xya[p][0] - xya[q][0], xya[p][1] - xya[q][1]); worst = std::max(worst, std::fabs(dist(x, p, q) - L) / L); } if (!(worst < 1e-3)) sim::violation("strain-stays", "after %d strain projections of one triangle an edge is still %.9g off its rest length", k, worst); }
  { // bending: the affine relation of the four rest points, K0 P0 + K1 P1 + K2 P2 + K3 P3 = 0 with K0 + .. + K3 = 0
    auto area = [&](int i, int j, int k) { return (P[j][0] - P[i][0]) * (P[k][1] - P[i][1]) - (P[k][0] - P[i][0]) * (P[j][1] - P[i][1]); }; double K[4] = {area(1, 2, 3), -area(0, 2, 3), area(0, 1, 3), -area(0, 1, 2)}; double kk = 0; for (double v : K) kk = std::max(kk, std::fabs(v)); for (double &v : K) v /= kk;
    VD x = start(.3); double ratio = sim::chance(1, 3) ? 1 : g.r(0, 1); V3 c0 = {0, 0, 0}, c1 = {0, 0, 0}; for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) c0[d] += K[i] * x[(off + i) * 3 + d]; VD y = x;
    if (!maybe_oom("PBD_Bend", [&] { PBD_Bend(y.data(), np, dt_, xy, ratio); })) { for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) c1[d] += K[i] * y[(off + i) * 3 + d]; for (int d = 0; d < 3; ++d) if (!(std::fabs(c1[d] - (1 - ratio) * c0[d]) < 1e-7 * sc)) sim::violation("bending-wrong", "a bending projection of stiffness %.9g turned the bending %.9g of a lone hinge into %.9g", ratio, c0[d], c1[d]);
      for (unsigned i = 0; i < off; ++i) if (!same(&x[i * 3], &y[i * 3], 24)) sim::violation("moves-others", "point %u takes no part but moved", i); } }
  sim::nontrivial(); sim::mix(sim::hash_u64(turn, off)); }
void pbd_const3() {   // one projection: centre of mass and the linearised constraint
  gen::Rng g = gen::rng(); int np = 3 + (int) g.n(2); VD x(8 * 3), m(np); for (double &c : x) c = g.r(-2, 2); for (double &c : m) c = g.r(.2, 5); VU ip; while ((int) ip.size() < np) { unsigned k = g.n(8); if (!std::count(ip.begin(), ip.end(), k)) ip.push_back(k); }
  VD dC(3 * np * 3), C(3); for (int c = 0; c < 3; ++c) { C[c] = g.r(-1, 1); for (int d = 0; d < 3; ++d) { double s = 0; for (int i = 0; i < np; ++i) { double &q = dC[c * np * 3 + i * 3 + d]; q = i + 1 < np ? g.r(-1, 1) : -s; s += q; } } }
  double det; { double A[9] = {0}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int i = 0; i < np * 3; ++i) A[a * 3 + b] += dC[a * np * 3 + i] * dC[b * np * 3 + i] / m[i / 3]; det = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]); if (std::fabs(det) < 1e-2) return; }
  double ratio = sim::chance(1, 2) ? 1 : g.r(0, 1); VD y = x; if (maybe_oom("PBD_Update_Const3", [&] { PBD_Update_Const3(y.data(), np, 3, m.data(), C.data(), dC.data(), ip.data(), ratio); })) { if (y != x) sim::violation("failed-step-acts", "points moved although memory ran out"); return; }
  for (unsigned i = 0; i < 8; ++i) if (!std::count(ip.begin(), ip.end(), i) && !same(&x[i * 3], &y[i * 3], 24)) sim::violation("moves-others", "point %u takes no part but moved", i);
  for (int d = 0; d < 3; ++d) { double s = 0; for (int i = 0; i < np; ++i) s += m[i] * (y[ip[i] * 3 + d] - x[ip[i] * 3 + d]); if (!(std::fabs(s) < 1e-8)) sim::violation("centre-moves", "weighted displacement %.9g", s); }
  for (int c = 0; c < 3; ++c) { double s = 0; for (int i = 0; i < np; ++i) for (int d = 0; d < 3; ++d) s += dC[c * np * 3 + i * 3 + d] * (y[ip[i] * 3 + d] - x[ip[i] * 3 + d]); if (!(std::fabs(s + ratio * C[c]) < 1e-8)) sim::violation("constraint-not-met", "constraint %d changes by %.9g, not %.9g", c, s, -ratio * C[c]); }
  sim::nontrivial(); sim::mix(gen::hv(y, 13)); }
template <int D> void pbd_shape() {   // clusters of points pulled to a rotated copy of their rest shape
  gen::Rng g = gen::rng(); size_t np = D + 1 + g.n(10); VD r(np * D), x, v(np * D); for (double &c : r) c = g.r(-1, 1);
  if (sim::chance(1, 2)) { int nx = 2 + (int) g.n(4), ny = 1 + (int) g.n(3), nz = D == 3 ? 1 + (int) g.n(2) : 0; double s[3] = {g.r(.3, 1), g.r(.3, 1), g.r(.3, 1)}; r.clear(); for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { double p[3] = {i * s[0], j * s[1], k * s[2]}; for (int d = 0; d < D; ++d) r.push_back(p[d]); } np = r.size() / D; v.resize(np * D); sim::probe("axis-aligned shape"); }
  std::vector<std::vector<unsigned>> cl; if (sim::chance(1, 2)) { cl.emplace_back(); for (unsigned i = 0; i < np; ++i) cl[0].push_back(i); } else { unsigned off = g.n((uint32_t) (np - D)); cl.emplace_back(); for (unsigned i = off; i < np; ++i) cl[0].push_back(i); if (off > (unsigned) D) { cl.emplace_back(); for (unsigned i = 0; i < off; ++i) cl[1].push_back(i); } }
  VU ind = {0}, idx; for (auto &c : cl) { idx.insert(idx.end(), c.begin(), c.end()); ind.push_back((unsigned) idx.size()); } std::vector<int> indi(ind.begin(), ind.end()), idxi(idx.begin(), idx.end());
  x = r; int steps = 1 + (int) sim::choose(6);
  auto project = [&](double *t, double st) { if (D == 2) PBD_ConstProj_Rigid2D(t, st, ind.data(), ind.size(), idx.data(), idx.size(), r.data(), np); else PBD_ConstProj_Rigid3D(t, st, indi.data(), (int) indi.size(), idxi.data(), (int) idxi.size(), r.data(), (int) np); };
  for (int k = 0; k < steps; ++k) { VD t = x, b; int mode = (int) sim::choose(5);
    if (mode == 0) { double f[3] = {g.r(.5, 2), g.r(.5, 2), g.r(.5, 2)}; for (size_t i = 0; i < t.size(); ++i) t[i] = r[i] * f[i % D]; }             // stretched along the axes
    else if (mode == 1) t = r;
    else if (mode == 2) { double a = g.r(0, 6.28), c = std::cos(a), s = std::sin(a), e = g.r(-3, 3); int ax = D == 3 ? (int) g.n(3) : 0; for (size_t i = 0; i < np; ++i) { double *q = &t[i * D]; const double *o = &r[i * D]; for (int d = 0; d < D; ++d) q[d] = o[d] + e; int A = ax % D, B = (ax + 1) % D; q[A] = c * o[A] - s * o[B] + e; q[B] = s * o[A] + c * o[B]; } }
    else { double amp = mode == 3 ? .1 : .5; for (double &c : t) c += g.r(-amp, amp); }
    b = t; double st = sim::chance(1, 2) ? 1. : g.r(0, 1); project(t.data(), st); double sc = extent(b);
    for (size_t c = 0; c < cl.size(); ++c) { double w = 0; for (int d = 0; d < D; ++d) { double s = 0; for (unsigned i : cl[c]) s += t[i * D + d] - b[i * D + d]; w = std::max(w, std::fabs(s)); } if (!(w <= 1e-8 * (1 + sc) * np)) sim::violation("centre-moves", "shape projection moved the centre of a cluster by %.9g", w / cl[c].size());
      // rank of the cluster: a rotation is defined only if the points span the space
      VD q; for (unsigned i : cl[c]) for (int d = 0; d < D; ++d) q.push_back(0); double ce[3] = {0}, cd[3] = {0}; for (unsigned i : cl[c]) for (int d = 0; d < D; ++d) { ce[d] += r[i * D + d] / cl[c].size(); cd[d] += b[i * D + d] / cl[c].size(); }
      double M[9] = {0}; for (unsigned i : cl[c]) for (int d = 0; d < D; ++d) for (int e = 0; e < D; ++e) M[d * D + e] += (b[i * D + d] - cd[d]) * (r[i * D + e] - ce[e]);
      double det = D == 2 ? M[0] * M[3] - M[1] * M[2] : M[0] * (M[4] * M[8] - M[5] * M[7]) - M[1] * (M[3] * M[8] - M[5] * M[6]) + M[2] * (M[3] * M[7] - M[4] * M[6]); double nm = 0; for (double e : M) nm += e * e; if (!(det > (D == 3 ? 1e-4 : 1e-2) * std::pow(nm, D * .5))) continue;
      if (st == 1) for (unsigned i : cl[c]) for (unsigned j : cl[c]) { double a = 0, e = 0; for (int d = 0; d < D; ++d) { a += (t[i * D + d] - t[j * D + d]) * (t[i * D + d] - t[j * D + d]); e += (r[i * D + d] - r[j * D + d]) * (r[i * D + d] - r[j * D + d]); } if (!(std::fabs(std::sqrt(a) - std::sqrt(e)) < 1e-6)) sim::violation("shape-not-rigid", "points %u and %u are %.9g apart, %.9g at rest (%dD)", i, j, std::sqrt(a), std::sqrt(e), D); }
      if (mode <= 2 && mode >= 1) for (unsigned i : cl[c]) for (int d = 0; d < D; ++d) if (!(std::fabs(t[i * D + d] - b[i * D + d]) < 1e-6)) sim::violation("rest-moves", "a rigidly moved shape was changed by %.9g (%dD)", t[i * D + d] - b[i * D + d], D);
      // the projection never takes the cluster further from the goal: it moves each point by st towards a best-fitting copy
      if (mode == 0 && st == 1) for (unsigned i : cl[c]) for (int d = 0; d < D; ++d) { double want = r[i * D + d] - ce[d] + cd[d]; if (cl.size() == 1 && !(std::fabs(t[i * D + d] - want) < 1e-5)) { double off = 0; for (int a = 0; a < D; ++a) for (int e = 0; e < D; ++e) if (a != e) off = std::max(off, std::fabs(M[a * D + e])); if (off < 1e-9 * std::sqrt(nm)) sim::violation("turns-without-cause", "stretched along the axes, the copy is turned: %.9g, not %.9g (%dD)", t[i * D + d], want, D); } } }
    std::set<unsigned> in(idx.begin(), idx.end()); for (unsigned i = 0; i < np; ++i) if (!in.count(i) && !same(&t[i * D], &b[i * D], 8 * D)) sim::violation("moves-others", "point %u is in no cluster but moved", i);
    x = t; sim::state(gen::hv(x, k)); }
  sim::nontrivial(); sim::mix(gen::hv(x, D)); }
void pbd_shape2() { pbd_shape<2>(); }
void pbd_shape3() { pbd_shape<3>(); }
// ---- S03 rigid bodies in the plane
CRigidState2 body(gen::Rng &g, double cx, double cy, bool fix, double rad) {
  CRigidState2 b; b.is_fix = fix; int n = 3 + (int) g.n(5); double ph = g.r(0, 6.28); for (int i = 0; i < n; ++i) { double a = ph + 6.283185307179586 * i / n, r = rad * g.r(.7, 1.); b.shape.push_back(CVec2d(r * std::cos(a) + .3, r * std::sin(a) - .2)); }
  b.shape_velo.assign(n, CVec2d(0, 0)); double A = 0, sx = 0, sy = 0; for (int i = 0; i < n; ++i) { auto &p = b.shape[i], &q = b.shape[(i + 1) % n]; double c = p.x * q.y - q.x * p.y; A += c / 2; sx += c * (p.x + q.x) / 6; sy += c * (p.y + q.y) / 6; }
  b.posl = CVec2d(sx / A, sy / A); b.mass = A * g.r(.5, 3); b.I = b.mass * rad * rad * .5; b.posg = CVec2d(cx, cy); b.theta = g.r(-3, 3); b.velo = CVec2d(g.r(-1, 1), g.r(-1, 1)); b.omega = g.r(-2, 2); b.posg_tmp = CVec2d(99, 99); b.theta_tmp = 1e9; return b; }
// one corner in one body and nothing else touches: where the textbook correction puts the two bodies, and Coulomb friction (coefficient one) after it
struct Plane { double X, Y, th, vx, vy, om; };
std::array<double, 2> glob(const CRigidState2 &b, const Plane &q, const CVec2d &p) { double dx = p.x - b.posl.x, dy = p.y - b.posl.y, c = std::cos(q.th), s = std::sin(q.th); return {c * dx - s * dy + q.X, s * dx + c * dy + q.Y}; }
// how deep a point is inside a convex-enough outline: >0 inside; the nearest point of the outline, or ambiguous
int depth_in(const std::vector<std::array<double, 2>> &P, double x, double y, double &dep, double &ex, double &ey, size_t &edge, double &rat) {
  double w = 0, d1 = 1e300, d2 = 1e300; size_t n = P.size(); for (size_t i = 0; i < n; ++i) { auto &a = P[i], &b = P[(i + 1) % n]; double ax = a[0] - x, ay = a[1] - y, bx = b[0] - x, by = b[1] - y; w += std::atan2(ax * by - ay * bx, ax * bx + ay * by);
    double ux = b[0] - a[0], uy = b[1] - a[1], r = std::max(0., std::min(1., -(ax * ux + ay * uy) / (ux * ux + uy * uy))), px = a[0] + r * ux, py = a[1] + r * uy, d = std::hypot(px - x, py - y); if (d < d1) { d2 = d1; d1 = d; ex = px; ey = py; edge = i; rat = r; } else d2 = std::min(d2, d); }
  dep = d1; bool in = std::fabs(w - 6.283185307179586) < 1e-3; if (d1 < 1e-4) return -1; if (in && (d2 - d1 < 1e-6 || rat < 1e-6 || rat > 1 - 1e-6)) return -1; return in; }
bool one_contact(const std::vector<CRigidState2> &w, double dt, CVec2d gr, std::vector<Plane> &q, size_t &A, size_t &B, double &depth) {
  size_t n = w.size(); q.assign(n, Plane()); for (size_t i = 0; i < n; ++i) { auto &b = w[i]; Plane &p = q[i]; p.vx = b.is_fix ? 0 : b.velo.x + gr.x * dt; p.vy = b.is_fix ? 0 : b.velo.y + gr.y * dt; p.om = b.is_fix ? 0 : b.omega; p.X = b.posg.x + dt * p.vx; p.Y = b.posg.y + dt * p.vy; p.th = b.theta + dt * p.om; }
  auto sweep = [&](int &cnt, size_t &a, size_t &b, size_t &ip, size_t &ie, double &re, double &dep, double pt[2], double ep[2]) -> bool { cnt = 0; std::vector<std::vector<std::array<double, 2>>> out(n); for (size_t i = 0; i < n; ++i) for (auto &p : w[i].shape) out[i].push_back(glob(w[i], q[i], p));
    for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < out[i].size(); ++k) for (size_t j = 0; j < n; ++j) if (i != j) { double d, ex, ey, r; size_t e; int in = depth_in(out[j], out[i][k][0], out[i][k][1], d, ex, ey, e, r); if (in < 0) return false; if (in) { ++cnt; a = i; b = j; ip = k; ie = e; re = r; dep = d; pt[0] = out[i][k][0]; pt[1] = out[i][k][1]; ep[0] = ex; ep[1] = ey; } } return true; };
  int cnt; size_t ip, ie; double re, pt[2], ep[2]; if (!sweep(cnt, A, B, ip, ie, re, depth, pt, ep) || cnt != 1 || depth < 1e-4) return false; if (w[A].is_fix && w[B].is_fix) return false;
  double nx = (ep[0] - pt[0]) / depth, ny = (ep[1] - pt[1]) / depth, ta = (pt[0] - w[A].posg.x) * ny - (pt[1] - w[A].posg.y) * nx, tb = (ep[0] - w[B].posg.x) * ny - (ep[1] - w[B].posg.y) * nx;
  double ia = w[A].is_fix ? 0 : 1 / w[A].mass, ja = w[A].is_fix ? 0 : 1 / w[A].I, ib = w[B].is_fix ? 0 : 1 / w[B].mass, jb = w[B].is_fix ? 0 : 1 / w[B].I, lam = depth / (ia + ta * ta * ja + ib + tb * tb * jb);
  q[A].X += lam * ia * nx; q[A].Y += lam * ia * ny; q[A].th += lam * ja * ta; q[B].X -= lam * ib * nx; q[B].Y -= lam * ib * ny; q[B].th -= lam * jb * tb;
  // the correction may push other corners together, which are then corrected in turn; the corner itself is left on or near the outline
  { std::vector<std::vector<std::array<double, 2>>> out(n); for (size_t i = 0; i < n; ++i) for (auto &p : w[i].shape) out[i].push_back(glob(w[i], q[i], p)); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < out[i].size(); ++k) for (size_t j = 0; j < n; ++j) if (i != j && !(i == A && j == B && k == ip)) { double d, ex, ey, r; size_t e; if (depth_in(out[j], out[i][k][0], out[i][k][1], d, ex, ey, e, r)) return false; } }
  for (size_t i = 0; i < n; ++i) { q[i].vx = w[i].is_fix ? 0 : (q[i].X - w[i].posg.x) / dt; q[i].vy = w[i].is_fix ? 0 : (q[i].Y - w[i].posg.y) / dt; q[i].om = w[i].is_fix ? 0 : (q[i].th - w[i].theta) / dt; }
  // friction along the outline: as much as stops the slip, at most as strong as the push
  auto turn = [](double th, const CVec2d &v, double &x, double &y) { x = std::cos(th) * v.x - std::sin(th) * v.y; y = std::sin(th) * v.x + std::cos(th) * v.y; };
  auto &sb = w[B].shape; size_t nb = sb.size(), i1 = (ie + 1) % nb; CVec2d PB = (1 - re) * sb[ie] + re * sb[i1], VB = (1 - re) * w[B].shape_velo[ie] + re * w[B].shape_velo[i1]; auto pa = glob(w[A], q[A], w[A].shape[ip]), pb = glob(w[B], q[B], PB); double sax, say, sbx, sby, tx, ty; turn(q[A].th, w[A].shape_velo[ip], sax, say); turn(q[B].th, VB, sbx, sby); turn(q[B].th - w[B].theta - dt * (w[B].is_fix ? 0 : w[B].omega), CVec2d(ny, -nx), tx, ty);
  double rax = pa[0] - q[A].X, ray = pa[1] - q[A].Y, rbx = pb[0] - q[B].X, rby = pb[1] - q[B].Y, slip = (q[A].vx - q[A].om * ray + sax - q[B].vx + q[B].om * rby - sbx) * tx + (q[A].vy + q[A].om * rax + say - q[B].vy - q[B].om * rbx - sby) * ty, ca = rax * ty - ray * tx, cb = rbx * ty - rby * tx, k = ia + ca * ca * ja + ib + cb * cb * jb, J = slip / k, top = lam / dt; if (J > top) J = top; if (J < -top) J = -top;
  q[A].vx -= J * ia * tx; q[A].vy -= J * ia * ty; q[A].om -= J * ja * ca; q[B].vx += J * ib * tx; q[B].vy += J * ib * ty; q[B].om += J * jb * cb; return true; }
void rigid2() {
  gen::Rng g = gen::rng(); int n = 1 + (int) sim::choose(6); std::vector<CRigidState2> w; double spread = sim::real(.6, 3); bool anyfix = sim::chance(1, 2);
  for (int i = 0; i < n; ++i) w.push_back(body(g, g.r(-1, 1) * spread, g.r(-1, 1) * spread, anyfix && g.n(3) == 0, g.r(.3, .8)));
  { CRigidState2 far = body(g, 1e3, 1e3, false, .5); w.push_back(far); }   // touches nothing
  int steps = 1 + (int) sim::choose(12); std::vector<CRigidState2> start = w;
  for (int k = 0; k < steps; ++k) { double dt; switch (sim::choose(4)) { case 0: dt = sim::real(1e-6, 1e-4); sim::fault("tiny time step"); break; case 1: dt = sim::real(.1, .5); sim::fault("clock jump"); break; default: dt = sim::real(.005, .03); } sim::vtime((uint64_t) (dt * 1e6) + 1);
    CVec2d gr(0, sim::chance(1, 2) ? -10 : 0); if (sim::chance(1, 4)) for (auto &b : w) for (auto &v : b.shape_velo) v = CVec2d(g.r(-.5, .5), g.r(-.5, .5));
    std::vector<CRigidState2> before = w, again = w; double px = 0, py = 0, mm = 0, ps = 0; bool fix = false;
    for (auto &b : w) { if (b.is_fix) { fix = true; continue; } px += b.mass * b.velo.x; py += b.mass * (b.velo.y + gr.y * dt); mm += b.mass; ps += b.mass * (b.velo.norm() + 10 * dt); }
    if (maybe_oom("Steptime_Rgd2", [&] { Steptime_Rgd2(w, dt, gr); })) { w = before; }
    else {
      for (size_t i = 0; i < w.size(); ++i) { auto &b = w[i], &o = before[i];
        if (!std::isfinite(b.posg.x + b.posg.y + b.theta + b.velo.x + b.velo.y + b.omega)) sim::violation("not-finite", "body %zu", i);
        if (b.is_fix && (!same(b.posg.p, o.posg.p, 16) || b.theta != o.theta || b.velo.x != 0 || b.velo.y != 0 || b.omega != 0)) sim::violation("fixed-body-moves", "body %zu moved by %.9g %.9g, turned by %.9g, velocity %.9g %.9g %.9g", i, b.posg.x - o.posg.x, b.posg.y - o.posg.y, b.theta - o.theta, b.velo.x, b.velo.y, b.omega);
        bool same_shape = b.shape.size() == o.shape.size() && b.mass == o.mass && b.I == o.I && b.posl.x == o.posl.x && b.posl.y == o.posl.y && b.is_fix == o.is_fix; for (size_t j = 0; same_shape && j < b.shape.size(); ++j) same_shape = b.shape[j].x == o.shape[j].x && b.shape[j].y == o.shape[j].y; if (!same_shape) sim::violation("body-changes", "body %zu changed shape, mass or kind", i); }
      double qx = 0, qy = 0; for (auto &b : w) if (!b.is_fix) { qx += b.mass * b.velo.x; qy += b.mass * b.velo.y; ps += b.mass * b.velo.norm(); }
      bool tiny = dt < 1e-3; if (!fix && !(std::fabs(qx - px) <= 1e-9 * (1 + ps) + (tiny ? 1e-10 * mm * 1e3 / dt * 1e-1 : 0) && std::fabs(qy - py) <= 1e-9 * (1 + ps) + (tiny ? 1e-10 * mm * 1e3 / dt * 1e-1 : 0))) sim::violation("momentum-lost", "momentum %.9g %.9g became %.9g %.9g without an outside force", px, py, qx, qy);
      double turn0 = 0, turn1 = 0, big = 0; for (size_t i = 0; i < w.size(); ++i) { auto &b = w[i], &o = before[i]; if (b.is_fix) continue; double X = o.posg.x, Y = o.posg.y, vx = o.velo.x + dt * gr.x, vy = o.velo.y + dt * gr.y; turn0 += b.mass * (X * vy - Y * vx) * dt + b.I * o.omega * dt; turn1 += b.mass * (X * (b.posg.y - Y) - Y * (b.posg.x - X)) + b.I * (b.theta - o.theta); big += b.mass * (std::fabs(X) + std::fabs(Y) + 1) * (std::fabs(b.posg.x - X) + std::fabs(b.posg.y - Y) + 1e-3); }
      if (!fix && !(std::fabs(turn1 - turn0) <= 1e-9 * big + 1e-9)) sim::violation("spin-gained", "contacts changed the angular momentum of the motion from %.12g to %.12g", turn0, turn1);
      std::vector<Plane> q; size_t A, B; double depth; if (dt > 1e-3 && one_contact(before, dt, gr, q, A, B, depth)) { sim::probe("single contact"); sim::probe(before[A].is_fix || before[B].is_fix ? "contact with a fixed body" : "contact of two free bodies");
        for (size_t i : {A, B}) { auto &b = w[i]; auto &p = q[i]; if (!(std::fabs(b.posg.x - p.X) < 1e-7 && std::fabs(b.posg.y - p.Y) < 1e-7 && std::fabs(b.theta - p.th) < 1e-7 * (1 + std::fabs(p.th)))) sim::violation("contact-wrong", "a single contact of depth %.9g between bodies %zu and %zu put body %zu at %.9g %.9g %.9g, not %.9g %.9g %.9g", depth, A, B, i, b.posg.x, b.posg.y, b.theta, p.X, p.Y, p.th);
          double e = 1e-6 * (1 + std::fabs(p.vx) + std::fabs(p.vy) + std::fabs(p.om)) + 1e-7 / dt; if (!(std::fabs(b.velo.x - p.vx) < e && std::fabs(b.velo.y - p.vy) < e && std::fabs(b.omega - p.om) < e)) sim::violation("friction-wrong", "after a single contact of bodies %zu and %zu body %zu moves with %.9g %.9g %.9g, not %.9g %.9g %.9g", A, B, i, b.velo.x, b.velo.y, b.omega, p.vx, p.vy, p.om); } }
      auto &f = w.back(), &o = before.back(); CVec2d v = o.velo + gr * dt; double e = 1e-9 * (1 + std::fabs(v.y)) + 1e-12 / dt; if (!(std::fabs(f.velo.x - v.x) < e && std::fabs(f.velo.y - v.y) < e && std::fabs(f.posg.x - o.posg.x - v.x * dt) < 1e-9 * (1 + std::fabs(v.x * dt)) && std::fabs(f.posg.y - o.posg.y - v.y * dt) < 1e-9 * (1 + std::fabs(v.y * dt)) && std::fabs(f.theta - o.theta - o.omega * dt) < 1e-9 && std::fabs(f.omega - o.omega) < e)) sim::violation("free-flight-wrong", "a body that touches nothing left its path");
      for (auto &b : again) { b.posg_tmp = CVec2d(std::nan(""), 3); b.theta_tmp = std::nan(""); } if (sim::chance(1, 2)) { sim::fault("restart"); Steptime_Rgd2(again, dt, gr); for (size_t i = 0; i < w.size(); ++i) if (!same(w[i].posg.p, again[i].posg.p, 16) || !same(&w[i].theta, &again[i].theta, 8) || !same(w[i].velo.p, again[i].velo.p, 16) || !same(&w[i].omega, &again[i].omega, 8)) sim::violation("restart-differs", "body %zu", i); } }
    bool big = false; uint64_t h = k; for (auto &b : w) { big = big || std::fabs(b.posg.x) > 1e5 || b.velo.norm() > 1e6; h = sim::hash_bytes(b.posg.p, 16, h); } sim::state(h); sim::mix(h); if (big) break; }
  sim::nontrivial(); }
// two bodies pushed into each other: contact separates them, friction never turns the slip round
void rigid2_pair() {
  gen::Rng g = gen::rng(); std::vector<CRigidState2> w; double W = g.r(1, 3), H = g.r(.2, .6); CRigidState2 floor; floor.is_fix = true; floor.shape = {CVec2d(-W, -H), CVec2d(W, -H), CVec2d(W, H), CVec2d(-W, H)}; floor.shape_velo.assign(4, CVec2d(0, 0)); floor.posl = CVec2d(0, 0); floor.mass = 1; floor.I = 1; floor.posg = CVec2d(g.r(-1, 1), g.r(-1, 1)); floor.theta = g.r(-.5, .5); floor.velo = CVec2d(0, 0); floor.omega = 0; floor.posg_tmp = CVec2d(0, 0); floor.theta_tmp = 0;
  CRigidState2 b = body(g, 0, 0, false, g.r(.2, .6)); b.theta = g.r(-3, 3); b.omega = g.r(-1, 1);
  // place the lowest corner a little above the top of the floor, in the floor's frame
  double c = std::cos(floor.theta), s = std::sin(floor.theta), low = 1e9; for (auto &p : b.shape) { double dx = p.x - b.posl.x, dy = p.y - b.posl.y, x = std::cos(b.theta) * dx - std::sin(b.theta) * dy, y = std::sin(b.theta) * dx + std::cos(b.theta) * dy; low = std::min(low, -s * x + c * y); }
  double gap = g.r(1e-3, .05), t = g.r(-.4, .4) * W, hgt = H - low + gap; b.posg = CVec2d(floor.posg.x + c * t - s * hgt, floor.posg.y + s * t + c * hgt); double vn = -g.r(.1, 1.5), vt = g.r(-1, 1); b.velo = CVec2d(c * vt - s * vn, s * vt + c * vn);
  bool swap = sim::chance(1, 2); if (swap) { w.push_back(b); w.push_back(floor); } else { w.push_back(floor); w.push_back(b); } size_t ib = swap ? 0 : 1; int steps = 1 + (int) sim::choose(20); bool touched = false;
  for (int k = 0; k < steps; ++k) { double dt = sim::real(.002, .02); sim::vtime((uint64_t) (dt * 1e6)); auto before = w; Steptime_Rgd2(w, dt, CVec2d(0, 0)); auto &o = before[ib], &x = w[ib];
    double px = x.velo.x - o.velo.x, py = x.velo.y - o.velo.y; if (std::fabs(px) + std::fabs(py) < 1e-9) continue; touched = true; double dn = -s * px + c * py, dt_ = c * px + s * py;
    if (dn < -1e-9) sim::violation("contact-pulls", "the floor pulled the body: normal velocity change %.9g", dn);
    if (!(std::fabs(dt_) <= dn * 1.0001 + .3 * dn + 1e-9)) { // several contacts in one step may turn the body in between
      sim::probe("large friction"); }
    { // one corner in the floor and nothing else: the correction is the textbook one
      double th = o.theta + dt * o.omega, X = o.posg.x + dt * o.velo.x, Y = o.posg.y + dt * o.velo.y; int in = 0; double pen = 0, rx = 0, ry = 0; bool odd = false;
      for (auto &p : o.shape) { double dx = p.x - o.posl.x, dy = p.y - o.posl.y, qx = std::cos(th) * dx - std::sin(th) * dy + X, qy = std::sin(th) * dx + std::cos(th) * dy + Y, u = c * (qx - floor.posg.x) + s * (qy - floor.posg.y), v = -s * (qx - floor.posg.x) + c * (qy - floor.posg.y); if (v < H + .02 && std::fabs(u) > W - .05) odd = true; if (std::fabs(v - H) < 1e-4) odd = true; if (v < H) { ++in; pen = H - v; rx = qx - o.posg.x; ry = qy - o.posg.y; if (v < 0) odd = true; } }
      // floor corners inside the body are ruled out because the body stays well within the floor's width
      if (in == 1 && !odd && pen < H * .4) { double nx = -s, ny = c, t0 = rx * ny - ry * nx, lam = pen / (1 / o.mass + t0 * t0 / o.I); double wx = X + lam / o.mass * nx, wy = Y + lam / o.mass * ny, wt = th + t0 * lam / o.I; bool more = false;
        // the correction must not push another corner into the floor, which is then corrected in turn
        for (auto &p : o.shape) { double dx = p.x - o.posl.x, dy = p.y - o.posl.y, ax = std::cos(th) * dx - std::sin(th) * dy + X, ay = std::sin(th) * dx + std::cos(th) * dy + Y; if (-s * (ax - floor.posg.x) + c * (ay - floor.posg.y) < H) continue; double qx = std::cos(wt) * dx - std::sin(wt) * dy + wx, qy = std::sin(wt) * dx + std::cos(wt) * dy + wy; if (-s * (qx - floor.posg.x) + c * (qy - floor.posg.y) < H + 1e-4) more = true; }
        if (!more) sim::probe("single contact");
        if (!more && !(std::fabs(x.posg.x - wx) < 1e-7 && std::fabs(x.posg.y - wy) < 1e-7 && std::fabs(x.theta - wt) < 1e-6)) sim::violation("contact-wrong", "a single contact of depth %.9g put the body at %.9g %.9g %.9g, not %.9g %.9g %.9g", pen, x.posg.x, x.posg.y, x.theta, wx, wy, wt); } }
    // depth: no corner stays deeper than the motion of one step can reach
    double deep = 0; for (auto &p : x.shape) { double dx = p.x - x.posl.x, dy = p.y - x.posl.y, X = std::cos(x.theta) * dx - std::sin(x.theta) * dy + x.posg.x - floor.posg.x, Y = std::sin(x.theta) * dx + std::cos(x.theta) * dy + x.posg.y - floor.posg.y, u = c * X + s * Y, v = -s * X + c * Y; if (std::fabs(u) < W * .95) deep = std::max(deep, H - v); }
    sim::state(sim::hash_u64((uint64_t) (deep * 1e6), k)); if (deep > .05 + .02) sim::violation("contact-not-resolved", "a corner is %.9g deep in the floor after step %d", deep, k); }
  if (touched) { sim::nontrivial(); sim::probe("contact"); } sim::mix(sim::hash_bytes(w[ib].posg.p, 16, 1)); }
// ---- S05 cloth contact response
void cloth_contact() {
  gen::Rng g = gen::rng(); int ns = 2 + (int) sim::choose(2); double gap = g.r(.15, .4); VD x; VU t;
  for (int s = 0; s < ns; ++s) { gen::Mesh m = gen::grid(1 + (int) g.n(3), 1 + (int) g.n(3), g, gap * .3); unsigned off = (unsigned) x.size() / 3; double ox = g.r(-.5, .5), oy = g.r(-.5, .5), a = g.r(0, 6.28), sc = g.r(.6, 1.2); for (size_t i = 0; i < m.xyz.size(); i += 3) { double u = m.xyz[i], v = m.xyz[i + 1]; x.push_back(sc * (std::cos(a) * u - std::sin(a) * v) + ox); x.push_back(sc * (std::sin(a) * u + std::cos(a) * v) + oy); x.push_back(m.xyz[i + 2] + s * gap); } for (unsigned v : m.tri) t.push_back(v + off); }
  size_t np = x.size() / 3; VU pi, pp; JArray_PSuP_MeshElem(pi, pp, t.data(), t.size() / 3, 3, np);
  std::vector<CNodeBVH2> node; std::vector<CBV3d_AABB> bb; int root = 0; auto build = [&](int how) { VU ee; VD cen; node.clear(); bb.clear(); ElSuEl_MeshElem(ee, t.data(), t.size() / 3, MESHELEM_TRI, np); cen.resize(t.size()); for (size_t e = 0; e < t.size() / 3; ++e) for (int d = 0; d < 3; ++d) cen[e * 3 + d] = (x[t[e * 3] * 3 + d] + x[t[e * 3 + 1] * 3 + d] + x[t[e * 3 + 2] * 3 + d]) / 3; root = BVHTopology_TopDown_MeshElem(node, 3, ee, cen); (void) how; };
  { sim::NoLib nl; build(0); }
  int steps = 1 + (int) sim::choose(3); bool clean = true;
  for (int k = 0; k < steps; ++k) { double dt = std::pow(10., sim::real(-3, 1)); if (dt > 1) sim::fault("clock jump"); sim::vtime((uint64_t) (dt * 1e6)); double cl = sim::chance(1, 2) ? g.r(.01, .05) : g.r(.05, .3), mass = g.r(.1, 3), st = std::pow(10., g.r(-2, 4)), sp = g.r(.3, 3) * gap / dt;
    VD v(np * 3); int mode = (int) sim::choose(3); bool part = sim::chance(1, 3); for (size_t i = 0; i < np; ++i) { bool rest = part && g.n(2); for (int d = 0; d < 3; ++d) { double w = mode == 2 ? 0 : g.r(-.3, .3) * sp + (d == 2 && mode == 0 ? -sp * (x[i * 3 + 2] / gap - .5 * (ns - 1)) : 0); v[i * 3 + d] = rest ? 0 : w; } } VD v0 = v;
    auto mom = [&](const VD &v, double *L) { for (int d = 0; d < 6; ++d) L[d] = 0; for (unsigned i = 0; i < np; ++i) { V3 p = at(x, i), w = at(v, i), c = gen::cross(p, w); for (int d = 0; d < 3; ++d) L[d] += w[d], L[3 + d] += c[d]; } };
    double a[6], b[6]; mom(v, a); bool imp = false; std::string out; bool oom;
    auto respond = [&](VD &v) { Quiet q; GetIntermidiateVelocityContactResolved(v, imp, dt, cl, mass, st, x, t, pi, pp, root, node, bb); out = q.s.str(); };
    { int f = sim::chance(1, 4) ? 1 + (int) sim::choose(60) : 0; oom = false; bool hit = false; if (f) { Hush hush; { sim::Lib l; sim::alloc_fail_at(f); try { GetIntermidiateVelocityContactResolved(v, imp, dt, cl, mass, st, x, t, pi, pp, root, node, bb); } catch (std::bad_alloc &) { oom = true; } hit = sim::alloc_failed(); sim::alloc_fail_at(0); } if (hit) { sim::fault("allocation failure"); if (!oom) sim::violation("lost-error", "the contact response swallowed a failed allocation"); } } else respond(v); }
    mom(v, b); double sc = 1e-9 * (1 + sp * np * 10); double vmax = extent(v); sc += 1e-9 * vmax * np; for (int d = 0; d < 6; ++d) if (!(std::fabs(a[d] - b[d]) <= sc)) sim::violation(d < 3 ? "momentum-lost" : "spin-lost", "%s momentum %d was %.9g, is %.9g after the contact response%s", d < 3 ? "linear" : "angular", d % 3, a[d], b[d], oom ? " (out of memory)" : "");
    if (oom) { if (sim::chance(1, 2)) { sim::NoLib nl; build(1); } v = v0; respond(v); } else if (out.empty()) { v = v0; respond(v); }
    if (sim::chance(1, 3)) { sim::fault("restart"); { sim::NoLib nl; bb.clear(); } VD v2 = v0; std::string o = out; respond(v2); if (!same(v2.data(), v.data(), 8 * v.size())) sim::violation("restart-differs", "the response differs once the volumes are built again"); }
    // no contact is left, by an exhaustive pass
    auto P = [&](int i) { return CVec3d(x[i * 3], x[i * 3 + 1], x[i * 3 + 2]); }; auto Q = [&](int i) { return CVec3d(x[i * 3] + dt * v[i * 3], x[i * 3 + 1] + dt * v[i * 3 + 1], x[i * 3 + 2] + dt * v[i * 3 + 2]); };
    size_t nt = t.size() / 3; std::vector<CBV3d_AABB> box(nt); for (unsigned i = 0; i < nt; ++i) for (int k2 = 0; k2 < 3; ++k2) { int a = t[i * 3 + k2]; CVec3d s = P(a), e = Q(a); box[i].AddPoint(s.data(), 1e-10); box[i].AddPoint(e.data(), 1e-10); } int left = 0;
    for (size_t i = 0; i < nt; ++i) for (size_t j = 0; j < nt; ++j) { if (i == j) continue; int A = t[i * 3], B = t[i * 3 + 1], C = t[i * 3 + 2]; for (int k2 = 0; k2 < 3; ++k2) { int d = t[j * 3 + k2]; if (IsContact_FV_CCD(A, B, C, d, P(A), P(B), P(C), P(d), Q(A), Q(B), Q(C), Q(d), box[i])) ++left; for (int l = 0; l < 3; ++l) { int p0 = t[i * 3 + l], p1 = t[i * 3 + (l + 1) % 3], q0 = d, q1 = t[j * 3 + (k2 + 1) % 3]; if (IsContact_EE_CCD<CBV3d_AABB>(p0, p1, q0, q1, P(p0), P(p1), P(q0), P(q1), Q(p0), Q(p1), Q(q0), Q(q1))) ++left; } } }
    bool said = out.find("Resolved All") != std::string::npos || out.rfind("Contact Elem Size: 0") != std::string::npos;
    if (said && left) sim::violation("contact-left", "%d contacts are left although the response reported none", left);
    if (!said && clean) sim::violation("never-resolved", "a collision-free start was not resolved in 100 rounds (%d contacts left)", left);
    if (out.find("RIZ iter") != std::string::npos) { sim::probe("rigid impact zone"); sim::nontrivial(); } if (imp) sim::probe("impulse"), sim::nontrivial();
    for (size_t i = 0; i < x.size(); ++i) x[i] += dt * v[i]; clean = false; if (extent(x) > 50) break; sim::state(gen::hv(x, k)); }
  sim::mix(gen::hv(x, 17)); }
const sim::Scenario S01[] = {{"staggered", 3, fluids_staggered}, {"centered", 2, fluids_centered}};
const sim::Scenario S02[] = {{"lone", 1, pbd_lone}, {"cloth", 3, pbd_cloth}, {"projection", 1, pbd_const3}, {"damper", 1, pbd_damper}, {"shape-2d", 2, pbd_shape2}, {"shape-3d", 2, pbd_shape3}};
const sim::Scenario S03[] = {{"bodies", 3, rigid2}, {"drop", 1, rigid2_pair}};
const sim::Scenario S05[] = {{"sheets", 1, cloth_contact}};
}
SIM_MAIN(SIM_TABLE("S01", S01), SIM_TABLE("S02", S02), SIM_TABLE("S03", S03), SIM_TABLE("S05", S05))
