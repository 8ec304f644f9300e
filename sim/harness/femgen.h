// bodies, dense reference algebra, sessions with the solvers of the library: shared by fem.cpp and flow.cpp
#pragma once
#include "geomgen.h"
#include "seams.h"
#include <memory>
#include <new>
#include <cmath>
#include <iostream>
#include <functional>
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_masterslave.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/vecxitrsol.h"
#include "delfem2/fem_solidlinear.h"
#include "delfem2/fem_poisson.h"
#include "delfem2/fem_stvk.h"
#include "delfem2/fem_quadratic_bending.h"
#include "delfem2/cloth_internal.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/jagarray.h"
using namespace delfem2;
namespace {
typedef std::vector<double> VD; typedef std::vector<unsigned> VU; typedef std::vector<int> VI;
using gen::V3;
struct Null : std::streambuf { int overflow(int c) override { return c; } };
struct Hush { static Null n; std::streambuf *o; Hush() : o(std::cout.rdbuf(&n)) {} ~Hush() { std::cout.rdbuf(o); } }; Null Hush::n;
bool same(const VD &a, const VD &b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), 8 * a.size())); }
double dot(const VD &a, const VD &b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
double norm(const VD &a) { return std::sqrt(dot(a, a)); }
double clock_step(double mid) {   // the next time step: regular, stalled, tiny or huge, in units of mid
  double dt; switch (sim::choose(6)) { case 0: dt = mid * 1e-4; sim::fault("tiny time step"); break; case 1: dt = mid * sim::real(20, 1000); sim::fault("clock jump"); break; case 2: dt = mid * sim::real(2, 20); break; default: dt = mid * sim::real(.2, 2); }
  sim::vtime((uint64_t) (dt * 1e6) + 1); return dt; }
// ---- bodies: triangles or tetrahedra, nodes and elements in any order
struct Body { int d, nn, np; VD x; VU el; const double *p(unsigned i) const { return &x[(size_t) i * d]; } size_t ne() const { return el.size() / nn; } };
void shuffle(Body &b, gen::Rng &g) {
  VU perm(b.np); for (int i = 0; i < b.np; ++i) perm[i] = i; if (g.n(2)) for (int i = b.np - 1; i > 0; --i) std::swap(perm[i], perm[g.n(i + 1)]);
  VD y(b.x.size()); for (int i = 0; i < b.np; ++i) for (int k = 0; k < b.d; ++k) y[perm[i] * b.d + k] = b.x[i * b.d + k]; b.x = y; for (unsigned &e : b.el) e = perm[e];
  size_t ne = b.ne(); for (size_t e = ne - 1; e > 0; --e) { size_t f = g.n((uint32_t) e + 1); for (int k = 0; k < b.nn; ++k) std::swap(b.el[e * b.nn + k], b.el[f * b.nn + k]); }
  for (size_t e = 0; e < ne; ++e) { unsigned *q = &b.el[e * b.nn]; int r = (int) g.n(3); for (int k = 0; k < r; ++k) { unsigned t = q[b.nn - 3]; q[b.nn - 3] = q[b.nn - 2]; q[b.nn - 2] = q[b.nn - 1]; q[b.nn - 1] = t; } } }
Body body2(gen::Rng &g) {
  int nx = 1 + (int) sim::choose(4), ny = 1 + (int) sim::choose(4); gen::Mesh m = gen::grid(nx, ny, g, 0); Body b; b.d = 2; b.nn = 3; b.np = (nx + 1) * (ny + 1); double s = std::pow(10., g.r(-.5, .5)), sh = g.r(-.3, .3); b.x.resize(b.np * 2);
  for (int i = 0; i < b.np; ++i) { double u = m.xyz[i * 3] + g.r(-.2, .2) / nx, v = m.xyz[i * 3 + 1] + g.r(-.2, .2) / ny; b.x[i * 2] = s * (u + sh * v); b.x[i * 2 + 1] = s * v; } b.el = m.tri; shuffle(b, g); return b; }
Body body3(gen::Rng &g) {
  int n[3] = {1 + (int) sim::choose(2), 1 + (int) sim::choose(2), 1 + (int) sim::choose(2)}; Body b; b.d = 3; b.nn = 4; double s = std::pow(10., g.r(-.5, .5)), sh = g.r(-.3, .3);
  auto id = [&](int i, int j, int k) { return (unsigned) ((i * (n[1] + 1) + j) * (n[2] + 1) + k); };
  for (int i = 0; i <= n[0]; ++i) for (int j = 0; j <= n[1]; ++j) for (int k = 0; k <= n[2]; ++k) { double u = (i + g.r(-.15, .15)), v = (j + g.r(-.15, .15)), w = (k + g.r(-.15, .15)); b.x.push_back(s * (u + sh * v)); b.x.push_back(s * v); b.x.push_back(s * (w - sh * u)); }
  b.np = (int) b.x.size() / 3; static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) for (auto &p : P) { int c[3] = {i, j, k}; unsigned q[4]; q[0] = id(c[0], c[1], c[2]); for (int a = 0; a < 3; ++a) { c[p[a]]++; q[a + 1] = id(c[0], c[1], c[2]); }
    V3 e[3]; for (int a = 0; a < 3; ++a) for (int z = 0; z < 3; ++z) e[a][z] = b.x[q[a + 1] * 3 + z] - b.x[q[0] * 3 + z]; if (gen::dot(e[0], gen::cross(e[1], e[2])) < 0) std::swap(q[2], q[3]); for (unsigned z : q) b.el.push_back(z); }
  shuffle(b, g); return b; }
// gradients of the linear shape functions and the measure of an element
double shape(const Body &b, const unsigned *q, double G[4][3]) {
  if (b.d == 2) { const double *p0 = b.p(q[0]), *p1 = b.p(q[1]), *p2 = b.p(q[2]); double A2 = (p1[0] - p0[0]) * (p2[1] - p0[1]) - (p2[0] - p0[0]) * (p1[1] - p0[1]); const double *p[3] = {p0, p1, p2};
    for (int i = 0; i < 3; ++i) { const double *a = p[(i + 1) % 3], *c = p[(i + 2) % 3]; G[i][0] = (a[1] - c[1]) / A2; G[i][1] = (c[0] - a[0]) / A2; G[i][2] = 0; } return A2 / 2; }
  V3 e[3]; for (int a = 0; a < 3; ++a) for (int z = 0; z < 3; ++z) e[a][z] = b.p(q[a + 1])[z] - b.p(q[0])[z]; double V6 = gen::dot(e[0], gen::cross(e[1], e[2]));
  for (int z = 0; z < 3; ++z) G[0][z] = 0; for (int a = 0; a < 3; ++a) { V3 c = gen::cross(e[(a + 1) % 3], e[(a + 2) % 3]); for (int z = 0; z < 3; ++z) { G[a + 1][z] = c[z] / V6; G[0][z] -= c[z] / V6; } } return V6 / 6; }
// ---- dense reference algebra
struct Dense { size_t n; VD a; explicit Dense(size_t n = 0) : n(n), a(n * n, 0.) {} double &operator()(size_t i, size_t j) { return a[i * n + j]; } double operator()(size_t i, size_t j) const { return a[i * n + j]; }
  VD mul(const VD &x) const { VD y(n, 0.); for (size_t i = 0; i < n; ++i) { double s = 0; const double *r = &a[i * n]; for (size_t j = 0; j < n; ++j) s += r[j] * x[j]; y[i] = s; } return y; }
  double big() const { double m = 0; for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 0; j < n; ++j) s += std::fabs(a[i * n + j]); m = std::max(m, s); } return m; }
  void add(const Dense &o, double s) { for (size_t i = 0; i < a.size(); ++i) a[i] += s * o.a[i]; } };
Dense mass(const Body &b, int nd, double rho, bool lumped) { Dense M((size_t) b.np * nd); double G[4][3]; for (size_t e = 0; e < b.ne(); ++e) { const unsigned *q = &b.el[e * b.nn]; double v = shape(b, q, G) * rho; for (int i = 0; i < b.nn; ++i) for (int j = 0; j < b.nn; ++j) for (int k = 0; k < nd; ++k) if (lumped) { if (i == j) M(q[i] * nd + k, q[j] * nd + k) += v / b.nn; } else M(q[i] * nd + k, q[j] * nd + k) += v / ((b.d + 1) * (b.d + 2)) * (i == j ? 2 : 1); } return M; }
Dense laplace(const Body &b, double alpha) { Dense K(b.np); double G[4][3]; for (size_t e = 0; e < b.ne(); ++e) { const unsigned *q = &b.el[e * b.nn]; double v = shape(b, q, G); for (int i = 0; i < b.nn; ++i) for (int j = 0; j < b.nn; ++j) { double s = 0; for (int z = 0; z < b.d; ++z) s += G[i][z] * G[j][z]; K(q[i], q[j]) += alpha * v * s; } } return K; }
// linear elasticity; R (optional): the rotation of every node warps the stiffness, W collects the forces of the rotated rest shape
Dense elastic(const Body &b, double lambda, double myu, const VD *R = nullptr, VD *rest = nullptr) { int d = b.d; Dense K((size_t) b.np * d); double G[4][3]; if (rest) rest->assign(K.n, 0.);
  for (size_t e = 0; e < b.ne(); ++e) { const unsigned *q = &b.el[e * b.nn]; double v = shape(b, q, G); for (int i = 0; i < b.nn; ++i) for (int j = 0; j < b.nn; ++j) { double s = 0, k[3][3], w[3][3]; for (int z = 0; z < d; ++z) s += G[i][z] * G[j][z];
    for (int a = 0; a < d; ++a) for (int c = 0; c < d; ++c) k[a][c] = v * (lambda * G[i][a] * G[j][c] + myu * (G[i][c] * G[j][a] + (a == c ? s : 0)));
    if (R) { const double *r = &(*R)[q[i] * 9]; for (int a = 0; a < 3; ++a) for (int c = 0; c < 3; ++c) { w[a][c] = 0; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) w[a][c] += r[a * 3 + x] * k[x][y] * r[c * 3 + y]; }
      if (rest) for (int a = 0; a < 3; ++a) for (int c = 0; c < 3; ++c) { double rp = 0; for (int y = 0; y < 3; ++y) rp += r[c * 3 + y] * b.p(q[j])[y]; (*rest)[q[i] * 3 + a] += w[a][c] * (b.p(q[j])[c] - rp); } }
    for (int a = 0; a < d; ++a) for (int c = 0; c < d; ++c) K(q[i] * d + a, q[j] * d + c) += R ? w[a][c] : k[a][c]; } }
  return K; }
VD load(const Body &b, int nd, const double *f) { VD l((size_t) b.np * nd, 0.); double G[4][3]; for (size_t e = 0; e < b.ne(); ++e) { const unsigned *q = &b.el[e * b.nn]; double v = shape(b, q, G) / b.nn; for (int i = 0; i < b.nn; ++i) for (int k = 0; k < nd; ++k) l[q[i] * nd + k] += v * f[k]; } return l; }
double measure(const Body &b) { double s = 0, G[4][3]; for (size_t e = 0; e < b.ne(); ++e) s += shape(b, &b.el[e * b.nn], G); return s; }
// ---- linear systems of the library
struct Sys { CMatrixSparse<double> A; std::unique_ptr<CPreconditionerILU<double>> P; int fill = 0; };
std::unique_ptr<Sys> system_of(const Body &b, int nd, int fill, const VU *tie = nullptr) {
  std::unique_ptr<Sys> s(new Sys); VU pi, p; JArray_PSuP_MeshElem(pi, p, b.el.data(), b.ne(), b.nn, b.np);
  if (tie) { VU qi, q; JArray_AddMasterSlavePattern(qi, q, tie->data(), nd, pi.data(), pi.size(), p.data()); pi = qi; p = q; }
  JArray_Sort(pi, p); s->A.Initialize(b.np, nd, true); s->A.SetPattern(pi.data(), pi.size(), p.data(), p.size()); s->fill = fill; s->P.reset(new CPreconditionerILU<double>); if (fill) s->P->Initialize_ILUk(s->A, fill); else s->P->SetPattern0(s->A); return s; }
Dense dense(const CMatrixSparse<double> &A) { unsigned m = A.nrowdim_; Dense D((size_t) A.nrowblk_ * m); for (unsigned i = 0; i < A.nrowblk_; ++i) { for (unsigned a = 0; a < m; ++a) for (unsigned b = 0; b < m; ++b) { D(i * m + a, i * m + b) += A.val_dia_[i * m * m + a * m + b]; for (unsigned k = A.col_ind_[i]; k < A.col_ind_[i + 1]; ++k) D(i * m + a, A.row_ptr_[k] * m + b) += A.val_crs_[k * m * m + a * m + b]; } } return D; }
enum { CG, PCG, BICG, PBICG };
struct Got { VD x; bool done = false; size_t it = 0; };
// assembles through merge(A, b), solves; b0: the right-hand side the library arrived at
Got solve(Sys &s, int how, double conv, const VI &bc, const VU *tie, size_t n, const std::function<void(CMatrixSparse<double> &, double *)> &merge) {
  Got g; s.A.setZero(); VD b(n, 0.); merge(s.A, b.data()); s.A.SetFixedBC(bc.data()); setRHS_Zero(b, bc, 0);
  if (tie) { SetMasterSlave(s.A, tie->data()); setRHS_MasterSlave(b.data(), (unsigned) n, tie->data()); }
  double b0 = norm(b); g.x.assign(n, how == CG || how == PCG ? 77. : 0.); VD h, t(n, 5.), u(n, -3.); unsigned lim = how == CG || how == PCG ? 2000 : 6 * (unsigned) n + 100;
  if (how == PCG || how == PBICG) { s.P->CopyValue(s.A); s.P->Decompose(); }
  switch (how) { case CG: h = Solve_CG(ViewAsVectorXd(b), ViewAsVectorXd(g.x), ViewAsVectorXd(t), ViewAsVectorXd(u), conv, lim, s.A); g.done = h.empty() || h.back() < conv; break;
    case PCG: h = Solve_PCG(ViewAsVectorXd(b), ViewAsVectorXd(g.x), ViewAsVectorXd(t), ViewAsVectorXd(u), conv, lim, s.A, *s.P); g.done = b0 * b0 < 1e-30 || (!h.empty() && h.back() < conv * b0 * 1.0000001); break;
    case BICG: h = Solve_BiCGStab(b, g.x, conv, lim, s.A); g.done = b0 * b0 < 1e-30 || (!h.empty() && h.back() < conv); break;
    default: h = Solve_PBiCGStab(b.data(), g.x.data(), conv, lim, s.A, *s.P); g.done = !h.empty() && h.back() < conv; }
  if ((how == BICG || how == PBICG) && !h.empty() && std::isnan(h[0])) sim::violation("solver-breaks-down", "the residual is not a number after one iteration of %s", how == BICG ? "BiCGStab" : "preconditioned BiCGStab"); // nothing to divide by: the answer is there
  if (how == BICG || how == PBICG) for (double q : h) if (!(q < 1e3)) g.done = false; // a wandering solver: its residual is no longer that of the answer
  g.it = h.size(); return g; }
template <class F> bool maybe_oom(const char *what, F f) {   // true: memory ran out and was reported
  int k = sim::chance(1, 4) ? 1 + (int) sim::choose(16) : 0; bool threw = false, hit = false;
  { sim::Lib l; if (k) sim::alloc_fail_at(k); try { f(); } catch (std::bad_alloc &) { threw = true; } hit = k && sim::alloc_failed(); sim::alloc_fail_at(0); }
  if (hit) { sim::fault("allocation failure"); if (!threw) sim::violation("lost-error", "%s swallowed a failed allocation", what); }
  return threw; }
double maxabs(const VD &v);
// the equation of one step, judged on the free unknowns: b - A x is within the accuracy asked for
void check_step(const char *what, const Dense &A, const VD &b, const VD &x, const VI &bc, double conv, double terms) { // terms: size of what b is summed from
  size_t n = A.n; VD y(n, 0.); for (size_t i = 0; i < n; ++i) y[i] = bc[i] ? 0. : x[i]; VD r = A.mul(y); double nb = 0, nr = 0; size_t worst = 0; double wr = -1;
  for (size_t i = 0; i < n; ++i) { if (bc[i]) { if (x[i] != 0) sim::violation("fixed-value-moves", "%s: fixed unknown %zu is to change by %.9g", what, i, x[i]); continue; } if (!std::isfinite(x[i])) sim::violation("step-wrong", "%s: unknown %zu is not a number", what, i); double e = b[i] - r[i]; nb += b[i] * b[i]; nr += e * e; if (std::fabs(e) > wr) { wr = std::fabs(e); worst = i; } }
  nb = std::sqrt(nb); nr = std::sqrt(nr); double tol = 1.02 * conv * nb + 1e-10 * (A.big() * norm(y) + nb) + 1e-12 * terms * std::sqrt((double) n) + 2e-15;
  if (!(nr <= tol)) sim::violation("step-wrong", "%s: the step misses its equation by %.9g of %.9g (unknown %zu by %.9g, asked for %.3g)", what, nr, nb, worst, wr, conv); }
double pick_conv() { static const double c[] = {1e-4, 1e-6, 1e-8, 1e-10}; return c[sim::choose(4)]; }
Got settle(const char *what, Sys *&s, std::unique_ptr<Sys> &own, const std::function<std::unique_ptr<Sys>()> &fresh, int how, double conv, const VI &bc, const VU *tie, size_t n, const std::function<void(CMatrixSparse<double> &, double *)> &merge, bool sym = true) {
  Got g; if (maybe_oom(what, [&] { g = solve(*s, how, conv, bc, tie, n, merge); })) { sim::NoLib nl; if (sim::chance(1, 2)) { own = fresh(); s = own.get(); } g = solve(*s, how, conv, bc, tie, n, merge); }
  if (!g.done && how != CG) { sim::probe("solver gave up"); how = CG; g = solve(*s, how, conv, bc, tie, n, merge); }
  if (!g.done && sym) sim::violation("solver-gives-up", "%s: conjugate gradients do not solve %zu equations to %.3g in 2000 iterations", what, n, conv);
  if (!g.done) { how = BICG; g = solve(*s, how, conv, bc, tie, n, merge); } // stiffness warping with a rotation per node is not symmetric
  if (!g.done) { sim::probe("conjugate gradients gave up"); return g; }
  if (sim::chance(1, 5)) { sim::fault("restart"); auto f = fresh(); Got h = solve(*f, how, conv, bc, tie, n, merge); if (!same(h.x, g.x)) sim::violation("restart-differs", "%s: a step from the saved state gave another result", what); }
  return g; }
void check_update(const char *what, const VD &now, const VD &want, const VD &before, const VI &bc, double scale) { for (size_t i = 0; i < now.size(); ++i) { if (bc[i]) { if (std::memcmp(&now[i], &before[i], 8)) sim::violation("fixed-value-moves", "%s: fixed value %zu went from %.17g to %.17g", what, i, before[i], now[i]); } else if (!(std::fabs(now[i] - want[i]) <= 1e-12 * (scale + std::fabs(want[i])))) sim::violation("update-wrong", "%s: value %zu is %.17g, not %.17g", what, i, now[i], want[i]); } }
double maxabs(const VD &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
VI supports(gen::Rng &g, size_t np, int nd, int mode) { VI bc(np * nd, 0); if (!mode) return bc; for (size_t i = 0; i < np; ++i) if (g.n(4) == 0) for (int k = 0; k < nd; ++k) if (mode == 1 || g.n(2)) bc[i * nd + k] = 1 + (int) g.n(3); return bc; }
}
