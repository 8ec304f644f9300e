// S07: flow (Stokes, Navier-Stokes) and wave (Helmholtz) solvers. The simulator owns the clock (steps jump, stall and
// shrink), moves and releases the walls between steps, renumbers and reshapes the domain, keeps or replaces the matrix, stops
// and restores sessions and lets memory run out. Every assembled step is judged against a dense textbook equation; flows
// known in closed form have to satisfy it as they are.
#include "femgen.h"
#include <complex>
#include "delfem2/fem_stokes.h"
#include "delfem2/fem_navierstokes.h"
#include "delfem2/fem_helmholtz.h"
namespace {
enum { STATIC, STOKES, NAVIER };
struct Fluid { int kind = 0; double myu = 1, rho = 1, g[3] = {0, 0, 0}, dt = 1, gam = 1; };
struct El { double A[16][16], r[16]; };   // matrix and right-hand side of one element, unknowns of a node together
// the library's element
El lib(const Body &b, const unsigned *q, const Fluid &f, const VD &val, const VD &acc, bool split = false) {
  El e; int nd = b.d + 1; std::memset(&e, 0, sizeof e);
  auto out = [&](const double *m, const double *r) { for (int i = 0; i < b.nn; ++i) for (int k = 0; k < nd; ++k) { e.r[i * nd + k] = r[i * nd + k]; for (int j = 0; j < b.nn; ++j) for (int l = 0; l < nd; ++l) e.A[i * nd + k][j * nd + l] = m[((i * b.nn + j) * nd + k) * nd + l]; } };
  if (b.d == 2) { double x[3][2], v[3][3], a[3][3], m[3][3][3][3], r[3][3]; for (int i = 0; i < 3; ++i) { for (int k = 0; k < 2; ++k) x[i][k] = b.p(q[i])[k]; for (int k = 0; k < 3; ++k) { v[i][k] = val[q[i] * 3 + k]; a[i][k] = acc[q[i] * 3 + k]; } }
    if (split) { double u[3][2], p[3], au[3][2], ap[3], uu[3][3][2][2], up[3][3][2], pu[3][3][2], pp[3][3], ru[3][2], rp[3]; for (int i = 0; i < 3; ++i) { for (int k = 0; k < 2; ++k) { u[i][k] = v[i][k]; au[i][k] = a[i][k]; } p[i] = v[i][2]; ap[i] = a[i][2]; }
      if (f.kind == STATIC) MakeMat_Stokes2D_Static_P1P1(f.myu, f.g[0], f.g[1], x, u, p, uu, up, pu, pp, ru, rp); else MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(f.rho, f.myu, f.g[0], f.g[1], f.dt, f.gam, x, u, p, au, ap, uu, up, pu, pp, ru, rp);
      for (int i = 0; i < 3; ++i) { for (int k = 0; k < 2; ++k) r[i][k] = ru[i][k]; r[i][2] = rp[i]; for (int j = 0; j < 3; ++j) { for (int k = 0; k < 2; ++k) { for (int l = 0; l < 2; ++l) m[i][j][k][l] = uu[i][j][k][l]; m[i][j][k][2] = up[i][j][k]; m[i][j][2][k] = pu[i][j][k]; } m[i][j][2][2] = pp[i][j]; } } }
    else if (f.kind == STATIC) EMat_Stokes2D_Static_P1(f.myu, f.g[0], f.g[1], x, v, m, r); else if (f.kind == STOKES) EMat_Stokes2D_Dynamic_P1(f.myu, f.rho, f.g[0], f.g[1], f.dt, f.gam, x, v, a, m, r); else EMat_NavierStokes2D_Dynamic_P1(f.myu, f.rho, f.g[0], f.g[1], f.dt, f.gam, x, v, a, m, r);
    out(&m[0][0][0][0], &r[0][0]); }
  else { double x[4][3], v[4][4], a[4][4], m[4][4][4][4], r[4][4]; for (int i = 0; i < 4; ++i) { for (int k = 0; k < 3; ++k) x[i][k] = b.p(q[i])[k]; for (int k = 0; k < 4; ++k) { v[i][k] = val[q[i] * 4 + k]; a[i][k] = acc[q[i] * 4 + k]; } }
    if (split) { double u[4][3], p[4], au[4][3], ap[4], uu[4][4][3][3], up[4][4][3], pu[4][4][3], pp[4][4], ru[4][3], rp[4]; for (int i = 0; i < 4; ++i) { for (int k = 0; k < 3; ++k) { u[i][k] = v[i][k]; au[i][k] = a[i][k]; } p[i] = v[i][3]; ap[i] = a[i][3]; }
      if (f.kind == STATIC) MakeMat_Stokes3D_Static_P1P1(f.myu, f.g[0], f.g[1], f.g[2], x, u, p, uu, up, pu, pp, ru, rp); else if (f.kind == STOKES) MakeMat_Stokes3D_Dynamic_Newmark_P1P1(f.myu, f.rho, f.g[0], f.g[1], f.g[2], f.dt, f.gam, x, u, p, au, ap, uu, up, pu, pp, ru, rp); else MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(f.rho, f.myu, f.g[0], f.g[1], f.g[2], f.dt, f.gam, x, u, p, au, ap, uu, up, pu, pp, ru, rp);
      for (int i = 0; i < 4; ++i) { for (int k = 0; k < 3; ++k) r[i][k] = ru[i][k]; r[i][3] = rp[i]; for (int j = 0; j < 4; ++j) { for (int k = 0; k < 3; ++k) { for (int l = 0; l < 3; ++l) m[i][j][k][l] = uu[i][j][k][l]; m[i][j][k][3] = up[i][j][k]; m[i][j][3][k] = pu[i][j][k]; } m[i][j][3][3] = pp[i][j]; } } }
    else if (f.kind == STATIC) MakeMat_Stokes3D_Static_P1(f.myu, f.g[0], f.g[1], f.g[2], x, v, m, r); else if (f.kind == STOKES) MakeMat_Stokes3D_Dynamic_P1(f.myu, f.rho, f.g[0], f.g[1], f.g[2], f.dt, f.gam, x, v, a, m, r); else MakeMat_NavierStokes3D_Dynamic_P1(f.myu, f.rho, f.g[0], f.g[1], f.g[2], f.dt, f.gam, x, v, a, m, r);
    out(&m[0][0][0][0], &r[0][0]); }
  return e; }
// the weight of the stabilisation is a choice of the library: read from one entry, everything else has to follow from it
double weight(const Body &b, const unsigned *q, const Fluid &f, const El &e) { double G[4][3], V = shape(b, q, G), s = 0; int nd = b.d + 1; for (int z = 0; z < b.d; ++z) s += G[0][z] * G[0][z]; double k = f.kind == STATIC ? 1 : f.gam * f.dt; if (f.kind == NAVIER) k /= f.rho; return e.A[nd - 1][nd - 1] / (V * s * k); }
// the textbook element; big: the size of the terms its right-hand side is summed from
El ref(const Body &b, const unsigned *q, const Fluid &f, const VD &val, const VD &acc, double tau, double &big) {
  double G[4][3], V = shape(b, q, G), C[16][16] = {}, M[16][16] = {}; int d = b.d, nn = b.nn, nd = d + 1; double u[4][3] = {}, um[3] = {}; for (int i = 0; i < nn; ++i) for (int k = 0; k < d; ++k) { u[i][k] = val[q[i] * nd + k]; um[k] += u[i][k] / nn; }
  auto m = [&](int i, int j) { return V / ((d + 1) * (d + 2)) * (i == j ? 2 : 1); }; auto dt_ = [&](const double *a, const double *c) { double s = 0; for (int z = 0; z < d; ++z) s += a[z] * c[z]; return s; };
  for (int i = 0; i < nn; ++i) for (int j = 0; j < nn; ++j) { double gg = dt_(G[i], G[j]), lap = V * f.myu * gg; int I = i * nd, J = j * nd;
    if (f.kind != NAVIER) { for (int k = 0; k < d; ++k) { C[I + k][J + k] = lap; C[I + k][J + d] = V / nn * G[i][k]; C[I + d][J + k] = V / nn * G[j][k]; M[I + k][J + k] = f.rho * m(i, j); } C[I + d][J + d] = tau * V * gg; continue; }
    double adv = 0, supg = 0, in = f.rho * m(i, j); for (int k = 0; k < nn; ++k) { adv += f.rho * m(i, k) * dt_(u[k], G[j]); in += f.rho * tau * m(j, k) * dt_(u[k], G[i]); for (int l = 0; l < nn; ++l) supg += f.rho * tau * m(k, l) * dt_(u[k], G[i]) * dt_(u[l], G[j]); }
    for (int k = 0; k < d; ++k) { for (int l = 0; l < d; ++l) C[I + k][J + l] = V * f.myu * G[i][l] * G[j][k] + (k == l ? lap + adv + supg : 0); C[I + k][J + d] = -V / nn * G[i][k] + tau * V * dt_(um, G[i]) * G[j][k]; C[I + d][J + k] = V / nn * G[j][k] + tau * V * dt_(um, G[j]) * G[i][k]; M[I + k][J + k] = in; M[I + d][J + k] = tau * V / nn * G[i][k]; }
    C[I + d][J + d] = tau / f.rho * V * gg; }
  El e; int n = nn * nd; big = 0;
  for (int i = 0; i < n; ++i) { double ld = i % nd < d ? V / nn * f.g[i % nd] * (f.kind == NAVIER ? f.rho : 1) : 0, r = ld, s = std::fabs(ld); for (int j = 0; j < n; ++j) { unsigned J = q[j / nd] * nd + j % nd; if (f.kind == STATIC) { e.A[i][j] = C[i][j]; r -= C[i][j] * val[J]; s += std::fabs(C[i][j] * val[J]); } else { e.A[i][j] = M[i][j] + f.gam * f.dt * C[i][j]; r -= C[i][j] * (val[J] + f.dt * acc[J]) + M[i][j] * acc[J]; s += std::fabs(C[i][j] * val[J]) + std::fabs(C[i][j] * f.dt * acc[J]) + std::fabs(M[i][j] * acc[J]); } } e.r[i] = r; big = std::max(big, s); }
  return e; }
void merge(const Body &b, const Fluid &f, const VD &val, const VD &acc, CMatrixSparse<double> &A, double *r) {
  size_t n = val.size(); VD v;
  if (b.d == 2) { if (f.kind == STATIC) MergeLinSys_StokesStatic2D(A, r, f.myu, f.g[0], f.g[1], b.x.data(), b.np, b.el.data(), b.ne(), val.data()); else if (f.kind == STOKES) MergeLinSys_StokesDynamic2D(A, r, f.myu, f.rho, f.g[0], f.g[1], f.dt, f.gam, b.x.data(), b.np, b.el.data(), b.ne(), val.data(), acc.data()); else MergeLinSys_NavierStokes2D(A, r, f.myu, f.rho, f.g[0], f.g[1], f.dt, f.gam, b.x.data(), b.np, b.el.data(), b.ne(), val.data(), acc.data()); return; }
  v.assign(3, 7.); if (f.kind == STATIC) MergeLinSys_Stokes3D_Static(A, v, f.myu, f.rho, f.g[0], f.g[1], f.g[2], b.x, b.el, val, acc); else if (f.kind == STOKES) MergeLinSys_Stokes3D_Dynamic(A, v, f.myu, f.rho, f.g[0], f.g[1], f.g[2], f.dt, f.gam, b.x, b.el, val, acc); else MergeLinSys_NavierStokes3D_Dynamic(A, v, f.myu, f.rho, f.g[0], f.g[1], f.g[2], f.dt, f.gam, b.x, b.el, val, acc);
  if (v.size() != n) sim::violation("right-hand-side-wrong", "%zu entries for %zu unknowns", v.size(), n); std::memcpy(r, v.data(), 8 * n); }
const char *NAME[] = {"steady Stokes", "Stokes", "Navier-Stokes"};
// the textbook equation of a step; the library's elements are compared on the way
void equation(const Body &b, const Fluid &f, const VD &val, const VD &acc, Dense &A, VD &r, double &terms, bool compare, gen::Rng &g) {
  int nd = b.d + 1, n = b.nn * nd; A = Dense(val.size()); r.assign(val.size(), 0.); terms = 0; double c0 = 0;
  for (size_t t = 0; t < b.ne(); ++t) { const unsigned *q = &b.el[t * b.nn]; El L = lib(b, q, f, val, acc); double tau = weight(b, q, f, L), big, G[4][3], V = shape(b, q, G); El R = ref(b, q, f, val, acc, tau, big); terms += big;
    if (f.kind == NAVIER) { if (!(tau > 0) || !std::isfinite(tau)) sim::violation("stabilisation-wrong", "%s: the stabilisation of element %zu is %.9g", NAME[f.kind], t, tau); }
    else { double h2 = 4 * std::pow(V / 3.14, 2. / b.d), c = -tau * f.myu / h2; if (!(c > 0) || !std::isfinite(c)) sim::violation("stabilisation-wrong", "%s: the stabilisation of element %zu is %.9g", NAME[f.kind], t, tau); if (t == 0) c0 = c; if (!(std::fabs(c - c0) <= 1e-5 * c0)) sim::violation("stabilisation-wrong", "%s: the stabilisation of element %zu is %.9g of its size, that of the first %.9g", NAME[f.kind], t, c, c0); }
    const El R0 = R;
    for (int pass = 0; pass < 2 && compare; ++pass) { if (pass) { if (b.d == 2 && f.kind == STOKES) break; L = lib(b, q, f, val, acc, true); double w = weight(b, q, f, L); if (!(std::fabs(w - tau) <= 1e-5 * std::fabs(tau))) sim::violation("stabilisation-wrong", "%s: the stabilisation of element %zu is %.9g, in split form %.9g", NAME[f.kind], t, tau, w); R = ref(b, q, f, val, acc, w, big); }
      // an entry of a block is compared with the largest entry of the same pair of kinds (velocity or pressure)
      double mx[2][2] = {}; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double &z = mx[i % nd == b.d][j % nd == b.d]; z = std::max(z, std::fabs(R.A[i][j])); }
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) if (!(std::fabs(L.A[i][j] - R.A[i][j]) <= 1e-10 * mx[i % nd == b.d][j % nd == b.d])) sim::violation("matrix-wrong", "%s%s: entry %d %d of element %zu is %.12g, not %.12g", NAME[f.kind], pass ? ", split" : "", i, j, t, L.A[i][j], R.A[i][j]); if (!(std::fabs(L.r[i] - R.r[i]) <= 1e-10 * big)) sim::violation("right-hand-side-wrong", "%s%s: entry %d of element %zu is %.12g, not %.12g of %.9g", NAME[f.kind], pass ? ", split" : "", i, t, L.r[i], R.r[i], big); } }
    if (compare && f.kind == NAVIER && g.n(4) == 0) { // the weight depends neither on the numbering nor on the frame nor, in the plane, on the units
      Body c; c.d = b.d; c.nn = b.nn; c.np = b.nn; c.x.resize(b.nn * b.d); VD cv(b.nn * nd, 0.), ca(b.nn * nd, 0.); double Q[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, sh[3] = {g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)}; for (int k = 0; k < (b.d == 2 ? 1 : 3); ++k) { int i = k, j = (k + 1) % 3; double an = g.r(-3, 3), cs = std::cos(an), sn = std::sin(an); for (int z = 0; z < 3; ++z) { double p = Q[i][z], w = Q[j][z]; Q[i][z] = cs * p - sn * w; Q[j][z] = sn * p + cs * w; } }
      double le = b.d == 2 ? std::exp(g.r(-2, 2)) : 1, ti = b.d == 2 ? std::exp(g.r(-2, 2)) : 1, ma = b.d == 2 ? std::exp(g.r(-2, 2)) : 1; int rot = (int) g.n(3); for (int i = 0; i < b.nn; ++i) { int o = i < b.nn - 3 ? i : b.nn - 3 + (i - (b.nn - 3) + rot) % 3; c.el.push_back(i); for (int k = 0; k < b.d; ++k) { c.x[i * b.d + k] = sh[k]; for (int z = 0; z < b.d; ++z) { c.x[i * b.d + k] += le * Q[k][z] * b.p(q[o])[z]; cv[i * nd + k] += le / ti * Q[k][z] * val[q[o] * nd + z]; } } }
      Fluid h = f; h.rho *= ma / (le * le); h.myu *= ma / ti; h.dt *= ti; double w = weight(c, c.el.data(), h, lib(c, c.el.data(), h, cv, ca)) / ti; double sp = 0, sz = 0; for (int k = 0; k < b.nn * b.d; ++k) sz = std::max(sz, std::fabs(cv[k])); (void) sp; (void) sz;
      if (!(std::fabs(w - tau) <= 1e-6 * tau)) sim::violation("frame-dependent", "%s: element %zu is stabilised by %.9g, turned, moved, renumbered or in other units by %.9g", NAME[f.kind], t, tau, w); }
    for (int i = 0; i < n; ++i) { size_t I = (size_t) q[i / nd] * nd + i % nd; r[I] += R0.r[i]; for (int j = 0; j < n; ++j) A(I, (size_t) q[j / nd] * nd + j % nd) += R0.A[i][j]; } } }
Body domain(gen::Rng &g) { return sim::choose(2) ? body3(g) : body2(g); }
VU rim(const Body &b) { // nodes on the boundary: on a side only one element has
  VU on(b.np, 0); std::vector<std::pair<std::vector<unsigned>, int>> s; for (size_t t = 0; t < b.ne(); ++t) for (int k = 0; k < b.nn; ++k) { std::vector<unsigned> f; for (int i = 0; i < b.nn; ++i) if (i != k) f.push_back(b.el[t * b.nn + i]); std::sort(f.begin(), f.end()); bool hit = false; for (auto &p : s) if (p.first == f) { p.second++; hit = true; } if (!hit) s.push_back({f, 1}); }
  for (auto &p : s) if (p.second == 1) for (unsigned i : p.first) on[i] = 1; return on; }
Fluid fluid(gen::Rng &g, const Body &b, int kind) { Fluid f; f.kind = kind; f.myu = std::pow(10., g.r(-2, 1)); f.rho = g.r(.2, 3); if (g.n(2)) for (int k = 0; k < b.d; ++k) f.g[k] = g.r(-5, 5); if (kind == NAVIER && g.n(5) == 0) f.myu = g.n(2) ? 0 : 1e-9; return f; }
double clock_of(const Fluid &f, const Body &b) { double h = std::pow(measure(b) / b.ne(), 1. / b.d); return std::min(f.rho * h * h / (f.myu + 1e-3), 1.) * .3; }
void stepping() {
  gen::Rng g = gen::rng(); Body b = domain(g); Fluid f = fluid(g, b, (int) sim::choose(3)); int d = b.d, nd = d + 1; size_t n = (size_t) b.np * nd; VU on = rim(b); Hush hush;
  double amp = std::pow(10., sim::real(-2, 1)); VD val(n, 0.), acc(n, 0.); int start = (int) sim::choose(4); if (start == 1) sim::probe("from rest"); else for (size_t i = 0; i < n; ++i) val[i] = g.r(-amp, amp); if (start == 2) for (double &x : acc) x = g.r(-amp, amp);
  int wall = 0; auto walls = [&] { VI bc(n, 0); wall = (int) sim::choose(3); if (wall == 0) bc = supports(g, b.np, nd, 2); else for (int i = 0; i < b.np; ++i) if (on[i]) for (int k = 0; k < d; ++k) { bc[i * nd + k] = 1 + (int) g.n(3); if (wall == 2) val[i * nd + k] = acc[i * nd + k] = 0; } if (wall) bc[g.n(b.np) * nd + d] = 1; return bc; };
  VI bc = walls(); int fill = (int) sim::choose(3); std::unique_ptr<Sys> own; auto fresh = [&] { return system_of(b, nd, fill); }; own = fresh(); Sys *s = own.get(); int steps = 1 + (int) sim::choose(f.kind == STATIC ? 2 : 6); double mid = clock_of(f, b);
  for (int k = 0; k < steps; ++k) {
    if (k && sim::chance(1, 5)) { bc = walls(); sim::fault("walls change"); } if (k && sim::chance(1, 5)) { for (size_t i = 0; i < n; ++i) if (bc[i] && !(wall == 2 && (int) (i % nd) < d)) val[i] = g.r(-amp, amp); sim::fault("wall velocity moves"); }
    if (!(maxabs(val) < 1e4 && maxabs(acc) < 1e6)) break; f.dt = clock_step(mid); if (f.dt > 1e3) f.dt = 1e3; f.gam = sim::chance(1, 3) ? 1. : g.r(.5, 1); double conv = pick_conv();
    Dense A; VD r; double terms; equation(b, f, val, acc, A, r, terms, sim::chance(1, 2), g);
    if (sim::chance(1, 3)) { CMatrixSparse<double> &S = s->A; S.setZero(); VD rb(n, 0.); merge(b, f, val, acc, S, rb.data()); Dense D = dense(S); double mx[2][2] = {}; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double &z = mx[(int) (i % nd) == d][(int) (j % nd) == d]; z = std::max(z, std::fabs(A(i, j))); }
      for (size_t i = 0; i < n; ++i) { if (!(std::fabs(rb[i] - r[i]) <= 1e-10 * terms)) sim::violation("right-hand-side-wrong", "%s: assembled entry %zu is %.12g, not %.12g", NAME[f.kind], i, rb[i], r[i]); for (size_t j = 0; j < n; ++j) if (!(std::fabs(D(i, j) - A(i, j)) <= 1e-9 * mx[(int) (i % nd) == d][(int) (j % nd) == d])) sim::violation("matrix-wrong", "%s: assembled entry %zu %zu is %.12g, not %.12g", NAME[f.kind], i, j, D(i, j), A(i, j)); }
      sim::probe("assembled"); }
    Got x = settle(NAME[f.kind], s, own, fresh, sim::choose(2) ? PBICG : BICG, conv, bc, nullptr, n, [&](CMatrixSparse<double> &S, double *rb) { merge(b, f, val, acc, S, rb); }, false);
    if (!x.done) { sim::probe("no convergence"); break; } sim::probe("solved"); check_step(NAME[f.kind], A, r, x.x, bc, conv, terms);
    VD v0 = val, a0 = acc;
    if (f.kind == STATIC) { VD w(n); for (size_t i = 0; i < n; ++i) w[i] = val[i] + x.x[i]; XPlusAY(val, n, bc, 1.0, x.x); check_update("steady Stokes", val, w, v0, bc, maxabs(v0) + maxabs(x.x)); }
    else { VD w(n), wa(n); for (size_t i = 0; i < n; ++i) { w[i] = val[i] + f.dt * (acc[i] + f.gam * x.x[i]); wa[i] = acc[i] + x.x[i]; } XPlusAYBZ(val, n, bc, f.dt * f.gam, x.x, f.dt, acc); XPlusAY(acc, n, bc, 1.0, x.x); check_update(NAME[f.kind], val, w, v0, bc, maxabs(v0) + f.dt * (maxabs(a0) + maxabs(x.x))); check_update("rates", acc, wa, a0, bc, maxabs(a0) + maxabs(x.x));
      if (f.kind == STOKES && wall == 2 && f.gam == 1 && conv <= 1e-8) { // friction only takes energy; the force of gravity gives what it works
        double e0 = 0, e1 = 0, in = 0, big = 0, G[4][3]; for (size_t t = 0; t < b.ne(); ++t) { const unsigned *q = &b.el[t * b.nn]; double V = shape(b, q, G); for (int i = 0; i < b.nn; ++i) for (int k = 0; k < d; ++k) { in += V / b.nn * f.g[k] * val[q[i] * nd + k]; for (int j = 0; j < b.nn; ++j) { double m = f.rho * V / ((d + 1) * (d + 2)) * (i == j ? 2 : 1); e0 += .5 * m * v0[q[i] * nd + k] * v0[q[j] * nd + k]; e1 += .5 * m * val[q[i] * nd + k] * val[q[j] * nd + k]; } } }
        double pin = 0; for (int i = 0; i < b.np; ++i) if (bc[i * nd + d]) pin = std::max(pin, std::fabs(val[i * nd + d])); double prev = 0; for (size_t i = 0; i < n; ++i) big = std::max(big, std::fabs(val[i])); (void) prev; (void) pin;
        double tol = 1e-6 * (e0 + e1 + std::fabs(in * f.dt)) + 1e-10 + f.dt * (norm(r) * 1.1 * conv + 1e-9 * terms) * std::sqrt((double) n) * big; if (pin == 0 && !(e1 <= e0 + f.dt * in + tol)) sim::violation("energy-grows", "the fluid in a closed box goes from energy %.9g to %.9g, gravity works %.9g", e0, e1, f.dt * in); sim::probe("closed box"); } }
    sim::state(gen::hv(val, k)); }
  sim::nontrivial(); sim::mix(gen::hv(val, gen::hv(acc, 7))); }
// flows known in closed form satisfy the equations as they are
void known_flow() {
  gen::Rng g = gen::rng(); Body b = domain(g); Fluid f = fluid(g, b, (int) sim::choose(3)); for (double &q : f.g) q = 0; int d = b.d, nd = d + 1; size_t n = (size_t) b.np * nd; VU on = rim(b); Hush hush; f.dt = clock_step(clock_of(f, b)); f.gam = g.r(.5, 1);
  double U[3] = {g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)}, D[3][3] = {}, a[3] = {}, p0 = g.r(-5, 5), dp[3] = {}, am = std::pow(10., g.r(-1, 1)); for (double &q : U) q *= am;
  if (f.kind == NAVIER) { // a shear along t, faster across n, on top of a wind, speeding up across the shear's normal
    double nn[3] = {g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)}, t[3]; if (d == 2) { nn[2] = 0; t[0] = -nn[1]; t[1] = nn[0]; t[2] = 0; } else { double w[3] = {g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)}; for (int k = 0; k < 3; ++k) t[k] = nn[(k + 1) % 3] * w[(k + 2) % 3] - nn[(k + 2) % 3] * w[(k + 1) % 3]; }
    double S = g.n(3) ? g.r(-3, 3) * am : 0, ac = g.n(2) ? g.r(-2, 2) * am : 0; for (int k = 0; k < d; ++k) { for (int l = 0; l < d; ++l) D[k][l] = S * t[k] * nn[l]; a[k] = ac * t[k]; } if (S == 0 && ac != 0) for (int k = 0; k < d; ++k) a[k] = g.r(-2, 2) * am;
    for (int k = 0; k < d; ++k) { dp[k] = -f.rho * a[k]; for (int l = 0; l < d; ++l) dp[k] -= f.rho * D[k][l] * U[l]; } if (ac != 0) sim::probe("accelerating flow"); if (S != 0) sim::probe("shear"); }
  else { double tr = 0; for (int k = 0; k < d; ++k) for (int l = 0; l < d; ++l) D[k][l] = g.r(-2, 2) * am; for (int k = 0; k + 1 < d; ++k) tr += D[k][k]; D[d - 1][d - 1] = -tr; sim::probe("linear flow"); }
  VD val(n), acc(n, 0.); for (int i = 0; i < b.np; ++i) { const double *x = b.p(i); double p = p0; for (int k = 0; k < d; ++k) { double u = U[k]; for (int l = 0; l < d; ++l) u += D[k][l] * x[l]; val[i * nd + k] = u; acc[i * nd + k] = a[k]; p += dp[k] * x[k]; } val[i * nd + d] = p; }
  std::unique_ptr<Sys> s = system_of(b, nd, 0); s->A.setZero(); VD r(n, 0.); merge(b, f, val, acc, s->A, r.data()); double terms = 0, big; for (size_t t = 0; t < b.ne(); ++t) { const unsigned *q = &b.el[t * b.nn]; ref(b, q, f, val, acc, weight(b, q, f, lib(b, q, f, val, acc)), big); terms = std::max(terms, big); }
  for (size_t i = 0; i < n; ++i) { bool press = (int) (i % nd) == d; if (!press && on[i / nd]) continue; if (!(std::fabs(r[i]) <= 1e-8 * terms)) sim::violation("known-flow-disturbed", "%s: %s at node %zu is driven by %.9g of %.9g in a flow that solves the equations", NAME[f.kind], press ? "pressure" : "velocity", i / nd, r[i], terms); }
  sim::state(gen::hv(val, 3)); sim::nontrivial(); sim::mix(gen::hv(r, 8)); }
// ---- waves
typedef std::complex<double> Cx; typedef std::vector<Cx> VC;
void waves() {
  gen::Rng g = gen::rng(); Body b = body2(g); size_t n = b.np; double L = 0; for (double q : b.x) L = std::max(L, std::fabs(q)); double wl = L * std::pow(10., g.r(-.5, 1)), k = 2 * M_PI / wl; VC val(n); for (Cx &q : val) q = Cx(g.r(-1, 1), g.r(-1, 1)); VI bc(n, 0); for (int &q : bc) q = g.n(5) == 0;
  VU pi, p; JArray_PSuP_MeshElem(pi, p, b.el.data(), b.ne(), 3, n); JArray_Sort(pi, p); VU on = rim(b), line; { std::vector<std::pair<unsigned, unsigned>> ed; for (size_t t = 0; t < b.ne(); ++t) for (int i = 0; i < 3; ++i) { unsigned u = b.el[t * 3 + i], v = b.el[t * 3 + (i + 1) % 3]; ed.push_back({u, v}); } unsigned at = 0; while (!on[at]) ++at; line.push_back(at); int len = 1 + (int) sim::choose(8); for (int i = 0; i < len; ++i) { bool moved = false; for (auto &e : ed) if (e.first == at && std::find(ed.begin(), ed.end(), std::make_pair(e.second, e.first)) == ed.end()) { at = e.second; moved = true; break; } if (!moved) break; line.push_back(at); } }
  bool open = sim::choose(3) && line.size() > 1; double G[4][3]; std::vector<VC> A(n, VC(n)); VC r(n); double terms = 0; // terms of the right-hand side
  for (size_t t = 0; t < b.ne(); ++t) { const unsigned *q = &b.el[t * 3]; double V = shape(b, q, G); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[q[i]][q[j]] += V * (G[i][0] * G[j][0] + G[i][1] * G[j][1]) - k * k * V / 12 * (i == j ? 2 : 1); }
  if (open) for (size_t e = 0; e + 1 < line.size(); ++e) { unsigned q[2] = {line[e], line[e + 1]}; double l = std::hypot(b.p(q[0])[0] - b.p(q[1])[0], b.p(q[0])[1] - b.p(q[1])[1]); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) A[q[i]][q[j]] += Cx(0, 1) * (k * l / 6 * (i == j ? 2 : 1) - (i == j ? 1 : -1) / (2 * l * k)); } // outgoing waves, second order
  double big = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { r[i] -= A[i][j] * val[j]; big = std::max(big, std::abs(A[i][j])); } terms = big * n; Hush hush;
  CMatrixSparse<Cx> S; S.Initialize((unsigned) n, 1, true); S.SetPattern(pi.data(), pi.size(), p.data(), p.size()); CPreconditionerILU<Cx> P; P.SetPattern0(S);
  double conv = pick_conv(); VC x(n), rb; std::vector<double> h; bool twice = sim::chance(1, 3); auto assemble = [&](CMatrixSparse<Cx> &M, VC &v) { v.assign(n, Cx(0)); M.setZero(); MergeLinSys_Helmholtz_MeshTri2D(M, v.data(), wl, b.x.data(), n, b.el.data(), b.ne(), val.data()); if (open) MergeLinSys_SommerfeltRadiationBC_Polyline2D(M, v.data(), wl, b.x.data(), n, line.data(), line.size(), val.data()); };
  assemble(S, rb); if (twice) { assemble(S, rb); sim::probe("assembled again"); }
  for (size_t i = 0; i < n; ++i) { VC row(n); row[i] = S.val_dia_[i]; for (unsigned e = S.col_ind_[i]; e < S.col_ind_[i + 1]; ++e) row[S.row_ptr_[e]] += S.val_crs_[e]; for (size_t j = 0; j < n; ++j) if (!(std::abs(row[j] - A[i][j]) <= 3e-5 * big)) sim::violation("matrix-wrong", "waves%s: entry %zu %zu is %.9g%+.9gi, not %.9g%+.9gi", open ? " with an open side" : "", i, j, row[j].real(), row[j].imag(), A[i][j].real(), A[i][j].imag()); if (!(std::abs(rb[i] - r[i]) <= 3e-5 * terms)) sim::violation("right-hand-side-wrong", "waves: entry %zu", i); for (size_t j = 0; j < n; ++j) A[i][j] = row[j]; }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (!(std::abs(A[i][j] - A[j][i]) <= 1e-12 * big)) sim::violation("matrix-wrong", "waves: entries %zu %zu differ by %.3g: sound takes another way back", i, j, std::abs(A[i][j] - A[j][i]));
  VC want = rb; auto go = [&](CMatrixSparse<Cx> &M, CPreconditionerILU<Cx> &Q, VC &v, VC &x) { assemble(M, v); M.SetFixedBC(bc.data()); setRHS_Zero(v, bc, 0); Q.CopyValue(M); Q.Decompose(); h = Solve_PCOCG(v.data(), x.data(), conv, 20 * (unsigned) n + 50, M, Q); };
  if (maybe_oom("waves", [&] { go(S, P, rb, x); })) { sim::NoLib nl; go(S, P, rb, x); }
  if (sim::chance(1, 4)) { sim::fault("restart"); CMatrixSparse<Cx> M; M.Initialize((unsigned) n, 1, true); M.SetPattern(pi.data(), pi.size(), p.data(), p.size()); CPreconditionerILU<Cx> Q; Q.SetPattern0(M); VC v, y(n, Cx(3, 4)); go(M, Q, v, y); if (std::memcmp(y.data(), x.data(), 16 * n)) sim::violation("restart-differs", "waves: the same problem, solved from scratch, gave another result"); }
  bool done = !h.empty() && h.back() < conv; for (double q : h) if (!(q < 1e3)) done = false; if (!done) { sim::probe("no convergence"); sim::nontrivial(); return; } sim::probe("solved");
  double nb = 0, nr = 0, nx = 0; for (size_t i = 0; i < n; ++i) { if (bc[i]) { if (x[i] != Cx(0)) sim::violation("fixed-value-moves", "waves: fixed value %zu is to change by %.9g", i, std::abs(x[i])); continue; } Cx e = want[i]; nb += std::norm(want[i]); nx += std::norm(x[i]); for (size_t j = 0; j < n; ++j) if (!bc[j]) e -= A[i][j] * x[j]; nr += std::norm(e); }
  if (!(std::sqrt(nr) <= 1.02 * conv * std::sqrt(nb) + 1e-10 * (big * n * std::sqrt(nx) + std::sqrt(nb)))) sim::violation("step-wrong", "waves: the answer misses its equation by %.9g of %.9g, asked for %.3g", std::sqrt(nr), std::sqrt(nb), conv);
  VD f; for (Cx q : x) { f.push_back(q.real()); f.push_back(q.imag()); } sim::state(gen::hv(f, 4)); sim::nontrivial(); sim::mix(gen::hv(f, 9)); }
const sim::Scenario S07[] = {{"stepping", 5, stepping}, {"known flow", 3, known_flow}, {"waves", 2, waves}};
}
SIM_MAIN(SIM_TABLE("S07", S07))
