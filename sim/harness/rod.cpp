// S06: rods and hair (discrete elastic rods in 3D with roots, contacts and directors; dragged elastic polylines in 2D).
// The simulator owns the time step, drags roots and vertices, changes supports, swaps or restarts the solver and lets
// memory run out. Every step is judged against an own derivation (automatic differentiation) of the same energy.
#include "geomgen.h"
#include "seams.h"
#include <array>
#include <memory>
#include <new>
#include <cmath>
#include <cstring>
#include <iostream>
#include <functional>
#include "delfem2/hair_darboux_solver.h"
#include "delfem2/hair_darboux_util.h"
#include "delfem2/hair_darboux_collision.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/ls_pentadiagonal.h"
#include "delfem2/polyline_elastic_rod2.h"
#include "delfem2/polyline_elastic_beam2.h"
#include "delfem2/msh_topology_uniform.h"
using namespace delfem2;
namespace {
typedef std::vector<double> VD; typedef std::vector<unsigned> VU; typedef std::vector<int> VI; typedef std::vector<CVec3d> VV;
struct Null : std::streambuf { int overflow(int c) override { return c; } };
struct Hush { static Null n; std::streambuf *o; Hush() : o(std::cout.rdbuf(&n)) {} ~Hush() { std::cout.rdbuf(o); } }; Null Hush::n;
// ---- numbers that carry their first derivatives
template <int N> struct D { double v; double d[N]; D(double v = 0) : v(v), d() {} };
template <int N> D<N> operator+(D<N> a, const D<N> &b) { a.v += b.v; for (int i = 0; i < N; ++i) a.d[i] += b.d[i]; return a; }
template <int N> D<N> operator-(D<N> a, const D<N> &b) { a.v -= b.v; for (int i = 0; i < N; ++i) a.d[i] -= b.d[i]; return a; }
template <int N> D<N> operator*(const D<N> &a, const D<N> &b) { D<N> r(a.v * b.v); for (int i = 0; i < N; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
template <int N> D<N> operator/(const D<N> &a, const D<N> &b) { D<N> r(a.v / b.v); for (int i = 0; i < N; ++i) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v; return r; }
template <int N> D<N> root(const D<N> &a) { D<N> r(std::sqrt(a.v)); for (int i = 0; i < N; ++i) r.d[i] = a.d[i] / (2 * r.v); return r; }
double root(double a) { return std::sqrt(a); }
template <class T> struct A3 { T p[3]; };
template <class T> A3<T> operator+(const A3<T> &a, const A3<T> &b) { return {{a.p[0] + b.p[0], a.p[1] + b.p[1], a.p[2] + b.p[2]}}; }
template <class T> A3<T> operator-(const A3<T> &a, const A3<T> &b) { return {{a.p[0] - b.p[0], a.p[1] - b.p[1], a.p[2] - b.p[2]}}; }
template <class T> A3<T> mul(const T &s, const A3<T> &a) { return {{s * a.p[0], s * a.p[1], s * a.p[2]}}; }
template <class T> T dot(const A3<T> &a, const A3<T> &b) { return a.p[0] * b.p[0] + a.p[1] * b.p[1] + a.p[2] * b.p[2]; }
template <class T> A3<T> cross(const A3<T> &a, const A3<T> &b) { return {{a.p[1] * b.p[2] - a.p[2] * b.p[1], a.p[2] * b.p[0] - a.p[0] * b.p[2], a.p[0] * b.p[1] - a.p[1] * b.p[0]}}; }
template <class T> A3<T> unit(const A3<T> &a) { return mul(T(1.) / root(dot(a, a)), a); }
template <class T> A3<T> turn(const A3<T> &a, const A3<T> &b, const A3<T> &v) { A3<T> n = cross(a, b), w = cross(n, v); return v + w + mul(T(1.) / (T(1.) + dot(a, b)), cross(n, w)); } // the smallest rotation taking a to b, applied to v
// director after its edge went from e to f and turned about it by an angle of sine s and cosine c
template <class T> A3<T> transport(const A3<T> &S, const A3<T> &e, const A3<T> &f, const T &c, const T &s) { A3<T> u = unit(e); return turn(u, unit(f), mul(c, S) + mul(s, cross(u, S))); }
// relative rotation between the frames of two edges, 2 tan(half the angle) / 2 per axis
template <class T> void darboux(T C[3], T &Y, const A3<T> P[3], const A3<T> S[2]) { A3<T> F[2][3]; for (int i = 0; i < 2; ++i) { F[i][2] = unit(P[i + 1] - P[i]); F[i][0] = S[i]; F[i][1] = cross(F[i][2], F[i][0]); }
  Y = T(1.) + dot(F[0][0], F[1][0]) + dot(F[0][1], F[1][1]) + dot(F[0][2], F[1][2]); for (int k = 0; k < 3; ++k) { int a = (k + 1) % 3, b = (k + 2) % 3; C[k] = (dot(F[0][a], F[1][b]) - dot(F[0][b], F[1][a])) / Y; } }
A3<double> a3(const CVec3d &v) { return {{v.x, v.y, v.z}}; }
// ---- dense algebra
struct Dense { size_t n; VD a; explicit Dense(size_t n = 0) : n(n), a(n * n, 0.) {} double &operator()(size_t i, size_t j) { return a[i * n + j]; } double operator()(size_t i, size_t j) const { return a[i * n + j]; }
  VD mul(const VD &x) const { VD y(n, 0.); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) y[i] += a[i * n + j] * x[j]; return y; }
  double big() const { double m = 0; for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 0; j < n; ++j) s += std::fabs(a[i * n + j]); m = std::max(m, s); } return m; } };
void fix(Dense &A, VD &b, const VI &bc) { for (size_t i = 0; i < A.n; ++i) if (bc[i]) { for (size_t j = 0; j < A.n; ++j) A(i, j) = A(j, i) = 0; A(i, i) = 1; b[i] = 0; } }
bool gauss(Dense A, VD &b) { size_t n = A.n; for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k + 1; i < n; ++i) if (std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i; if (!(std::fabs(A(p, k)) > 1e-13)) return false; if (p != k) { for (size_t j = 0; j < n; ++j) std::swap(A(p, j), A(k, j)); std::swap(b[p], b[k]); } for (size_t i = k + 1; i < n; ++i) { double f = A(i, k) / A(k, k); if (f == 0) continue; for (size_t j = k; j < n; ++j) A(i, j) -= f * A(k, j); b[i] -= f * b[k]; } }
  for (size_t k = n; k-- > 0;) { for (size_t j = k + 1; j < n; ++j) b[k] -= A(k, j) * b[j]; b[k] /= A(k, k); } return true; }
double definite(Dense A) { double lo = 1e300, hi = 0; size_t n = A.n; for (size_t k = 0; k < n; ++k) { for (size_t j = 0; j < k; ++j) A(k, k) -= A(k, j) * A(k, j); if (!(A(k, k) > 0)) return 0; double s = std::sqrt(A(k, k)); lo = std::min(lo, s); hi = std::max(hi, s); A(k, k) = s; for (size_t i = k + 1; i < n; ++i) { for (size_t j = 0; j < k; ++j) A(i, k) -= A(i, j) * A(k, j); A(i, k) /= s; } } return lo / hi; } // Cholesky: 0 when not positive definite
double norm(const VD &a) { double s = 0; for (double x : a) s += x * x; return std::sqrt(s); }
double maxabs(const VD &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
template <class F> bool maybe_oom(const char *what, F f) {
  int k = sim::chance(1, 5) ? 1 + (int) sim::choose(10) : 0; bool threw = false, hit = false;
  { sim::Lib l; if (k) sim::alloc_fail_at(k); try { f(); } catch (std::bad_alloc &) { threw = true; } hit = k && sim::alloc_failed(); sim::alloc_fail_at(0); }
  if (hit) { sim::fault("allocation failure"); if (!threw) sim::violation("lost-error", "%s swallowed a failed allocation", what); } return threw; }
// a solver of the session's own: keeps what the library assembled
struct Spy { Dense A, K; VD vec_r, vec_x, r; VI dof_bcflag; bool ok = true; void Initialize(size_t n) { A = Dense(n * 4); dof_bcflag.assign(n * 4, 0); } size_t nblk() const { return A.n / 4; } size_t ndim() const { return 4; }
  void BeginMerge() { std::fill(A.a.begin(), A.a.end(), 0.); vec_r.assign(A.n, 0.); }
  template <int nr, int nc, int dr, int dc> void Merge(const unsigned *R, const unsigned *C, const double e[nr][nc][dr][dc]) { for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) for (int a = 0; a < dr; ++a) for (int b = 0; b < dc; ++b) A(R[i] * 4 + a, C[j] * 4 + b) += e[i][j][a][b]; }
  void AddValueToDiagonal(unsigned i, unsigned d, double v) { A(i * 4 + d, i * 4 + d) += v; }
  void Solve() { K = A; r = vec_r; fix(A, vec_r, dof_bcflag); vec_x = vec_r; for (size_t i = 0; i < A.n; ++i) if (A(i, i) == 0 && vec_r[i] == 0) A(i, i) = 1; ok = gauss(A, vec_x); if (!ok) vec_x.assign(A.n, 0.); } };
// ---- hair
struct Hair { VU root{0}; VV P0, S0, P, S; VI bc; double ks = 1, kb[3] = {1, 1, 1}, L = 1; size_t np() const { return P0.size(); }
  // energy, its negative gradient and its (Gauss-Newton in bending, exact in stretching) second derivative; false: a hinge or an edge is degenerate
  bool eval(double &W, VD &r, Dense &K) const { size_t n = np() * 4; W = 0; r.assign(n, 0.); K = Dense(n);
    for (size_t h = 0; h + 1 < root.size(); ++h) { for (unsigned i = root[h]; i + 1 < root[h + 1]; ++i) { A3<double> e = a3(P[i + 1]) - a3(P[i]), e0 = a3(P0[i + 1]) - a3(P0[i]); double l = std::sqrt(dot(e, e)), l0 = std::sqrt(dot(e0, e0)); if (!(l > .15 * l0 && l < 6 * l0)) return false; W += .5 * ks * (l - l0) * (l - l0);
        for (int a = 0; a < 3; ++a) { double t = ks * (l - l0) * e.p[a] / l; r[i * 4 + a] += t; r[(i + 1) * 4 + a] -= t; for (int b = 0; b < 3; ++b) { double k = ks * ((a == b) * (1 - l0 / l) + l0 / l * e.p[a] * e.p[b] / (l * l)); for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) K((i + x) * 4 + a, (i + y) * 4 + b) += x == y ? k : -k; } } }
      for (unsigned i = root[h]; i + 2 < root[h + 1]; ++i) { typedef D<11> T; A3<T> q[3], s[2]; T C[3], Y; double c0[3], y0; { A3<double> p[3] = {a3(P0[i]), a3(P0[i + 1]), a3(P0[i + 2])}, t[2] = {a3(S0[i]), a3(S0[i + 1])}; darboux(c0, y0, p, t); if (!(y0 > .3)) return false; }
        for (int x = 0; x < 3; ++x) for (int a = 0; a < 3; ++a) { q[x].p[a] = T(P[i + x][a]); q[x].p[a].d[x * 3 + a] = 1; } for (int x = 0; x < 2; ++x) { A3<T> S_, e; for (int a = 0; a < 3; ++a) { S_.p[a] = T(S[i + x][a]); e.p[a] = T(P[i + x + 1][a] - P[i + x][a]); } T sn(0.); sn.d[9 + x] = 1; s[x] = transport(S_, e, q[x + 1] - q[x], T(1.), sn); }
        darboux(C, Y, q, s); if (!(Y.v > .3)) return false; auto at = [&](int k) { return k < 9 ? (i + k / 3) * 4 + k % 3 : (i + k - 9) * 4 + 3; };
        for (int k = 0; k < 3; ++k) { double R = C[k].v - c0[k]; W += .5 * kb[k] * R * R; for (int x = 0; x < 11; ++x) { r[at(x)] -= kb[k] * R * C[k].d[x]; for (int y = 0; y < 11; ++y) K(at(x), at(y)) += kb[k] * C[k].d[x] * C[k].d[y]; } } } }
    return true; }
  double frame_error(size_t i) const { A3<double> s = a3(S[i]), e = unit(a3(P[i + 1]) - a3(P[i])); return std::max(std::fabs(dot(s, s) - 1), std::fabs(dot(s, e))); } };
A3<double> dir(gen::Rng &g) { A3<double> a; do for (double &c : a.p) c = g.r(-1, 1); while (!(dot(a, a) > .05 && dot(a, a) < 1)); return unit(a); }
A3<double> spin(const A3<double> &axis, double th, const A3<double> &v) { return mul(std::cos(th), v) + mul(std::sin(th), cross(axis, v)) + mul((1 - std::cos(th)) * dot(axis, v), axis); }
CVec3d cv(const A3<double> &a) { return CVec3d(a.p[0], a.p[1], a.p[2]); }
Hair make(gen::Rng &g) {
  Hair h; int nh = 1 + (int) sim::choose(3); h.L = std::pow(10., g.r(-1, .3)); int turned = (int) sim::choose(3);
  for (int k = 0; k < nh; ++k) { int np = 3 + (int) sim::choose(6); VV P, S; if (sim::choose(2)) { HairDarbouxShape s; s.num_points = np; s.edge_length = h.L; s.radius = h.L * g.r(.8, 3); s.pitch = h.L * (g.n(3) ? g.r(.2, 4) : 0.); s.MakeConfigDaboux(P, S); sim::probe("helix");
      if (P.size() != (size_t) np || S.size() != (size_t) np) sim::violation("helix-wrong", "%zu points and %zu directors for %d points", P.size(), S.size(), np);
      for (int i = 0; i + 1 < np; ++i) { double l = (P[i + 1] - P[i]).norm(); if (!(std::fabs(l - h.L) <= 1e-7 * h.L)) sim::violation("helix-wrong", "edge %d is %.9g long, not %.9g", i, l, h.L); double rr = std::hypot(P[i].y, P[i].z); if (!(std::fabs(rr - s.radius) <= 1e-9 * s.radius)) sim::violation("helix-wrong", "point %d is %.9g from the axis, not %.9g", i, rr, s.radius); double e = std::max(std::fabs(S[i].norm() - 1), std::fabs(S[i].dot((P[i + 1] - P[i]).normalized()))); if (!(e < 1e-9)) sim::violation("frame-broken", "director %d of a helix is off by %.3g", i, e); }
      for (int i = 0; i + 2 < np; ++i) { CVec3d w = cv(turn(unit(a3(P[i + 1] - P[i])), unit(a3(P[i + 2] - P[i + 1])), a3(S[i]))); if (!((w - S[i + 1]).norm() < 1e-7)) sim::violation("helix-wrong", "director %d is not the one before it carried along", i + 1); } }
    else { A3<double> p = {{0, 0, 0}}, e = dir(g), s; do s = dir(g); while (std::fabs(dot(s, e)) > .9); s = unit(s - mul(dot(s, e), e)); double bend = sim::choose(4) ? g.r(.05, .9) : 0.; for (int i = 0; i < np; ++i) { P.push_back(cv(p)); S.push_back(cv(s)); p = p + mul(h.L * g.r(.6, 1.5), e); if (bend > 0) { A3<double> ax = dir(g); ax = unit(ax - mul(dot(ax, e) * .999, e)); A3<double> f = unit(spin(ax, g.r(-bend, bend), e)); s = spin(f, g.r(-.6, .6), turn(e, f, s)); e = f; } s = unit(s - mul(dot(s, e), e)); } }
    A3<double> ax = dir(g), sh = mul(h.L * g.r(0, 5), dir(g)); double th = turned ? g.r(-3, 3) : 0.; for (auto &q : P) q = cv(spin(ax, th, a3(q)) + sh); for (auto &q : S) q = cv(spin(ax, th, a3(q))); h.P0.insert(h.P0.end(), P.begin(), P.end()); h.S0.insert(h.S0.end(), S.begin(), S.end()); h.root.push_back((unsigned) h.P0.size()); }
  h.ks = std::pow(10., g.r(-1, 3)) / (h.L * h.L); for (double &k : h.kb) k = std::pow(10., g.r(-1, 1)); // energies of bending and stretching are comparable or stretching is stiffer
  MakeBCFlag_RodHair(h.bc, h.root); VI want(h.np() * 4, 0); for (size_t k = 0; k + 1 < h.root.size(); ++k) { for (int a = 0; a < 3; ++a) want[h.root[k] * 4 + a] = want[h.root[k] * 4 + 4 + a] = 1; want[h.root[k] * 4 + 3] = want[h.root[k + 1] * 4 - 1] = 1; } if (want != h.bc) sim::violation("supports-wrong", "the flags of %zu hairs with %zu points fix other unknowns than roots and the unused slots", h.root.size() - 1, h.np());
  h.P = h.P0; h.S = h.S0; return h; }
void orthogonal(Hair &h) { VV S = h.S; MakeDirectorOrthogonal_RodHair(h.S, h.P); for (size_t k = 0; k + 1 < h.root.size(); ++k) for (unsigned i = h.root[k]; i + 1 < h.root[k + 1]; ++i) { A3<double> e = unit(a3(h.P[i + 1] - h.P[i])), s = unit(a3(S[i]) - mul(dot(a3(S[i]), e), e)); if (!((cv(s) - h.S[i]).norm() < 1e-9)) sim::violation("frame-broken", "director %u was not made orthogonal to its edge", i); } }
bool near_frames(const Hair &h) { for (size_t k = 0; k + 1 < h.root.size(); ++k) for (unsigned i = h.root[k]; i + 1 < h.root[k + 1]; ++i) { A3<double> e = unit(a3(h.P[i + 1] - h.P[i])); if (std::fabs(dot(unit(a3(h.S[i])), e)) > .7) return false; } return true; }
void perturb(Hair &h, gen::Rng &g, double amp) { for (size_t i = 0; i < h.np(); ++i) { for (int a = 0; a < 3; ++a) { if (!h.bc[i * 4 + a]) h.P[i].p[a] += g.r(-amp, amp) * h.L; } if (!h.bc[i * 4 + 3]) for (int a = 0; a < 3; ++a) h.S[i].p[a] += g.r(-amp, amp); } }
void frames(gen::Rng &g, const Hair &h) { // the frame of an edge that is moved and turned
  for (size_t i = 0; i + 1 < h.np(); ++i) { A3<double> e = a3(h.P[i + 1]) - a3(h.P[i]); if (std::sqrt(dot(e, e)) < .01 * h.L || !(h.frame_error(i) < 1e-6)) continue; A3<double> du = mul(h.L * std::pow(10., g.r(-6, .3)), dir(g)); double th = g.n(4) ? g.r(-3, 3) : 0; if (dot(unit(e), unit(e + du)) < -.9) continue; CVec3d f[3]; RodFrameTrans(f, h.S[i], h.P[i + 1] - h.P[i], cv(du), th); A3<double> w[3]; w[2] = unit(e + du); w[0] = transport(a3(h.S[i]), e, e + du, std::cos(th), std::sin(th)); w[1] = cross(w[2], w[0]); for (int k = 0; k < 3; ++k) if (!((f[k] - cv(w[k])).norm() <= 5e-6)) sim::violation("frame-wrong", "axis %d of the frame of a moved edge is (%.9g %.9g %.9g), not (%.9g %.9g %.9g)", k, f[k].x, f[k].y, f[k].z, w[k].p[0], w[k].p[1], w[k].p[2]); } }
enum { SPARSE, PENTA, SPY };
struct Solver { int kind = 0; LinearSystemSolver_BlockSparse sp; LinearSystemSolver_BlockPentaDiagonal<4> pd; Spy spy; bool done = true; VD x; };
std::unique_ptr<Solver> solver(const Hair &h, int kind) { if (kind == PENTA && h.np() < 4) kind = SPY; std::unique_ptr<Solver> s(new Solver); s->kind = kind; if (kind == SPARSE) { VU a, b; JArray_PSuP_Hair(a, b, h.root); s->sp.Initialize((unsigned) h.np(), 4, a, b); } else if (kind == PENTA) s->pd.Initialize((unsigned) h.np()); else s->spy.Initialize(h.np()); return s; }
// what one step did, against the equation A x = b and against the transport of frames
void judge(const char *what, const Hair &o, const Hair &h, const Dense &A0, const VD &b0, const VD &x, double conv, double terms) {
  size_t n = h.np() * 4; Dense A = A0; VD b = b0; fix(A, b, h.bc); VD y = A.mul(x), r(n); double nr = 0, nb = norm(b); size_t w = 0; for (size_t i = 0; i < n; ++i) { if (!std::isfinite(x[i])) sim::violation("step-wrong", "%s: unknown %zu is not a number", what, i); if (h.bc[i] && x[i] != 0) sim::violation("fixed-value-moves", "%s: fixed unknown %zu is to change by %.9g", what, i, x[i]); r[i] = b[i] - y[i]; nr += r[i] * r[i]; if (std::fabs(r[i]) > std::fabs(r[w])) w = i; } nr = std::sqrt(nr);
  if (!(nr <= 1.02 * conv * nb + 1e-9 * (A.big() * norm(x) + nb) + 1e-11 * terms + 1.01e-15)) sim::violation("step-wrong", "%s: the step misses its equation by %.9g of %.9g (unknown %zu by %.9g)", what, nr, nb, w, r[w]);
  for (size_t i = 0; i < h.np(); ++i) for (int a = 0; a < 3; ++a) { double want = o.P[i][a] + x[i * 4 + a]; if (h.bc[i * 4 + a] ? h.P[i][a] != o.P[i][a] : !(std::fabs(h.P[i][a] - want) <= 1e-12 * (std::fabs(want) + h.L))) sim::violation(h.bc[i * 4 + a] ? "fixed-value-moves" : "update-wrong", "%s: coordinate %d of point %zu went from %.9g to %.9g, the step is %.9g (flag %d)", what, a, i, o.P[i][a], h.P[i][a], x[i * 4 + a], h.bc[i * 4 + a]); }
  for (size_t k = 0; k + 1 < h.root.size(); ++k) { unsigned last = h.root[k + 1] - 1; if (std::memcmp(h.S[last].p, o.S[last].p, 24)) sim::violation("update-wrong", "%s: the unused director slot of hair %zu changed", what, k); for (unsigned i = h.root[k]; i < last; ++i) { A3<double> e = a3(o.P[i + 1] - o.P[i]), f = a3(h.P[i + 1] - h.P[i]); double l = std::sqrt(dot(f, f)); if (dot(unit(e), unit(f)) < -.9 || l < 1e-3 * h.L) continue; double er = h.frame_error(i); if (!(er <= 1e-8)) sim::violation("frame-broken", "%s: director %u is off unit length or its edge by %.3g", what, i, er); A3<double> s = transport(a3(o.S[i]), e, f, std::cos(x[i * 4 + 3]), std::sin(x[i * 4 + 3])); if (!((cv(s) - h.S[i]).norm() <= 1e-8)) sim::violation("frame-wrong", "%s: director %u is (%.9g %.9g %.9g), carried along with its edge it is (%.9g %.9g %.9g)", what, i, h.S[i].x, h.S[i].y, h.S[i].z, s.p[0], s.p[1], s.p[2]); } } }
double diff(const Dense &A, const Dense &B) { double m = 0; for (size_t i = 0; i < A.a.size(); ++i) m = std::max(m, std::fabs(A.a[i] - B.a[i])); return m; }
double clock_mdtt(gen::Rng &g, const Hair &h) { double m = h.ks; switch (sim::choose(6)) { case 0: sim::fault("clock jump"); return 0.; case 1: sim::fault("tiny time step"); return m * std::pow(10., g.r(2, 5)); case 2: sim::fault("clock jump"); return m * std::pow(10., g.r(-5, -2)); default: return m * std::pow(10., g.r(-2, 1)); } }
void events(Hair &h, gen::Rng &g, double amp) {
  if (sim::chance(1, 5)) { perturb(h, g, amp * .3); if (near_frames(h)) orthogonal(h); sim::fault("perturbation"); }
  if (sim::chance(1, 5)) { size_t k = sim::choose((uint32_t) h.root.size() - 1); unsigned r = h.root[k]; A3<double> ax = dir(g), sh = mul(h.L * g.r(0, .3), dir(g)); double th = g.r(-.3, .3); A3<double> c = a3(h.P[r]); for (unsigned i = r; i < r + 2; ++i) h.P[i] = cv(c + spin(ax, th, a3(h.P[i]) - c) + sh); if (near_frames(h)) orthogonal(h); sim::fault("root dragged"); }
  if (sim::chance(1, 6)) { MakeBCFlag_RodHair(h.bc, h.root); int m = (int) sim::choose(5); size_t i = sim::choose((uint32_t) h.np()); if (m == 1) for (int a = 0; a < 3; ++a) h.bc[i * 4 + a] = 1; if (m == 2) h.bc[i * 4 + sim::choose(3)] = 1; if (m == 3) h.bc[i * 4 + 3] = 1; if (m == 4) { unsigned r = h.root[sim::choose((uint32_t) h.root.size() - 1)]; int all = sim::choose(2); for (int a = 0; a < 8; ++a) if (a != 7 && (all || (a & 3) == 3)) h.bc[r * 4 + a] = 0; sim::probe("root released"); } sim::fault("supports change"); } }
void hair() {
  gen::Rng g = gen::rng(); Hush hush; Hair h = make(g); size_t n = h.np() * 4; int start = (int) sim::choose(4); double amp = std::pow(10., g.r(-4, -.7));
  if (sim::chance(1, 3)) { VV S = h.S0; ParallelTransport_RodHair(h.P0, h.S0, h.root); for (size_t k = 0; k + 1 < h.root.size(); ++k) for (unsigned i = h.root[k]; i < h.root[k + 1]; ++i) { if (i == h.root[k] || i + 1 == h.root[k + 1]) { if (std::memcmp(S[i].p, h.S0[i].p, 24)) sim::violation("relaxing-wrong", "director %u (root or unused) changed", i); continue; } A3<double> e = unit(a3(h.P0[i] - h.P0[i - 1])), f = unit(a3(h.P0[i + 1] - h.P0[i])), m = turn(e, f, a3(h.S0[i - 1])), own = a3(S[i]), s = unit(m + own); (void) s; A3<double> w = m + own; w = w - mul(dot(w, f), f); if (dot(w, w) < 1e-6) return; w = unit(w); if (!((cv(w) - h.S0[i]).norm() < 1e-6)) sim::violation("relaxing-wrong", "director %u is not halfway between its own direction and its neighbour's", i); } h.S = h.S0; sim::probe("relaxed"); }
  if (start == 1) { A3<double> ax = dir(g), sh = mul(h.L * g.r(0, 9), dir(g)); double th = g.r(-3, 3); for (auto &q : h.P) q = cv(spin(ax, th, a3(q)) + sh); for (size_t i = 0; i < h.np(); ++i) h.S[i] = cv(spin(ax, th, a3(h.S[i]))); } // the rest shape, moved rigidly
  else if (start > 1) { perturb(h, g, amp); if (!near_frames(h)) return; orthogonal(h); }
  int kind = (int) sim::choose(3), steps = 1 + (int) sim::choose(8); auto s = solver(h, kind); double mdtt = clock_mdtt(g, h); bool rest = start < 2; { size_t a = s->kind == SPARSE ? s->sp.nblk() : h.np(); if (a != h.np()) sim::violation("setup-wrong", "the system has %zu blocks for %zu points", a, h.np()); }
  for (int k = 0; k < steps; ++k) { if (k && !rest) events(h, g, amp); if (sim::chance(1, 3)) mdtt = clock_mdtt(g, h); sim::vtime(1000); double W; VD r; Dense K; if (!h.eval(W, r, K)) { sim::probe("degenerate"); break; } for (size_t i = 0; i < h.root.size() - 1; ++i) for (unsigned p = h.root[i]; p + 1 < h.root[i + 1]; ++p) if (h.frame_error(p) > 5e-6) return;
    double terms = std::sqrt((double) n) * (K.big() * h.L + (h.kb[0] + h.kb[1] + h.kb[2]) / h.L); Dense A = K; for (size_t i = 0; i < h.np(); ++i) for (int a = 0; a < 3; ++a) A(i * 4 + a, i * 4 + a) += mdtt; double cond; { Dense B = A; VD t = r; fix(B, t, h.bc); for (size_t i = 0; i < n; ++i) if (B(i, i) == 0) B(i, i) = 1; cond = definite(B); }
    { // energies and forces one by one
      Spy q; q.Initialize(h.np()); q.BeginMerge(); double w1 = Merge_HairStretch(q, h.ks, h.root, h.P, h.P0), w2 = Merge_HairDarboux(q, h.kb, h.root, h.P, h.S, h.P0, h.S0); if (!(std::fabs(w1 + w2 - W) <= 1e-9 * W + 1e-13 * terms * h.L)) sim::violation("energy-wrong", "the hair holds the energy %.12g, not %.12g", w1 + w2, W);
      for (size_t i = 0; i < n; ++i) if (!(std::fabs(q.vec_r[i] - r[i]) <= 1e-8 * norm(r) + 1e-11 * terms)) sim::violation("force-wrong", "the force on unknown %zu is %.12g, not %.12g", i, q.vec_r[i], r[i]); double e = diff(q.A, K), sc = K.big() + 1e-300; if (!(e <= 1e-8 * sc)) sim::violation("stiffness-wrong", "the stiffness is off by %.9g of %.9g", e, sc); if (rest && k == 0 && !(W <= 1e-18 * terms * h.L + 1e-15 * W && norm(r) <= 1e-10 * terms)) sim::violation("rest-moves", "at rest the hair holds %.9g and pulls with %.9g", W, norm(r)); }
    Hair o = h; auto go = [&](Solver &s, Hair &h) { if (s.kind == SPARSE) { s.sp.dof_bcflag = h.bc; Solve_RodHair(h.P, h.S, s.sp, h.ks, h.kb, mdtt, h.P0, h.S0, h.root); s.done = s.sp.conv_hist.empty() || s.sp.conv_hist.back() < 1e-4; } else if (s.kind == PENTA) { s.pd.dof_bcflag = h.bc; Solve_RodHair(h.P, h.S, s.pd, h.ks, h.kb, mdtt, h.P0, h.S0, h.root); } else { s.spy.dof_bcflag = h.bc; Solve_RodHair(h.P, h.S, s.spy, h.ks, h.kb, mdtt, h.P0, h.S0, h.root); s.done = s.spy.ok; } };
    if (s->kind != SPARSE && !(cond > 1e-6)) { sim::probe("indefinite"); break; } // a direct solver needs pivots
    if (s->kind == SPARSE && !(cond > 0)) { sim::probe("indefinite"); break; }
    if (maybe_oom("hair", [&] { go(*s, h); })) { for (size_t i = 0; i < h.np(); ++i) if (std::memcmp(h.P[i].p, o.P[i].p, 24) || std::memcmp(h.S[i].p, o.S[i].p, 24)) sim::violation("failed-step-acts", "point or director %zu changed although memory ran out", i); sim::NoLib nl; if (sim::chance(1, 2)) s = solver(h, kind); go(*s, h); }
    if (sim::chance(1, 5)) { sim::fault("restart"); auto s2 = solver(o, kind); Hair h2 = o; go(*s2, h2); for (size_t i = 0; i < h.np(); ++i) if (std::memcmp(h.P[i].p, h2.P[i].p, 24) || std::memcmp(h.S[i].p, h2.S[i].p, 24)) sim::violation("restart-differs", "hair: a step from the saved state moved point %zu elsewhere", i); }
    if (!s->done) { sim::probe("solver gave up"); break; } s->x = s->kind == SPARSE ? s->sp.vec_x : s->kind == PENTA ? s->pd.vec_x : s->spy.vec_x;
    judge("hair", o, h, A, r, s->x, s->kind == SPARSE ? 1e-4 : s->kind == PENTA ? 1e-12 / (cond * cond) : 1e-9, terms); if (rest) { double m = 0; for (double q : s->x) m = std::max(m, std::fabs(q)); if (cond > 1e-3 && !(m <= 1e-5 * h.L + 1e-5)) sim::violation("rest-moves", "the rest shape moved by %.3g", m); }
    if (sim::chance(1, 3)) frames(g, h); if (sim::chance(1, 6)) { kind = (int) sim::choose(3); s = solver(h, kind); sim::fault("solver replaced"); } uint64_t hh = 0; for (auto &q : h.P) hh = sim::hash_bytes(q.p, 24, hh); sim::state(hh); sim::mix(hh); }
  sim::nontrivial(); }
// ---- hair with contacts: one implicit step with inertia and penalty springs
struct Touch { unsigned i[4]; double w[4]; A3<double> n; };
void contact() {
  gen::Rng g = gen::rng(); Hush hush; Hair h = make(g); size_t n = h.np() * 4; double amp = std::pow(10., g.r(-4, -.7)); if (sim::choose(3)) { perturb(h, g, amp); if (!near_frames(h)) return; orthogonal(h); }
  auto s = solver(h, SPARSE); int steps = 1 + (int) sim::choose(6); double clear = h.L * g.r(0, .5), kc = h.ks * std::pow(10., g.r(-2, 2));
  for (int k = 0; k < steps; ++k) { if (k) events(h, g, amp); double mdtt = h.ks * std::pow(10., g.r(-2, 2)); if (sim::chance(1, 5)) { mdtt *= 1e3; sim::fault("tiny time step"); } sim::vtime(1000); double W; VD r; Dense A; if (!h.eval(W, r, A)) { sim::probe("degenerate"); break; } for (size_t i = 0; i + 1 < h.root.size(); ++i) for (unsigned p = h.root[i]; p + 1 < h.root[i + 1]; ++p) if (h.frame_error(p) > 5e-6) return;
    VV t0 = h.P; for (auto &q : t0) if (sim::chance(1, 2)) q += cv(mul(amp * h.L, dir(g))); double tm = 0; for (size_t i = 0; i < h.np(); ++i) for (int a = 0; a < 3; ++a) { A(i * 4 + a, i * 4 + a) += mdtt; r[i * 4 + a] += mdtt * (t0[i][a] - h.P[i][a]); tm = std::max(tm, std::fabs(h.P[i][a])); }
    int nc = (int) sim::choose(5); std::vector<CContactHair> cs; std::vector<unsigned> seg; for (size_t q = 0; q + 1 < h.root.size(); ++q) for (unsigned i = h.root[q]; i + 1 < h.root[q + 1]; ++i) seg.push_back(i);
    for (int c = 0; c < nc; ++c) { unsigned a = seg[sim::choose((uint32_t) seg.size())], b = seg[sim::choose((uint32_t) seg.size())]; if (a > b ? a - b < 2 : b - a < 2) continue; A3<double> nn = dir(g); double u = sim::choose(3) ? g.r(0, 1) : (double) sim::choose(2), v = g.r(0, 1); CContactHair ch; ch.ip0 = a; ch.ip1 = a + 1; ch.s = u; ch.iq0 = b; ch.iq1 = b + 1; ch.t = v; ch.norm = cv(nn);
      unsigned id[4] = {a, a + 1, b, b + 1}; double w[4] = {1 - u, u, v - 1, -v}; A3<double> gap = {{0, 0, 0}}; for (int x = 0; x < 4; ++x) gap = gap + mul(w[x], a3(h.P[id[x]])); { A3<double> d = a3(ch.Direction(h.P)) - gap; if (!(dot(d, d) <= 1e-20 * (h.L * h.L + tm * tm))) sim::violation("contact-wrong", "the gap of a contact is (%.9g %.9g %.9g)", gap.p[0], gap.p[1], gap.p[2]); }
      if (sim::choose(2)) { nn = unit(gap); if (!(dot(gap, gap) > 1e-12)) continue; ch.norm = cv(nn); } double r0 = dot(gap, nn) - clear; for (int x = 0; x < 4; ++x) for (int e = 0; e < 3; ++e) { r[id[x] * 4 + e] -= kc * r0 * w[x] * nn.p[e]; for (int y = 0; y < 4; ++y) for (int f = 0; f < 3; ++f) A(id[x] * 4 + e, id[y] * 4 + f) += kc * w[x] * w[y] * nn.p[e] * nn.p[f]; if (h.bc[id[x] * 4 + e]) sim::probe("contact at a support"); } cs.push_back(ch); sim::probe("contact"); }
    double cond; { Dense B = A; VD t = r; fix(B, t, h.bc); for (size_t i = 0; i < n; ++i) if (B(i, i) == 0) B(i, i) = 1; cond = definite(B); } if (!(cond > 1e-4)) { sim::probe("indefinite"); break; }
    Hair o = h; auto go = [&](Solver &s, Hair &h) { s.sp.dof_bcflag = h.bc; Solve_RodHairContact(h.P, h.S, s.sp, h.ks, h.kb, mdtt, t0, h.P0, h.S0, h.root, clear, kc, cs); };
    if (maybe_oom("hair contact", [&] { go(*s, h); })) { for (size_t i = 0; i < h.np(); ++i) if (std::memcmp(h.P[i].p, o.P[i].p, 24) || std::memcmp(h.S[i].p, o.S[i].p, 24)) sim::violation("failed-step-acts", "point or director %zu changed although memory ran out", i); sim::NoLib nl; if (sim::chance(1, 2)) s = solver(h, SPARSE); go(*s, h); }
    if (sim::chance(1, 5)) { sim::fault("restart"); auto s2 = solver(o, SPARSE); Hair h2 = o; go(*s2, h2); for (size_t i = 0; i < h.np(); ++i) if (std::memcmp(h.P[i].p, h2.P[i].p, 24) || std::memcmp(h.S[i].p, h2.S[i].p, 24)) sim::violation("restart-differs", "hair contact: a step from the saved state moved point %zu elsewhere", i); }
    judge("hair contact", o, h, A, r, s->sp.vec_x, 1e-6 * 1.5, std::sqrt((double) n) * (A.big() * (h.L + tm) + kc * (tm + clear) + (h.kb[0] + h.kb[1] + h.kb[2]) / h.L)); uint64_t hh = 0; for (auto &q : h.P) hh = sim::hash_bytes(q.p, 24, hh); sim::state(hh); sim::mix(hh); }
  sim::nontrivial(); }
// ---- a slightly disturbed hair finds back to the shape its roots give it
void settles() {
  gen::Rng g = gen::rng(); Hush hush; Hair h = make(g); A3<double> ax = dir(g); double th = g.r(-2, 2); size_t k0 = sim::choose((uint32_t) h.root.size() - 1); VV G = h.P, GS = h.S; // goal: every hair carried with its root
  for (size_t k = 0; k + 1 < h.root.size(); ++k) { A3<double> c = a3(h.P0[h.root[k]]), sh = mul(k == k0 ? h.L * g.r(0, .5) : 0., dir(g)); double t = k == k0 ? th : 0; for (unsigned i = h.root[k]; i < h.root[k + 1]; ++i) { G[i] = cv(c + spin(ax, t, a3(h.P0[i]) - c) + sh); if (i + 1 < h.root[k + 1]) GS[i] = cv(spin(ax, t, a3(h.S0[i]))); } }
  h.P = G; h.S = GS; double amp = std::pow(10., g.r(-4, -1.7)); perturb(h, g, amp); if (!near_frames(h)) return; orthogonal(h); int kind = (int) sim::choose(3); auto s = solver(h, kind); double W0, W; VD r; Dense K; if (!h.eval(W0, r, K)) return; { Dense B = K; VD t = r; fix(B, t, h.bc); for (size_t i = 0; i < B.n; ++i) if (B(i, i) == 0) B(i, i) = 1; if (!(definite(B) > 1e-3)) return; }
  double mdtt = std::min(h.ks, std::min(h.kb[0], std::min(h.kb[1], h.kb[2])) / (h.L * h.L)) * std::pow(10., g.r(-7, -4)); int n = 0, lim = 300; W = W0; for (; n < lim; ++n) { if (n < 3 && sim::chance(1, 4)) { perturb(h, g, amp * .1); orthogonal(h); sim::fault("perturbation"); if (!h.eval(W, r, K)) return; W0 = std::max(W0, W); } if (s->kind == SPARSE) { s->sp.dof_bcflag = h.bc; Solve_RodHair(h.P, h.S, s->sp, h.ks, h.kb, mdtt, h.P0, h.S0, h.root); } else if (s->kind == PENTA) { s->pd.dof_bcflag = h.bc; Solve_RodHair(h.P, h.S, s->pd, h.ks, h.kb, mdtt, h.P0, h.S0, h.root); } else { s->spy.dof_bcflag = h.bc; Solve_RodHair(h.P, h.S, s->spy, h.ks, h.kb, mdtt, h.P0, h.S0, h.root); } sim::vtime(1000); if (!h.eval(W, r, K)) { sim::violation("does-not-settle", "step %d tore a hair disturbed by %.3g of its edge length apart", n, amp); return; } if (n >= 3 && W < 1e-8 * W0 + 1e-22) break; }
  sim::logf("steps %d W0 %.6g W %.6g", n, W0, W); if (n == lim) sim::violation("does-not-settle", "after %d steps the energy of a hair disturbed by %.3g of its edge length is %.9g, it was %.9g", n, amp, W, W0);
  double worst = 0; for (size_t i = 0; i < h.np(); ++i) worst = std::max(worst, (h.P[i] - G[i]).norm()); if (!(worst <= 2e-3 * h.L)) sim::violation("settles-elsewhere", "the hair is at rest %.9g away from where its root puts it (edge length %.9g)", worst, h.L); sim::nontrivial(); sim::mix(n); sim::state(sim::hash_u64(n, 3)); }
// ---- dragged polylines
template <class F> void rod2() {
  gen::Rng g = gen::rng(); Hush hush; LinearSystemSolver_BlockPentaDiagonal<2> sp; std::vector<std::array<F, 2>> v; double L = .05, bend = .001; int steps = 1 + (int) sim::choose(12); double eps = sizeof(F) == 4 ? 1e-6 : 1e-9; unsigned ip = 0; bool fresh = true;
  for (int k = 0; k < steps; ++k) {
    if (fresh || sim::chance(1, 8)) { int np = (int) sim::choose(10); if (fresh && np < 3) np += 4; L = std::pow(10., g.r(-1.5, .3)); bend = L * L * std::pow(10., g.r(-3, 1)); v.resize(np); double x = g.r(-1, 1), y = g.r(-1, 1), d = g.r(-3, 3), cur = g.n(2) ? g.r(-.5, .5) : 0., st = g.n(3) ? g.r(.6, 1.5) : 1.; for (auto &p : v) { p[0] = (F) x; p[1] = (F) y; x += st * L * std::cos(d); y += st * L * std::sin(d); d += cur; } fresh = false; if (np) ip = sim::choose(np); sim::fault("another polyline"); }
    size_t np = v.size(); if (np && sim::chance(1, 3)) ip = sim::choose((uint32_t) np); std::array<double, 2> pos = {0, 0}; if (np) { double a = sim::choose(4) ? L * std::pow(10., g.r(-3, 0)) : 0.; pos = {(double) (F) (v[ip][0] + g.r(-a, a)), (double) (F) (v[ip][1] + g.r(-a, a))}; } auto o = v; sim::vtime(16000);
    if (np < 3) { DragPolylineElastic_Rod2(v, sp, ip, pos, L, bend); if (v != o) sim::violation("update-wrong", "a polyline of %zu points has no hinge but moved", np); fresh = true; continue; }
    size_t n = np * 2; Dense A(n); VD b(n, 0.); bool ok = true; auto at = [&](size_t i, int d) { return i == ip ? pos[d] : (double) o[i][d]; }; double terms = 0;
    for (size_t i = 0; i + 2 < np && ok; ++i) { typedef D<6> T; T q[3][2], e[2][2], l[2], R[3]; for (int x = 0; x < 3; ++x) for (int d = 0; d < 2; ++d) { q[x][d] = T(at(i + x, d)); q[x][d].d[x * 2 + d] = 1; } for (int x = 0; x < 2; ++x) { for (int d = 0; d < 2; ++d) e[x][d] = q[x + 1][d] - q[x][d]; double l2 = e[x][0].v * e[x][0].v + e[x][1].v * e[x][1].v; if (!(l2 > .04 * L * L && l2 < 25 * L * L)) { ok = false; break; } l[x] = root(e[x][0] * e[x][0] + e[x][1] * e[x][1]); } if (!ok) break;
      T c = (e[0][0] * e[1][0] + e[0][1] * e[1][1]) / (l[0] * l[1]), s = (e[0][0] * e[1][1] - e[0][1] * e[1][0]) / (l[0] * l[1]); if (!(c.v > -.8)) { ok = false; break; } R[0] = l[0] - T(L); R[1] = l[1] - T(L); R[2] = s / (T(1.) + c); double w[3] = {1, 1, bend}; for (int t = 0; t < 3; ++t) for (int x = 0; x < 6; ++x) { b[i * 2 + x] -= w[t] * R[t].v * R[t].d[x]; terms += std::fabs(w[t] * R[t].v * R[t].d[x]); for (int y = 0; y < 6; ++y) A(i * 2 + x, i * 2 + y) += w[t] * R[t].d[x] * R[t].d[y]; } }
    if (!ok) { sim::probe("degenerate"); fresh = true; continue; } for (size_t i = 0; i < n; ++i) A(i, i) += 1; VI bc(n, 0); bc[ip * 2] = bc[ip * 2 + 1] = 1; fix(A, b, bc); VD x = b; if (!gauss(A, x)) continue;
    if (maybe_oom("dragged polyline", [&] { DragPolylineElastic_Rod2(v, sp, ip, pos, L, bend); })) { if (v != o) sim::violation("failed-step-acts", "the polyline changed although memory ran out"); sim::NoLib nl; if (sim::chance(1, 2)) sp = LinearSystemSolver_BlockPentaDiagonal<2>(); DragPolylineElastic_Rod2(v, sp, ip, pos, L, bend); }
    if (sim::chance(1, 5)) { sim::fault("restart"); LinearSystemSolver_BlockPentaDiagonal<2> s2; auto w = o; DragPolylineElastic_Rod2(w, s2, ip, pos, L, bend); if (w != v) sim::violation("restart-differs", "a drag with a new solver gave another polyline"); }
    double sc = norm(x) + norm(b); for (size_t i = 0; i < np; ++i) for (int d = 0; d < 2; ++d) { if (i == ip) { if (v[i][d] != (F) pos[d]) sim::violation("target-missed", "the dragged point is at %.9g, the pointer at %.9g", (double) v[i][d], pos[d]); continue; } double want = o[i][d] + x[i * 2 + d]; if (!(std::fabs(v[i][d] - want) <= 1e-6 * std::fabs(x[i * 2 + d]) + eps * (sc * A.big() + std::fabs(want)) + 1e-12 * terms)) sim::violation("step-wrong", "coordinate %d of point %zu of %zu went from %.9g to %.9g instead of %.9g", d, i, np, (double) o[i][d], (double) v[i][d], want); }
    uint64_t hh = sim::hash_bytes(v.data(), v.size() * sizeof(v[0]), 7); sim::state(hh); sim::mix(hh); sim::nontrivial(); } }
void rod2d() { rod2<double>(); } void rod2f() { rod2<float>(); }
void rod2_settles() { // the pointer holds still: the polyline comes to rest at its own edge length, straight
  gen::Rng g = gen::rng(); Hush hush; int np = 3 + (int) sim::choose(6); double L = g.r(.3, 2), bend = L * L * g.r(.1, 3), a = L * std::pow(10., g.r(-3, -.6)), d = g.r(-3, 3); unsigned ip = sim::choose(np); std::vector<std::array<double, 2>> v(np); for (int i = 0; i < np; ++i) v[i] = {L * i * std::cos(d) + g.r(-a, a), L * i * std::sin(d) + g.r(-a, a)}; std::array<double, 2> pos = {v[ip][0] + g.r(-a, a), v[ip][1] + g.r(-a, a)}; LinearSystemSolver_BlockPentaDiagonal<2> sp; double mv = 0; int k = 0, lim = 20000; for (; k < lim; ++k) { auto o = v; DragPolylineElastic_Rod2(v, sp, ip, pos, L, bend); mv = 0; for (int i = 0; i < np; ++i) for (int e = 0; e < 2; ++e) mv = std::max(mv, std::fabs(v[i][e] - o[i][e])); sim::vtime(16000); if (!(mv < 1e3)) break; if (k && mv < 1e-10 * L) break; }
  sim::logf("steps %d move %.3g", k, mv); if (!(mv < 1e-10 * L)) sim::violation("does-not-settle", "after %d steps under a resting pointer the polyline still moves by %.9g", k, mv); for (int i = 0; i + 1 < np; ++i) { double l = std::hypot(v[i + 1][0] - v[i][0], v[i + 1][1] - v[i][1]); if (!(std::fabs(l - L) < 1e-4 * L)) sim::violation("settles-elsewhere", "edge %d came to rest at the length %.9g, not %.9g", i, l, L); } sim::nontrivial(); sim::mix(k); }
void beam() {
  gen::Rng g = gen::rng(); Hush hush; PolylineElasticEdit2 b; std::vector<std::array<double, 2>> v, v0; std::vector<std::array<float, 2>> f; int sessions = 1 + (int) sim::choose(3);
  for (int q = 0; q < sessions; ++q) { int np = 2 + (int) sim::choose(10); double s = std::pow(10., g.r(-.7, .7)), d = g.r(-3, 3), x = g.r(-3, 3), y = g.r(-3, 3); v.resize(np); for (auto &p : v) { p = {x, y}; double l = s * g.r(.3, 1.5); x += l * std::cos(d); y += l * std::sin(d); d += g.r(-1.2, 1.2); } v0 = v; unsigned ip = sim::choose(np); double X = sim::choose(2) ? v[ip][0] : g.r(-3, 3), Y = sim::choose(2) ? v[ip][1] : g.r(-3, 3); double EI = 30, AE = 100000; if (sim::chance(1, 3)) { EI = b.EI = g.r(1, 100); AE = b.AE = g.r(100, 1e5); } else { b.EI = 30; b.AE = 1e5; }
    if (maybe_oom("beam setup", [&] { b.Initialize(v, ip, X, Y); })) { sim::NoLib nl; b.Initialize(v, ip, X, Y); } bool single = sim::chance(1, 4); size_t n = np * 3; Dense K(n); VI bc(n, 0); bc[0] = bc[1] = bc[2] = bc[ip * 3] = bc[ip * 3 + 1] = 1;
    for (int i = 0; i + 1 < np; ++i) { double e[2] = {v0[i + 1][0] - v0[i][0], v0[i + 1][1] - v0[i][1]}, l = std::hypot(e[0], e[1]), c = e[0] / l, t = e[1] / l, B[2][6] = {{-c, -t, 0, c, t, 0}, {}}; // B: stretch; bending from the chord rotation and the end rotations
      for (int a = 0; a < 6; ++a) for (int z = 0; z < 6; ++z) K(i * 3 + a, i * 3 + z) += AE / l * B[0][a] * B[0][z]; double w[6] = {t / l, -c / l, 0, -t / l, c / l, 0}, r1[6], r2[6]; for (int a = 0; a < 6; ++a) { r1[a] = (a == 2) - w[a]; r2[a] = (a == 5) - w[a]; } for (int a = 0; a < 6; ++a) for (int z = 0; z < 6; ++z) K(i * 3 + a, i * 3 + z) += EI / l * (4 * r1[a] * r1[z] + 4 * r2[a] * r2[z] + 2 * r1[a] * r2[z] + 2 * r2[a] * r1[z]); }
    double soft; { Dense F = K; VD t(n); fix(F, t, bc); soft = definite(F); if (!(soft > 0)) return; } int drags = 1 + (int) sim::choose(8); double far = 0; for (int k = 0; k < drags; ++k) { double a = s * std::pow(10., g.r(-3, 1)), px = X + g.r(-a, a), py = Y + g.r(-a, a); bool home = sim::chance(1, 5); if (home) { px = X; py = Y; } far = std::max(far, std::hypot(px - X, py - Y)); if (sim::chance(1, 6)) { v.assign(sim::choose(4), {9, 9}); sim::fault("display list replaced"); } sim::vtime(16000);
      if (single) { b.Drag(f, px, py); v.resize(f.size()); for (size_t i = 0; i < f.size(); ++i) v[i] = {f[i][0], f[i][1]}; } else if (maybe_oom("beam drag", [&] { b.Drag(v, px, py); })) { sim::NoLib nl; b.Drag(v, px, py); }
      if (v.size() != (size_t) np || b.ut.size() != n) sim::violation("update-wrong", "%zu points for %d nodes", v.size(), np); VD u = b.ut, r = K.mul(u); double big = K.big() * (maxabs(u) + far); for (size_t i = 0; i < n; ++i) { if (!std::isfinite(u[i])) sim::violation("step-wrong", "unknown %zu is not a number", i); if (bc[i]) { double want = i / 3 == ip && i % 3 < 2 ? (i % 3 ? py - Y : px - X) : 0.; if (u[i] != want) sim::violation("target-missed", "unknown %zu is %.9g, the support and the pointer make it %.9g", i, u[i], want); } else if (!(std::fabs(r[i]) <= 1e-9 * big)) sim::violation("step-wrong", "unknown %zu of %zu is out of balance by %.9g (stiffness %.3g)", i, n, r[i], K.big()); }
      for (int i = 0; i < np; ++i) for (int e = 0; e < 2; ++e) { double want = v0[i][e] + u[i * 3 + e]; if (!(std::fabs(v[i][e] - want) <= (single ? 1e-6 : 1e-14) * (1 + std::fabs(want) + std::fabs(u[i * 3 + e])))) sim::violation("update-wrong", "coordinate %d of point %d is %.9g, not %.9g", e, i, v[i][e], want); }
      if (home) { double m = 0; for (size_t i = 0; i < n; ++i) m = std::max(m, std::fabs(u[i])); if (soft > 1e-3 && !(m <= 1e-3 * (far + 1e-12) * std::max(1., 1 / s))) sim::violation("history-leaks", "dragged back to the start the polyline is off by %.9g after travelling %.9g", m, far); sim::probe("dragged home"); }
      uint64_t hh = sim::hash_bytes(v.data(), v.size() * 16, 5); sim::state(hh); sim::mix(hh); }
    }
  sim::nontrivial(); }
const sim::Scenario S06[] = {{"hair", 5, hair}, {"contact", 4, contact}, {"settles", 1, settles}, {"polyline", 3, rod2d}, {"polyline, single precision", 1, rod2f}, {"polyline settles", 1, rod2_settles}, {"beam", 4, beam}};
}
SIM_MAIN(SIM_TABLE("S06", S06))
