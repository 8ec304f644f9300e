// H06: posing a skeleton. The simulator owns the history: it seeks through a motion in any order, edits, bakes, re-initialises
// and drags bones in between, stops and restores the session and lets memory run out. After every operation bones and skin are
// compared with an own forward kinematics of the pose the history has led to.
#include "geomgen.h"
#include "seams.h"
#include <array>
#include <new>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <functional>
#include "delfem2/rig_geo3.h"
#include "delfem2/rig_bvh.h"
#include "delfem2/rigopt.h"
#include "delfem2/gizmo_geo3.h"
using namespace delfem2;
namespace {
typedef std::vector<double> VD; typedef std::vector<unsigned> VU; using gen::V3; typedef std::vector<CRigBone> VB;
struct Null : std::streambuf { int overflow(int c) override { return c; } };
struct Hush { static Null n; std::streambuf *o; Hush() : o(std::cout.rdbuf(&n)) {} ~Hush() { std::cout.rdbuf(o); } }; Null Hush::n;
template <class F> bool maybe_oom(const char *what, F f) {   // true: memory ran out and was reported
  int k = sim::chance(1, 4) ? 1 + (int) sim::choose(8) : 0; bool threw = false, hit = false;
  { sim::Lib l; if (k) sim::alloc_fail_at(k); try { f(); } catch (std::bad_alloc &) { threw = true; } hit = k && sim::alloc_failed(); sim::alloc_fail_at(0); }
  if (hit) { sim::fault("allocation failure"); if (!threw) sim::violation("lost-error", "%s swallowed a failed allocation", what); }
  return threw; }
// ---- own kinematics
struct M3 { double m[9]; };
M3 one() { return {{1, 0, 0, 0, 1, 0, 0, 0, 1}}; }
M3 mul(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i * 3 + j] = 0; for (int k = 0; k < 3; ++k) r.m[i * 3 + j] += a.m[i * 3 + k] * b.m[k * 3 + j]; } return r; }
V3 mul(const M3 &a, const V3 &v) { V3 r; for (int i = 0; i < 3; ++i) r[i] = a.m[i * 3] * v[0] + a.m[i * 3 + 1] * v[1] + a.m[i * 3 + 2] * v[2]; return r; }
M3 about(int ax, double a) { double c = std::cos(a), s = std::sin(a); M3 r = one(); int i = (ax + 1) % 3, j = (ax + 2) % 3; r.m[i * 4] = r.m[j * 4] = c; r.m[i * 3 + j] = -s; r.m[j * 3 + i] = s; return r; }
M3 of_quat(const double q[4]) { double x = q[0], y = q[1], z = q[2], w = q[3]; return {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}}; }
struct Af { M3 r; V3 t; };   // x -> r x + t
Af mul(const Af &a, const Af &b) { Af c; c.r = mul(a.r, b.r); c.t = gen::add(mul(a.r, b.t), a.t); return c; }
V3 mul(const Af &a, const V3 &v) { return gen::add(mul(a.r, v), a.t); }
Af of_mat(const double *m) { Af a; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) a.r.m[i * 3 + j] = m[i * 4 + j]; a.t[i] = m[i * 4 + 3]; } return a; }
struct Joint { int par = -1; V3 t{0, 0, 0}; M3 r = one(); double s = 1; Af bind{one(), {0, 0, 0}}, at{one(), {0, 0, 0}}; };
typedef std::vector<Joint> Skel;
Af local(const Joint &j) { Af a; a.r = j.r; for (double &x : a.r.m) x *= j.s; a.t = j.t; return a; }
void update(Skel &k) { for (auto &j : k) { j.at = local(j); if (j.par >= 0) j.at = mul(k[j.par].at, local(j)); } }
double far(const Skel &k) { double m = 1; for (auto &j : k) { double s = 0; for (double x : j.at.r.m) s = std::max(s, std::fabs(x)); for (int d = 0; d < 3; ++d) m = std::max(m, std::max(std::fabs(j.at.t[d]), std::max(std::fabs(j.t[d]), std::fabs(j.bind.t[d]) * std::max(1., s)))); } return m; }
// does the skeleton look like the model? then the model takes over what was read, so errors do not add up
void judge(const char *what, const VB &b, Skel &k) {
  if (b.size() != k.size()) sim::violation("bones-differ", "%s: %zu bones, not %zu", what, b.size(), k.size()); double L = far(k), tol = 1e-11;
  for (size_t i = 0; i < k.size(); ++i) { const CRigBone &x = b[i]; Joint &j = k[i]; if (x.ibone_parent != j.par) sim::violation("bones-differ", "%s: bone %zu hangs on %d, not %d", what, i, x.ibone_parent, j.par);
    double n = 0; for (double q : x.quatRelativeRot) n += q * q; if (!(std::fabs(n - 1) < 1e-9)) sim::violation("pose-wrong", "%s: the rotation of bone %zu is a quaternion of squared length %.17g", what, i, n);
    M3 q = of_quat(x.quatRelativeRot); for (int d = 0; d < 9; ++d) if (!(std::fabs(q.m[d] - j.r.m[d]) <= 1e-10)) sim::violation("pose-wrong", "%s: the rotation of bone %zu against its parent has %.12g at %d, not %.12g", what, i, q.m[d], d, j.r.m[d]);
    for (int d = 0; d < 3; ++d) if (!(std::fabs(x.transRelative[d] - j.t[d]) <= tol * L)) sim::violation("pose-wrong", "%s: bone %zu is moved against its parent by %.12g along %d, not %.12g", what, i, x.transRelative[d], d, j.t[d]);
    if (x.scale != j.s) sim::violation("pose-wrong", "%s: bone %zu is scaled by %.12g, not %.12g", what, i, x.scale, j.s);
    for (int m = 0; m < 2; ++m) { Af a = of_mat(m ? x.affmat3Global : x.invBindMat); const Af &w = m ? j.at : j.bind; double z = 1; for (double v : w.r.m) z = std::max(z, std::fabs(v)); for (int d = 0; d < 9; ++d) if (!(std::fabs(a.r.m[d] - w.r.m[d]) <= 1e-10 * z)) sim::violation(m ? "bone-misplaced" : "binding-wrong", "%s: the %s of bone %zu turns by %.12g at %d, not %.12g", what, m ? "affine map" : "binding", i, a.r.m[d], d, w.r.m[d]);
      for (int d = 0; d < 3; ++d) if (!(std::fabs(a.t[d] - w.t[d]) <= tol * 10 * L)) sim::violation(m ? "bone-misplaced" : "binding-wrong", "%s: the %s of bone %zu moves by %.12g along %d, not %.12g", what, m ? "affine map" : "binding", i, a.t[d], d, w.t[d]);
      const double *l = (m ? x.affmat3Global : x.invBindMat) + 12; if (l[0] != 0 || l[1] != 0 || l[2] != 0 || l[3] != 1) sim::violation("bone-misplaced", "%s: the last row of bone %zu is %g %g %g %g", what, i, l[0], l[1], l[2], l[3]); }
    j.r = q; for (int d = 0; d < 3; ++d) j.t[d] = x.transRelative[d]; j.bind = of_mat(x.invBindMat); j.at = of_mat(x.affmat3Global);
    auto p = x.RootPosition(); for (int d = 0; d < 3; ++d) if (p[d] != x.affmat3Global[d * 4 + 3]) sim::violation("bone-misplaced", "%s: joint %zu is not where its map puts the origin", what, i); } }
bool identical(const VB &a, const VB &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].ibone_parent != b[i].ibone_parent || std::memcmp(a[i].quatRelativeRot, b[i].quatRelativeRot, 32) || std::memcmp(a[i].transRelative, b[i].transRelative, 24) || a[i].scale != b[i].scale || std::memcmp(a[i].invBindMat, b[i].invBindMat, 128) || std::memcmp(a[i].affmat3Global, b[i].affmat3Global, 128)) return false; return true; }
// ---- a motion in a file of the format
struct Chan { int bone, ax; bool rot; };
struct Motion { Skel rest; std::vector<Chan> ch; std::vector<VD> frame; std::string text; };
double word(std::ostream &o, double v) { char b[40]; std::snprintf(b, sizeof b, "%.6g", v); o << b; return std::strtod(b, nullptr); }
int joints(Motion &m, std::ostream &o, gen::Rng &g, int par, int depth, int &left) {
  int me = (int) m.rest.size(); m.rest.emplace_back(); Joint j; j.par = par; bool end = par >= 0 && (depth > 5 || g.n(5) == 0); std::string in((size_t) depth, g.n(2) ? ' ' : '\t');
  if (par < 0) o << "ROOT hip\n"; else if (end) o << in << "End Site\n"; else o << in << "JOINT j" << me << "\n"; o << in << "{\n" << in << " OFFSET"; V3 t; for (int d = 0; d < 3; ++d) { o << ' '; t[d] = word(o, par < 0 && g.n(4) ? 0. : g.r(-2, 2)); } o << "\n";
  for (int d = 0; d < 3; ++d) { j.t[d] = par < 0 ? 0. : t[d]; j.bind.t[d] = (par < 0 ? 0. : m.rest[par].bind.t[d]) - t[d]; j.at.t[d] = -j.bind.t[d]; } m.rest[me] = j;
  if (!end) { std::vector<Chan> c; bool pos = par < 0 ? g.n(8) != 0 : g.n(5) == 0; for (int r = 0; r < 2; ++r) if (r || pos) for (int d = 0; d < 3; ++d) if (g.n(8)) c.push_back({me, d, r == 1}); for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[g.n((uint32_t) i)]); if (g.n(6) == 0) c.push_back({me, (int) g.n(3), true});
    o << in << " CHANNELS " << c.size(); for (auto &x : c) { o << ' ' << "XYZ"[x.ax] << (x.rot ? "rotation" : "position"); m.ch.push_back(x); } o << "\n";
    int kids = par < 0 ? 1 + (int) g.n(3) : 1 + (g.n(3) == 0); for (int k = 0; k < kids && left > 0; ++k) { --left; joints(m, o, g, me, depth + 1, left); } }
  o << in << "}\n"; return me; }
Motion motion(gen::Rng &g) { Motion m; std::ostringstream o; o << "HIERARCHY\n"; int left = 1 + (int) g.n(9); joints(m, o, g, -1, 0, left); int nf = (int) g.n(5); o << "MOTION\nFrames: " << nf << "\nFrame Time: 0.0333\n"; for (int f = 0; f < nf; ++f) { VD v; for (auto &c : m.ch) { v.push_back(word(o, g.n(9) ? (c.rot ? g.r(-400, 400) : g.r(-3, 3)) : 0.)); o << ' '; } o << "\n"; m.frame.push_back(v); } m.text = o.str(); return m; }
void pose(Skel &k, const Motion &m, const VD &v) { for (auto &j : k) j.r = one(); for (size_t i = 0; i < m.ch.size(); ++i) { auto &c = m.ch[i]; if (c.rot) k[c.bone].r = mul(k[c.bone].r, about(c.ax, v[i] * M_PI / 180)); else k[c.bone].t[c.ax] = v[i]; } update(k); }
// ---- skin
struct Skin { VD x, w; size_t np = 0; };
Skin skin_of(gen::Rng &g, const Skel &k) { Skin s; s.np = 1 + g.n(8); size_t nb = k.size(); s.x.resize(s.np * 3); for (double &v : s.x) v = g.r(-4, 4); s.w.assign(s.np * nb, 0.); for (size_t i = 0; i < s.np; ++i) { int n = 1 + (int) g.n(4); double sum = 0; for (int c = 0; c < n; ++c) s.w[i * nb + g.n((uint32_t) nb)] += g.r(.1, 1); for (size_t b = 0; b < nb; ++b) sum += s.w[i * nb + b]; for (size_t b = 0; b < nb; ++b) s.w[i * nb + b] /= sum; } return s; }
VD deform(const Skin &s, const Skel &k, double drop = 0) { VD r(s.np * 3, 0.); for (size_t i = 0; i < s.np; ++i) for (size_t b = 0; b < k.size(); ++b) { double w = s.w[i * k.size() + b]; if (w < drop) continue; V3 p = mul(k[b].at, mul(k[b].bind, gen::at(s.x, (unsigned) i))); for (int d = 0; d < 3; ++d) r[i * 3 + d] += w * p[d]; } return r; }
void near(const char *what, const VD &got, const VD &want, double L) { if (got.size() != want.size()) sim::violation("skin-wrong", "%s: %zu coordinates, not %zu", what, got.size(), want.size()); for (size_t i = 0; i < want.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= 1e-10 * L)) sim::violation("skin-wrong", "%s: coordinate %zu is %.12g, not %.12g", what, i, got[i], want[i]); }
double size(const Skin &s, const Skel &k) { double m = far(k), z = 1; for (auto &j : k) for (double x : j.at.r.m) z = std::max(z, std::fabs(x)); return m + z * 10; }
VD dirty(gen::Rng &g) { VD v(g.n(40)); for (double &x : v) x = 777; return v; }
void skinning(gen::Rng &g, const VB &b, const Skel &k, Skin &s) {
  if (s.w.size() != s.np * k.size()) s = skin_of(g, k); double L = size(s, k); VD want = deform(s, k), out = dirty(g); const VB b0 = b; size_t nb = k.size();
  switch (sim::choose(4)) {
    case 0: if (maybe_oom("skinning", [&] { Skinning_LBS(out, s.x, b, s.w); })) { sim::NoLib n; Skinning_LBS(out, s.x, b, s.w); } near("skin", out, want, L); break;
    case 1: { VD sw = dirty(g); VU si((size_t) g.n(30), 9u); double thr = sim::chance(1, 3) ? g.r(.05, .3) : 1e-8; for (double w : s.w) if (std::fabs(w - thr) < 1e-9) thr = 1e-8; auto go = [&] { SparsifyMatrixRow(sw, si, s.w.data(), (unsigned) s.np, (unsigned) nb, thr); SkinningSparse_LBS(out, s.x, b, sw, si); }; if (maybe_oom("sparse skinning", go)) { sim::NoLib n; go(); }
      size_t most = 0; for (size_t i = 0; i < s.np; ++i) { size_t c = 0; for (size_t x = 0; x < nb; ++x) c += s.w[i * nb + x] >= thr; most = std::max(most, c); } if (sw.size() != most * s.np || si.size() != sw.size()) sim::violation("skin-wrong", "%zu weights for %zu points of at most %zu bones", sw.size(), s.np, most); near("sparse skin", out, deform(s, k, thr), L);
      VD P = dirty(g), Q((size_t) nb * 3, 0.); if (most) { // rows of the sparse matrix: positions as weighted means
        if (nb) { VD X(nb * 3); for (double &v : X) v = g.r(-3, 3); Points3_WeightsparsePosition(P, (unsigned) s.np, sw, si, X); VD W(s.np * 3, 0.); for (size_t i = 0; i < s.np; ++i) for (size_t x = 0; x < nb; ++x) if (s.w[i * nb + x] >= thr) for (int d = 0; d < 3; ++d) W[i * 3 + d] += s.w[i * nb + x] * X[x * 3 + d]; near("weighted positions", P, W, 10); VD T = dirty(g), B = dirty(g); Points3_WeighttranspPosition(B, s.w, s.x); for (size_t x = 0; x < nb; ++x) for (size_t i = 0; i < s.np; ++i) for (int d = 0; d < 3; ++d) Q[x * 3 + d] += s.w[i * nb + x] * s.x[i * 3 + d]; near("positions by columns", B, Q, 100);
          Transpose_Mat(T, s.w, (unsigned) s.np, (unsigned) nb); for (size_t i = 0; i < s.np; ++i) for (size_t x = 0; x < nb; ++x) if (T.size() != s.w.size() || T[x * s.np + i] != s.w[i * nb + x]) sim::violation("skin-wrong", "transposed weights differ"); } } break; }
    case 2: { VD w4(s.np * 4); VU j4(s.np * 4); VD r(s.np * 3, 0.), o(s.np * 3, 555.); for (size_t i = 0; i < s.np; ++i) { double sum = 0; for (int c = 0; c < 4; ++c) { w4[i * 4 + c] = c && g.n(3) == 0 ? 0. : g.r(.05, 2); j4[i * 4 + c] = w4[i * 4 + c] == 0 && g.n(2) ? 0u : g.n((uint32_t) nb); sum += w4[i * 4 + c]; } for (int c = 0; c < 4; ++c) { V3 p = mul(k[j4[i * 4 + c]].at, mul(k[j4[i * 4 + c]].bind, gen::at(s.x, (unsigned) i))); for (int d = 0; d < 3; ++d) r[i * 3 + d] += w4[i * 4 + c] / sum * p[d]; } }
      bool place = sim::chance(1, 3); VD x = s.x; { sim::Lib l; Skinning_LBS_LocalWeight(place ? x.data() : o.data(), place ? x.data() : s.x.data(), s.np, b, w4.data(), j4.data()); } near(place ? "skin in place" : "skin of four bones", place ? x : o, r, L); break; }
    default: { VD ref = dirty(g); if (maybe_oom("reference positions", [&] { Rig_SkinReferncePositionsBoneWeighted(ref, b, s.x, s.w); })) { sim::NoLib n; Rig_SkinReferncePositionsBoneWeighted(ref, b, s.x, s.w); } if (ref.size() != s.np * nb * 4) sim::violation("skin-wrong", "%zu reference coordinates", ref.size()); VD r(s.np * 3, 0.); for (size_t i = 0; i < s.np; ++i) for (size_t x = 0; x < nb; ++x) for (int d = 0; d < 3; ++d) for (int c = 0; c < 4; ++c) r[i * 3 + d] += b[x].affmat3Global[d * 4 + c] * ref[(i * nb + x) * 4 + c]; near("skin by reference positions", r, want, L); } }
  if (!identical(b, b0)) sim::violation("pose-wrong", "looking at the skin changed the bones"); }
// ---- inverse kinematics: one Gauss-Newton step
Af slope(const Skel &k, size_t b, size_t ib, int d, bool rot) { // derivative of the map of bone b for a turn (or shift) of bone ib about (along) axis d, in the frame of the parent of ib
  bool up = false; for (int i = (int) b; i >= 0; i = k[i].par) if (i == (int) ib) up = true; Af z{{{0}}, {0, 0, 0}}; if (!up) return z; Af c = local(k[ib]); Af s = z; if (rot) { M3 S{{0}}; int i = (d + 1) % 3, j = (d + 2) % 3; S.m[i * 3 + j] = -1; S.m[j * 3 + i] = 1; s.r = mul(S, c.r); } else s.t[d] = 1;
  if (k[ib].par >= 0) { const Af &p = k[k[ib].par].at; s.r = mul(p.r, s.r); s.t = mul(p.r, s.t); } std::vector<int> chain; for (int i = (int) b; i != (int) ib; i = k[i].par) chain.push_back(i); for (size_t i = chain.size(); i-- > 0;) { Af l = local(k[chain[i]]); Af n; n.r = mul(s.r, l.r); n.t = gen::add(mul(s.r, l.t), s.t); s = n; } return s; }
void sensitivity(gen::Rng &g, const VB &b, const Skel &k) { size_t nb = k.size(), ns = (nb + 1) * 3; VD L = dirty(g); if (maybe_oom("sensitivity", [&] { Rig_Sensitivity_Skeleton(L, b); })) { sim::NoLib n; Rig_Sensitivity_Skeleton(L, b); } if (L.size() != ns * nb * 12) sim::violation("slope-wrong", "%zu sensitivities for %zu bones", L.size(), nb); double sz = far(k) * 10;
  for (size_t q = 0; q < ns; ++q) for (size_t x = 0; x < nb; ++x) { Af s = slope(k, x, q < nb * 3 ? q / 3 : 0, (int) (q % 3), q < nb * 3); for (int r = 0; r < 3; ++r) for (int c = 0; c < 4; ++c) { double w = c < 3 ? s.r.m[r * 3 + c] : s.t[r], v = L[(q * nb + x) * 12 + r * 4 + c]; if (!(std::fabs(v - w) <= 1e-9 * sz)) sim::violation("slope-wrong", "the map of bone %zu changes at (%d,%d) by %.12g with %s %zu of bone %zu, not by %.12g", x, r, c, v, q < nb * 3 ? "rotation" : "shift", q % 3, q < nb * 3 ? q / 3 : (size_t) 0, w); } }
  size_t np = 1 + g.n(3); VD sw(np * 2), P(np * 3), dP = dirty(g); VU si(np * 2); for (size_t i = 0; i < np * 2; ++i) { sw[i] = g.r(0, 1); si[i] = g.n((uint32_t) nb); } for (double &v : P) v = g.r(-3, 3);
  for (unsigned i = 0; i < np; ++i) { Sensitivity_RigSkinPoint(dP, i, &P[i * 3], b, L, 2, sw, si); if (dP.size() != ns * 3) sim::violation("slope-wrong", "%zu skin sensitivities", dP.size()); for (size_t q = 0; q < ns; ++q) for (int d = 0; d < 3; ++d) { double w = 0; for (int c = 0; c < 2; ++c) { Af s = slope(k, si[i * 2 + c], q < nb * 3 ? q / 3 : 0, (int) (q % 3), q < nb * 3); w += sw[i * 2 + c] * mul(s, mul(k[si[i * 2 + c]].bind, gen::at(P, i)))[d]; } if (!(std::fabs(dP[d * ns + q] - w) <= 1e-9 * sz * 10)) sim::violation("slope-wrong", "a point of the skin moves by %.12g along %d with parameter %zu, not by %.12g", dP[d * ns + q], d, q, w); } } }
void drag(gen::Rng &g, VB &b, Skel &k) { size_t nb = k.size(), ns = (nb + 1) * 3; std::vector<CTarget> T(1 + g.n(3)); double reach = std::pow(10., g.r(-4, .5)); for (auto &t : T) { t.ib = g.n((uint32_t) nb); for (int d = 0; d < 3; ++d) t.pos.p[d] = k[t.ib].at.t[d] + g.r(-reach, reach); }
  VD C, J; for (auto &t : T) for (int d = 0; d < 2; ++d) { C.push_back(t.pos.p[d] - k[t.ib].at.t[d]); for (size_t q = 0; q < ns; ++q) J.push_back(-slope(k, t.ib, q < nb * 3 ? q / 3 : 0, (int) (q % 3), q < nb * 3).t[d]); }
  VB o = b; if (maybe_oom("inverse kinematics", [&] { Solve_MinRigging(b, T); })) { if (!identical(o, b)) sim::violation("failed-step-acts", "bones moved although memory ran out"); sim::NoLib n; Solve_MinRigging(b, T); }
  VD u(ns, 0.); double big = 0; for (size_t i = 0; i < nb; ++i) { double *p = o[i].quatRelativeRot, *q = b[i].quatRelativeRot, w = q[3] * p[3] + q[0] * p[0] + q[1] * p[1] + q[2] * p[2]; V3 a = {p[0], p[1], p[2]}, c = {q[0], q[1], q[2]}, x = gen::cross(c, a), v; for (int d = 0; d < 3; ++d) v[d] = p[3] * c[d] - q[3] * a[d] - x[d]; double s = gen::norm(v), ang = 2 * std::atan2(s, w); for (int d = 0; d < 3; ++d) u[i * 3 + d] = s > 0 ? -ang * v[d] / s : 0; big = std::max(big, std::fabs(ang)); }
  for (int d = 0; d < 3; ++d) u[nb * 3 + d] = o[0].transRelative[d] - b[0].transRelative[d]; VD r(ns, 0.), r0(ns, 0.); double n0 = 0, n1 = 0, jn = 0; for (size_t c = 0; c < C.size(); ++c) { double e = C[c], row = 0; for (size_t q = 0; q < ns; ++q) { e -= J[c * ns + q] * u[q]; row += J[c * ns + q] * J[c * ns + q]; } jn += row; for (size_t q = 0; q < ns; ++q) { r[q] += J[c * ns + q] * e; r0[q] += J[c * ns + q] * C[c]; } } for (size_t q = 0; q < ns; ++q) { n0 += r0[q] * r0[q]; n1 += r[q] * r[q]; }
  { VD z(ns, 0.), rr = r0, pp = r0; double a = n0; for (int it = 0; it < 60 && a > 1e-24 * n0; ++it) { VD y(ns, 0.); for (size_t c = 0; c < C.size(); ++c) { double e = 0; for (size_t q = 0; q < ns; ++q) e += J[c * ns + q] * pp[q]; for (size_t q = 0; q < ns; ++q) y[q] += J[c * ns + q] * e; } double d = 0; for (size_t q = 0; q < ns; ++q) d += pp[q] * y[q]; if (!(d > 0)) break; double l = a / d, b2 = 0; for (size_t q = 0; q < ns; ++q) { z[q] += l * pp[q]; rr[q] -= l * y[q]; b2 += rr[q] * rr[q]; } for (size_t q = 0; q < ns; ++q) pp[q] = rr[q] + b2 / a * pp[q]; a = b2; for (size_t i = 0; i < nb; ++i) big = std::max(big, std::sqrt(z[i * 3] * z[i * 3] + z[i * 3 + 1] * z[i * 3 + 1] + z[i * 3 + 2] * z[i * 3 + 2])); } } // a turn of more than half a circle cannot be read off the pose
  double un = 0; for (double x : u) un += x * x; un = std::sqrt(un); if (big < 2.5) { if (!(std::sqrt(n1) <= 1.05e-3 * std::sqrt(n0) + 1e-9 * jn * un + 1e-12)) sim::violation("step-wrong", "the step of the inverse kinematics leaves %.6g of the gradient %.6g", std::sqrt(n1), std::sqrt(n0)); } else sim::probe("turned too far to tell");
  for (size_t i = 0; i < nb; ++i) { k[i].r = of_quat(b[i].quatRelativeRot); for (int d = 0; d < 3; ++d) { if (i && b[i].transRelative[d] != o[i].transRelative[d]) sim::violation("pose-wrong", "inverse kinematics moved bone %zu off its parent", i); k[i].t[d] = b[i].transRelative[d]; } } update(k); }
VU tree(gen::Rng &g, size_t n) { VU p(n, UINT_MAX); for (size_t i = 1; i < n; ++i) p[i] = g.n(6) ? g.n((uint32_t) i) : UINT_MAX; return p; }
Skel joints_at(const VU &par, const VD &x) { Skel k(par.size()); for (size_t i = 0; i < par.size(); ++i) { k[i].par = (int) par[i]; V3 p = gen::at(x, (unsigned) i); k[i].t = par[i] == UINT_MAX ? p : gen::sub(p, gen::at(x, par[i])); for (int d = 0; d < 3; ++d) k[i].bind.t[d] = -p[d]; } update(k); return k; }
// an edit of one bone by hand; seen by the others only after the next update
void edit(gen::Rng &g, VB &b, Skel &k) { size_t i = g.n((uint32_t) k.size()); switch (sim::choose(4)) { case 0: { double x = g.r(-4, 4), y = g.r(-4, 4), z = g.r(-4, 4); b[i].SetRotationBryant(x, y, z); k[i].r = mul(about(2, z), mul(about(1, y), about(0, x))); break; }
    case 1: { double x = g.r(-3, 3), y = g.r(-3, 3), z = g.r(-3, 3); b[i].SetTranslation(x, y, z); k[i].t = {x, y, z}; break; } case 2: b[i].scale = k[i].s = g.n(3) ? g.r(.5, 2) : 1.; break;
    default: { double q[4], n = 0; for (double &x : q) { x = g.r(-1, 1); n += x * x; } n = std::sqrt(n); for (int d = 0; d < 4; ++d) b[i].quatRelativeRot[d] = n > .1 ? q[d] / n : (d == 3); k[i].r = of_quat(b[i].quatRelativeRot); } } }
void rotations_as_default(gen::Rng &g, VB &b, Skel &k, Skin &s) { // the pose becomes the one without rotations; no bone and no point of the skin moves
  if (s.w.size() != s.np * k.size()) s = skin_of(g, k); UpdateBoneRotTrans(b); update(k); judge("update", b, k); VD before = deform(s, k); double L = size(s, k); VB o = b; Skel k0 = k;
  if (maybe_oom("baking", [&] { SetCurrentBoneRotationAsDefault(b); })) { if (!identical(o, b)) sim::violation("failed-step-acts", "bones changed although memory ran out"); sim::NoLib n; SetCurrentBoneRotationAsDefault(b); }
  std::vector<M3> R(k.size()); for (size_t i = 0; i < k.size(); ++i) { M3 up = k[i].par < 0 ? one() : R[k[i].par]; R[i] = mul(up, k[i].r); k[i].t = mul(up, k[i].t); k[i].bind.r = mul(R[i], k0[i].bind.r); k[i].bind.t = mul(R[i], k0[i].bind.t); } for (auto &j : k) j.r = one(); update(k); judge("baking", b, k); near("skin after baking", deform(s, k), before, L);
  for (size_t i = 0; i < k.size(); ++i) if (!(gen::norm(gen::sub(k[i].at.t, k0[i].at.t)) <= 1e-10 * L)) sim::violation("bone-misplaced", "baking the pose moved joint %zu", i); }
uint64_t print(const VB &b) { uint64_t h = 3; for (auto &x : b) { h = sim::hash_bytes(x.affmat3Global, 128, h); h = sim::hash_bytes(x.invBindMat, 128, h); } return h; }
void session(bool file) {
  gen::Rng g = gen::rng(); Hush hush; sim::disk::reset(); BioVisionHierarchy own; VB loose; Skel k; Motion m; Skin s; VU par; VD jnt;
  if (file) { m = motion(g); sim::disk::put("/sim/a.bvh", m.text); { sim::NoLib n; own.Open("/sim/a.bvh"); } k = m.rest; if (own.channels.size() != m.ch.size() || own.nframe != m.frame.size()) sim::violation("bones-differ", "%zu channels and %zu frames, not %zu and %zu", own.channels.size(), (size_t) own.nframe, m.ch.size(), m.frame.size()); }
  auto init = [&] { size_t n = 1 + g.n(10); par = tree(g, n); jnt.resize(n * 3); for (double &x : jnt) x = g.r(-3, 3); };
  if (!file) { init(); auto go = [&] { InitBones_JointPosition(loose, (unsigned) par.size(), par.data(), jnt.data()); }; sim::NoLib n; go(); k = joints_at(par, jnt); }
  VB &b = file ? own.bones : loose; judge("start", b, k); s = skin_of(g, k); near("skin at rest", deform(s, k), s.x, size(s, k)); int ops = 3 + (int) sim::choose(12); bool stale = file && gen::norm(m.rest[0].bind.t) > 0; bool rest = true;
  for (int q = 0; q < ops; ++q) {
    switch (sim::choose(12)) {
      case 0: case 1: if (file) { bool clear = sim::chance(1, 4); unsigned f = sim::choose((uint32_t) m.frame.size() + 2); VB o = b; if (clear) { if (maybe_oom("ClearPose", [&] { own.ClearPose(); })) { if (!identical(o, b)) sim::violation("failed-step-acts", "the pose changed although memory ran out"); break; } pose(k, m, VD(m.ch.size(), 0.)); } else { own.SetFrame(f); if (f >= m.frame.size()) { sim::fault("seek past the end"); if (!identical(o, b)) sim::violation("pose-wrong", "a frame that does not exist changed the pose"); break; } pose(k, m, m.frame[f]); } stale = false; judge(clear ? "clear" : "frame", b, k); rest = false;
          if (sim::chance(1, 4)) { if (clear) own.ClearPose(); else own.SetFrame(f); VB c = b; if (!clear) { if (m.frame.size() > 1) own.SetFrame((f + 1) % (unsigned) m.frame.size()); own.SetFrame(f); if (!identical(b, c)) sim::violation("history-leaks", "frame %u looks different on the second visit", f); } judge("again", b, k); } break; }
        // fall through
      case 2: case 3: { int n = 1 + (int) sim::choose(4); for (int i = 0; i < n; ++i) edit(g, b, k); if (sim::chance(1, 4)) { judge("edit", b, k); sim::fault("pose not yet applied"); stale = true; break; } UpdateBoneRotTrans(b); update(k); stale = false; judge("edit", b, k); break; }
      case 4: { UpdateBoneRotTrans(b); update(k); stale = false; judge("update", b, k); VB c = b; UpdateBoneRotTrans(b); if (!identical(b, c)) sim::violation("pose-wrong", "a second update moved bones"); break; }
      case 5: rotations_as_default(g, b, k, s); stale = false; break;
      case 6: if (file) { if (sim::chance(1, 2)) { VB c = b; sim::fault("restart"); sim::NoLib n; b = VB(c); } break; } else { init(); auto go = [&] { InitBones_JointPosition(loose, (unsigned) par.size(), par.data(), jnt.data()); }; VB o = b; if (maybe_oom("InitBones", go)) { sim::NoLib n; if (b.size() != o.size()) sim::probe("resized"); go(); } k = joints_at(par, jnt); judge("new skeleton", b, k); s = skin_of(g, k); near("skin at rest", deform(s, k), s.x, size(s, k)); stale = false; sim::fault("skeleton replaced"); break; }
      case 11: if (file) { own.Save("/sim/b.bvh"); Hush hh; BioVisionHierarchy two("/sim/b.bvh"); Skel k2 = m.rest; judge("saved motion", two.bones, k2); if (two.nframe != m.frame.size() || two.channels.size() != m.ch.size()) sim::violation("motion-lost", "a saved motion of %zu frames and %zu channels comes back with %zu and %zu", m.frame.size(), m.ch.size(), (size_t) two.nframe, two.channels.size()); for (unsigned f = 0; f < m.frame.size(); ++f) { two.SetFrame(f); pose(k2, m, m.frame[f]); judge("frame of a saved motion", two.bones, k2); } sim::fault("restart");
          VD bb = own.MinMaxXYZ(), w = {1e300, 1e300, 1e300, -1e300, -1e300, -1e300}; for (auto &x : b) for (int d = 0; d < 3; ++d) { w[d] = std::min(w[d], x.affmat3Global[d * 4 + 3]); w[d + 3] = std::max(w[d + 3], x.affmat3Global[d * 4 + 3]); } if (bb != w) sim::violation("bounds-wrong", "the box of the joints is not the smallest one"); if (&own.GetBone(0) != &b[0]) sim::violation("bones-differ", "bone 0 is another"); } break;
      case 7: if (stale) { UpdateBoneRotTrans(b); update(k); stale = false; } { bool roots = false; for (size_t i = 1; i < k.size(); ++i) roots = roots || k[i].par < 0; (void) roots; } drag(g, b, k); judge("inverse kinematics", b, k); break;
      case 8: if (stale) { UpdateBoneRotTrans(b); update(k); stale = false; } sensitivity(g, b, k); break;
      default: skinning(g, b, k, s); }
    if (b.size() != k.size()) sim::violation("bones-differ", "%zu bones, not %zu", b.size(), k.size()); double L = far(k); if (!(L < 1e5)) break; uint64_t h = print(b); sim::state(h); sim::mix(h); }
  (void) rest; sim::nontrivial(); }
void motion_file() { session(true); } void joint_tree() { session(false); }
// a dragged bone reaches its target once the simulator leaves it alone
void reach() { gen::Rng g = gen::rng(); Hush h; size_t n = 1 + g.n(8); VU par(n, UINT_MAX); for (size_t i = 1; i < n; ++i) par[i] = g.n((uint32_t) i); VD x(n * 3); for (double &v : x) v = g.r(-1, 1); VB b; { sim::NoLib nl; InitBones_JointPosition(b, (unsigned) n, par.data(), x.data()); } Skel k = joints_at(par, x); for (int i = 0; i < 3; ++i) edit(g, b, k); UpdateBoneRotTrans(b); update(k); judge("start", b, k);
  std::vector<CTarget> T(1); T[0].ib = g.n((uint32_t) n); for (int d = 0; d < 3; ++d) T[0].pos.p[d] = k[T[0].ib].at.t[d] + g.r(-.5, .5); double e0 = 0, e = 0; auto err = [&] { return std::hypot(b[T[0].ib].affmat3Global[3] - T[0].pos.x, b[T[0].ib].affmat3Global[7] - T[0].pos.y); }; e0 = err(); int it = 0; { sim::Lib l; for (; it < 60; ++it) { Solve_MinRigging(b, T); e = err(); if (e < 1e-6) break; } } sim::logf("%d steps %.3g -> %.3g", it, e0, e);
  if (!(e < 1e-6)) sim::violation("does-not-settle", "after 60 steps the dragged bone is %.9g away from its target, it was %.9g", e, e0); for (size_t i = 0; i < n; ++i) { double q = 0; for (double v : b[i].quatRelativeRot) q += v * v; if (!(std::fabs(q - 1) < 1e-9)) sim::violation("pose-wrong", "quaternion of squared length %.17g", q); } sim::state(print(b)); sim::mix(print(b)); sim::nontrivial(); }
// the form without bones: rotations and joint positions to maps of the skin
void bare() { gen::Rng g = gen::rng(); Hush h; size_t n = 1 + g.n(9); VU par(n, UINT_MAX); std::vector<int> ip(n, -1); for (size_t i = 1; i < n; ++i) ip[i] = (int) (par[i] = g.n((uint32_t) i)); VD x(n * 3), q(n * 4), M(n * 16, 9.); for (double &v : x) v = g.r(-3, 3); int rounds = 1 + (int) sim::choose(4);
  for (int r = 0; r < rounds; ++r) { std::vector<M3> R(n); for (size_t i = 0; i < n; ++i) { double s = 0; for (int d = 0; d < 4; ++d) { q[i * 4 + d] = g.n(6) ? g.r(-1, 1) : 0.; s += q[i * 4 + d] * q[i * 4 + d]; } s = std::sqrt(s); for (int d = 0; d < 4; ++d) q[i * 4 + d] = s > .1 ? q[i * 4 + d] / s : (d == 3); R[i] = of_quat(&q[i * 4]); } V3 t = {g.r(-2, 2), g.r(-2, 2), g.r(-2, 2)};
    { sim::Lib l; SetMat4AffineBone_FromJointRelativeRotation(M, t.data(), q, ip, x); } std::vector<Af> A(n); A[0].r = R[0]; A[0].t = t; for (size_t i = 1; i < n; ++i) { V3 p = gen::at(x, (unsigned) i); Af l; l.r = R[i]; l.t = gen::sub(p, mul(R[i], p)); A[i] = mul(A[par[i]], l); }
    for (size_t i = 0; i < n; ++i) { Af a = of_mat(&M[i * 16]); for (int d = 0; d < 9; ++d) if (!(std::fabs(a.r.m[d] - A[i].r.m[d]) < 1e-11)) sim::violation("bone-misplaced", "without bones: map %zu turns by %.12g at %d, not %.12g", i, a.r.m[d], d, A[i].r.m[d]); for (int d = 0; d < 3; ++d) if (!(std::fabs(a.t[d] - A[i].t[d]) < 1e-10)) sim::violation("bone-misplaced", "without bones: map %zu moves by %.12g along %d, not %.12g", i, a.t[d], d, A[i].t[d]); }
    uint64_t hh = sim::hash_bytes(M.data(), M.size() * 8, 1); sim::state(hh); sim::mix(hh); } sim::nontrivial(); }
// ---- handles to drag a body with
template <class F> void handle() { gen::Rng g = gen::rng(); CGizmo_Affine<float> both; CGizmo_Transl<F> tr; CGizmo_Rotation<F> ro; F eps = sizeof(F) == 4 ? (F) 2e-4 : (F) 1e-9; F size = (F) g.r(.5, 2); tr.size = ro.size = size; for (int d = 0; d < 3; ++d) { tr.pos.p[d] = (F) g.r(-1, 1); ro.pos.p[d] = tr.pos.p[d]; } int ops = 2 + (int) sim::choose(10); bool held = false; int ax = -1; F src[3] = {0, 0, 0}, dir[3] = {0, 0, -1}; bool rot = false;
  auto nearest = [&](const F *s, const F *d, int a) { V3 D = {d[0], d[1], d[2]}, S = {(double) s[0] - tr.pos.p[0], (double) s[1] - tr.pos.p[1], (double) s[2] - tr.pos.p[2]}, E = {0, 0, 0}; E[a] = 1; V3 n = gen::cross(E, D); V3 m = gen::cross(D, n); return gen::dot(S, m) / gen::dot(E, m); };
  auto ray = [&](int a) { V3 e = {0, 0, 0}, v; for (;;) { for (int d = 0; d < 3; ++d) v[d] = g.r(-1, 1); double n = gen::norm(v); if (n < .2) continue; for (double &x : v) x /= n; if (std::fabs(v[a]) < .8) break; } e[a] = 1; double u = g.r(-.9, .9) * size; for (int d = 0; d < 3; ++d) { dir[d] = (F) v[d]; src[d] = (F) (tr.pos.p[d] + u * e[d] - 3 * v[d]); } };
  for (int q = 0; q < ops; ++q) { switch (sim::choose(5)) {
      case 0: { rot = sim::choose(2); if (rot) { int a = (int) sim::choose(3); double ar = g.r(-3, 3); M3 R = of_quat(std::array<double, 4>{ro.quat[0], ro.quat[1], ro.quat[2], ro.quat[3]}.data()); V3 p; for (int d = 0; d < 3; ++d) p[d] = R.m[d * 3 + (a + 1) % 3] * std::cos(ar) + R.m[d * 3 + (a + 2) % 3] * std::sin(ar); V3 v; for (int d = 0; d < 3; ++d) v[d] = R.m[d * 3 + a] + .3 * g.r(-1, 1); double n = gen::norm(v); for (int d = 0; d < 3; ++d) { dir[d] = (F) (v[d] / n); src[d] = (F) (ro.pos.p[d] + size * p[d]) - 3 * dir[d]; } ro.Pick(true, src, dir, (F) .05); if (ro.ielem_picked < 0) sim::violation("handle-missed", "a ray through ring %d picks nothing", a); ax = ro.ielem_picked; }
        else { int a = (int) sim::choose(3); ray(a); tr.Pick(true, src, dir, (F) .05); ax = tr.ielem_picked; if (ax < 0) sim::violation("handle-missed", "a ray through axis %d picks nothing", a); } held = true; break; }
      case 1: { F far[3] = {src[0], src[1], src[2]}; for (int d = 0; d < 3; ++d) far[d] += 50; F dd[3] = {1, 0, 0}; far[0] = 0; far[1] = far[2] = 60; if (rot) { ro.Pick(true, far, dd, (F) .05); ax = ro.ielem_picked; } else { tr.Pick(true, far, dd, (F) .05); ax = tr.ielem_picked; } if (ax != -1) sim::violation("handle-missed", "a ray that passes far away picks handle %d", ax); held = false; break; }
      case 2: if (rot) ro.Pick(false, src, dir, (F) .05); else tr.Pick(false, src, dir, (F) .05); ax = rot ? ro.ielem_picked : tr.ielem_picked; if (ax != -1) sim::violation("handle-missed", "a released handle is still held"); held = false; break;
      default: { F s1[3], mid[3]; for (int d = 0; d < 3; ++d) { s1[d] = src[d] + (F) g.r(-.4, .4); mid[d] = src[d] + (F) g.r(-.4, .4); } CVec3<F> p0 = tr.pos; F q0[4]; std::copy(ro.quat, ro.quat + 4, q0);
          if (!held) { if (rot) ro.Drag(src, s1, dir); else tr.Drag(src, s1, dir); if (tr.pos.x != p0.x || tr.pos.y != p0.y || tr.pos.z != p0.z || std::memcmp(q0, ro.quat, sizeof q0)) sim::violation("handle-acts-alone", "a drag without a held handle moved something"); break; }
          if (!rot) { double u = nearest(s1, dir, ax) - nearest(src, dir, ax); bool two = sim::chance(1, 2); if (two) { tr.Drag(src, mid, dir); tr.Drag(mid, s1, dir); } else tr.Drag(src, s1, dir); for (int d = 0; d < 3; ++d) { double w = p0.p[d] + (d == ax ? u : 0); if (!(std::fabs(tr.pos.p[d] - w) <= eps * (1 + std::fabs(w) + std::fabs(u)))) sim::violation("handle-wrong", "dragging axis %d moved coordinate %d to %.9g, not %.9g", ax, d, (double) tr.pos.p[d], w); } }
          else { M3 R = of_quat(std::array<double, 4>{q0[0], q0[1], q0[2], q0[3]}.data()); double be = g.r(-3, 3); for (int d = 0; d < 3; ++d) s1[d] = (F) (ro.pos.p[d] + size * (R.m[d * 3 + (ax + 1) % 3] * std::cos(be) + R.m[d * 3 + (ax + 2) % 3] * std::sin(be))) - 3 * dir[d]; V3 f; for (int d = 0; d < 3; ++d) f[d] = (src[d] + 3 * (double) dir[d] - ro.pos.p[d]) / size; double al = 0, be2 = 0, on = 0; V3 l; for (int c = 0; c < 3; ++c) { l[c] = 0; for (int d = 0; d < 3; ++d) l[c] += R.m[d * 3 + c] * f[d]; } al = std::atan2(l[(ax + 2) % 3], l[(ax + 1) % 3]); on = std::fabs(l[ax]) + std::fabs(std::hypot(l[(ax + 2) % 3], l[(ax + 1) % 3]) - 1);
            ro.Drag(src, s1, dir); if (on < 10 * eps) { M3 W = mul(R, about(ax, be - al)), G = of_quat(std::array<double, 4>{ro.quat[0], ro.quat[1], ro.quat[2], ro.quat[3]}.data()); for (int d = 0; d < 9; ++d) if (!(std::fabs(W.m[d] - G.m[d]) < 300 * eps)) sim::violation("handle-wrong", "turning ring %d by %.9g gave another rotation", ax, be - al); } else sim::probe("off the ring"); (void) be2; double n = 0; for (F x : ro.quat) n += (double) x * x; if (!(std::fabs(n - 1) < 50 * eps)) sim::violation("handle-wrong", "the rotation is a quaternion of squared length %.9g", n); M3 A = of_quat(std::array<double, 4>{q0[0], q0[1], q0[2], q0[3]}.data()), B = of_quat(std::array<double, 4>{ro.quat[0], ro.quat[1], ro.quat[2], ro.quat[3]}.data()); for (int d = 0; d < 3; ++d) if (!(std::fabs(A.m[d * 3 + ax] - B.m[d * 3 + ax]) < 50 * eps)) sim::violation("handle-wrong", "turning about axis %d moved that axis", ax); }
          std::copy(s1, s1 + 3, src); } }
    sim::mix(sim::hash_bytes(tr.pos.p, sizeof tr.pos.p, 1)); sim::mix(sim::hash_bytes(ro.quat, sizeof ro.quat, 2)); }
  CVec3f piv; for (int d = 0; d < 3; ++d) { piv.p[d] = (float) g.r(-1, 1); both.gizmo_trnsl.pos.p[d] = (float) tr.pos.p[d]; } for (int d = 0; d < 4; ++d) both.gizmo_rot.quat[d] = (float) ro.quat[d]; both.SetPivot(piv); CMat4f A = both.Affine(); M3 R = of_quat(std::array<double, 4>{both.gizmo_rot.quat[0], both.gizmo_rot.quat[1], both.gizmo_rot.quat[2], both.gizmo_rot.quat[3]}.data()); V3 x = {g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)}, y = mul(R, V3{x[0] - piv.x, x[1] - piv.y, x[2] - piv.z}); for (int d = 0; d < 3; ++d) { double w = y[d] + both.gizmo_trnsl.pos.p[d], v = A.mat[d * 4] * x[0] + A.mat[d * 4 + 1] * x[1] + A.mat[d * 4 + 2] * x[2] + A.mat[d * 4 + 3]; if (!(std::fabs(v - w) < 1e-4)) sim::violation("handle-wrong", "the map of the handle takes a point to %.9g, not %.9g", v, w); }
  sim::state(sim::hash_bytes(A.mat, 64, 9)); sim::nontrivial(); }
void handle_d() { handle<double>(); } void handle_f() { handle<float>(); }
const sim::Scenario H06[] = {{"joint tree", 5, joint_tree}, {"motion file", 5, motion_file}, {"reach", 2, reach}, {"maps without bones", 1, bare}, {"handle", 1, handle_d}, {"handle, single precision", 1, handle_f}};
}
SIM_MAIN(SIM_TABLE("H06", H06))
