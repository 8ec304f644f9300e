// Workload generators and independent reference geometry (no library code in here).
#pragma once
#include "sim.h"
#include <vector>
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <algorithm>
#include <climits>
namespace gen {
typedef std::array<double, 3> V3;
inline V3 sub(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 add(const V3 &a, const V3 &b, double s = 1) { return {a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]}; }
inline double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double norm(const V3 &a) { return std::sqrt(dot(a, a)); }
inline V3 at(const std::vector<double> &v, unsigned i) { return {v[i * 3], v[i * 3 + 1], v[i * 3 + 2]}; }
// deterministic stream for bulk data, seeded by one recorded decision
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  uint32_t n(uint32_t k) { return k ? (uint32_t) ((next() >> 20) % k) : 0; }
  double r(double a, double b) { return a + (b - a) * ((next() >> 11) * (1.0 / 9007199254740992.0)); } };
inline Rng rng() { uint32_t a = sim::choose(1u << 20); return Rng(a + 1); }

struct Mesh { std::vector<double> xyz; std::vector<unsigned> tri; };
// a grid patch with perturbed heights; shared vertices
inline Mesh grid(int nx, int ny, Rng &g, double amp) {
  Mesh m;
  for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
    m.xyz.push_back(-1. + 2. * i / nx); m.xyz.push_back(-1. + 2. * j / ny); m.xyz.push_back(g.r(-amp, amp)); }
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    unsigned a = j * (nx + 1) + i, b = a + 1, c = a + nx + 1, d = c + 1;
    if (g.n(2)) { for (unsigned v : {a, b, d, a, d, c}) m.tri.push_back(v); } else { for (unsigned v : {a, b, c, b, d, c}) m.tri.push_back(v); } }
  return m; }
// octahedron subdivided: closed, outward oriented
inline Mesh sphere(int level, double r) {
  Mesh m; std::vector<V3> v = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  std::vector<std::array<unsigned, 3>> t = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
  for (int l = 0; l < level; ++l) { std::map<std::pair<unsigned, unsigned>, unsigned> mid; std::vector<std::array<unsigned, 3>> u;
    auto M = [&](unsigned a, unsigned b) { auto k = std::make_pair(std::min(a, b), std::max(a, b)); auto it = mid.find(k); if (it != mid.end()) return it->second;
      V3 p = add(v[a], v[b]); double n = norm(p); v.push_back({p[0] / n, p[1] / n, p[2] / n}); return mid[k] = (unsigned) v.size() - 1; };
    for (auto &q : t) { unsigned a = M(q[0], q[1]), b = M(q[1], q[2]), c = M(q[2], q[0]); u.push_back({q[0], a, c}); u.push_back({a, q[1], b}); u.push_back({c, b, q[2]}); u.push_back({a, b, c}); }
    t = u; }
  for (auto &p : v) for (double x : p) m.xyz.push_back(x * r);
  for (auto &q : t) for (unsigned x : q) m.tri.push_back(x);
  return m; }
inline Mesh soup(int n, Rng &g) {
  Mesh m; for (int i = 0; i < n; ++i) { V3 c = {g.r(-1, 1), g.r(-1, 1), g.r(-1, 1)};
    for (int k = 0; k < 3; ++k) { for (int d = 0; d < 3; ++d) m.xyz.push_back(c[d] + g.r(-.6, .6)); m.tri.push_back(i * 3 + k); } }
  return m; }
inline Mesh any_mesh(Rng &g, int size) {   // size: 0 small ... 2 larger
  Mesh m;
  switch (sim::choose(3)) {
    case 0: { int n = 2 + (int) g.n(4 << (2 * size)); m = soup(n, g); break; }
    case 1: { int k = 1 + (int) g.n(3 << size); int l = 1 + (int) g.n(3 << size); m = grid(k, l, g, 0.3); break; }
    default: m = sphere((int) g.n(2 + (size > 0)), 0.8); for (auto &x : m.xyz) x += g.r(-.03, .03); }
  return m; }
// nearest point on a triangle (Ericson)
inline double dist_tri(const V3 &p, const V3 &a, const V3 &b, const V3 &c) {
  V3 ab = sub(b, a), ac = sub(c, a), ap = sub(p, a); double d1 = dot(ab, ap), d2 = dot(ac, ap);
  V3 q; 
  do {
    if (d1 <= 0 && d2 <= 0) { q = a; break; }
    V3 bp = sub(p, b); double d3 = dot(ab, bp), d4 = dot(ac, bp);
    if (d3 >= 0 && d4 <= d3) { q = b; break; }
    double vc = d1 * d4 - d3 * d2; if (vc <= 0 && d1 >= 0 && d3 <= 0) { q = add(a, ab, d1 / (d1 - d3)); break; }
    V3 cp = sub(p, c); double d5 = dot(ab, cp), d6 = dot(ac, cp);
    if (d6 >= 0 && d5 <= d6) { q = c; break; }
    double vb = d5 * d2 - d1 * d6; if (vb <= 0 && d2 >= 0 && d6 <= 0) { q = add(a, ac, d2 / (d2 - d6)); break; }
    double va = d3 * d6 - d5 * d4; if (va <= 0 && d4 - d3 >= 0 && d5 - d6 >= 0) { double w = (d4 - d3) / ((d4 - d3) + (d5 - d6)); q = add(b, sub(c, b), w); break; }
    double dn = 1 / (va + vb + vc); q = add(add(a, ab, vb * dn), ac, vc * dn);
  } while (0);
  return norm(sub(p, q)); }
inline double dist_mesh(const V3 &p, const std::vector<double> &xyz, const std::vector<unsigned> &tri) {
  double d = 1e300; for (size_t t = 0; t + 2 < tri.size(); t += 3) d = std::min(d, dist_tri(p, at(xyz, tri[t]), at(xyz, tri[t + 1]), at(xyz, tri[t + 2]))); return d; }
// ray (org, unit dir) against one triangle: -1 clear miss, +1 clear hit (depth), 0 too close to call
inline int ray_tri(const V3 &o, const V3 &d, const V3 &a, const V3 &b, const V3 &c, double &depth, double band = 1e-6) {
  V3 e1 = sub(b, a), e2 = sub(c, a), pv = cross(d, e2); double det = dot(e1, pv);
  double sc = norm(e1) * norm(e2);
  if (std::fabs(det) < 1e-9 * std::max(sc, 1e-30)) return 0;
  V3 tv = sub(o, a); double u = dot(tv, pv) / det; V3 qv = cross(tv, e1); double v = dot(d, qv) / det; depth = dot(e2, qv) / det;
  double w = 1 - u - v, m = std::min(u, std::min(v, w));
  double eps = band * (1 + sc / std::fabs(det));
  if (m < -eps) return -1;
  if (m > eps) { if (depth < -1e-7) return -1; if (depth > 1e-7) return 1; }
  return 0; }
inline bool inv4(const double A[16], double B[16]) {
  double m[4][8]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { m[i][j] = A[i * 4 + j]; m[i][4 + j] = i == j; }
  for (int c = 0; c < 4; ++c) { int p = c; for (int r = c; r < 4; ++r) if (std::fabs(m[r][c]) > std::fabs(m[p][c])) p = r; if (std::fabs(m[p][c]) < 1e-12) return false;
    if (p != c) for (int k = 0; k < 8; ++k) std::swap(m[p][k], m[c][k]);
    double d = m[c][c]; for (int k = 0; k < 8; ++k) m[c][k] /= d;
    for (int r = 0; r < 4; ++r) if (r != c) { double f = m[r][c]; for (int k = 0; k < 8; ++k) m[r][k] -= f * m[c][k]; } }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) B[i * 4 + j] = m[i][4 + j];
  return true; }
template<class T> uint64_t hv(const std::vector<T> &v, uint64_t h) { h = sim::hash_u64(v.size(), h); return v.empty() ? h : sim::hash_bytes(v.data(), v.size() * sizeof(T), h); }
} // namespace gen
