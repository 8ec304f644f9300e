// Catalogue of library operations: each one builds its input from a private stream, runs real
// library code on private objects and folds every output in a hash.
#pragma once
#include "geomgen.h"
#include <string>
#include <vector>
#include <array>
#include <functional>
namespace cat {
struct Ctx {
  gen::Rng g; uint64_t h = 0xcbf29ce484222325ull;
  explicit Ctx(uint64_t s) : g(s) {}
  int i(int lo, int hi) { return lo + (int) g.n((uint32_t) (hi - lo + 1)); }
  double r(double lo, double hi) { return g.r(lo, hi); }
  void o(double v) { if (v == 0) v = 0; if (v != v) { o_u(0x7ff8dead); return; } h = sim::hash_bytes(&v, 8, h); }
  void o(float v) { o((double) v); }
  void o(int v) { o_u((uint64_t) (int64_t) v); } void o(unsigned v) { o_u(v); } void o(size_t v) { o_u(v); } void o(long v) { o_u((uint64_t) v); } void o(bool v) { o_u(v); }
  void o(char v) { o_u((unsigned char) v); } void o(unsigned char v) { o_u(v); } void o(unsigned short v) { o_u(v); } void o(long long v) { o_u((uint64_t) v); }
  void o(const std::string &s) { h = sim::hash_u64(s.size(), h); h = sim::hash_bytes(s.data(), s.size(), h); }
  void o_u(uint64_t v) { h = sim::hash_u64(v, h); }
  template<class T> void o(const std::vector<T> &v) { o_u(v.size()); for (const T &x : v) o(x); }
  void o(const std::vector<bool> &v) { o_u(v.size()); for (bool x : v) o(x); }
  template<class T, size_t N> void o(const std::array<T, N> &v) { for (const T &x : v) o(x); }
  template<class T, class U> void o(const std::pair<T, U> &v) { o(v.first); o(v.second); }
  template<class T> void o(const T *p, size_t n) { for (size_t k = 0; k < n; ++k) o(p[k]); }
  std::vector<double> vec(size_t n, double a = -1, double b = 1) { std::vector<double> v(n); for (double &x : v) x = r(a, b); return v; }
  gen::Mesh mesh(int size = 0) { switch (g.n(2)) { case 0: return gen::grid(1 + g.n(3 << size), 1 + g.n(3 << size), g, .2); default: { gen::Mesh m = gen::sphere((int) g.n(2 + (size > 0)), .8); for (auto &x : m.xyz) x += g.r(-.03, .03); return m; } } }
};
// an output container: in "dirty" mode it starts with the contents of some earlier use
extern int dirty;
template<class T> struct OV : std::vector<T> {
  using std::vector<T>::vector;
  OV() { if (dirty) { size_t n = (size_t) dirty; this->reserve(n + 3); for (size_t k = 0; k < n; ++k) this->push_back((T) (int) (k % 3)); } }
  OV(const std::vector<T> &v) : std::vector<T>(v) {}
};
struct Op { const char *name; void (*fn)(Ctx &); int weight; };
std::vector<Op> &ops();
struct Reg { Reg(const char *n, void (*f)(Ctx &), int w = 1) { ops().push_back({n, f, w}); } };
}
typedef cat::OV<double> VD; typedef cat::OV<unsigned int> VU; typedef cat::OV<int> VI;
#define OP(name) static void op_##name(cat::Ctx &c); static cat::Reg reg_##name(#name, op_##name); static void op_##name(cat::Ctx &c)
