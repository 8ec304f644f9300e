#include "sim.h"
#include "seams.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <alloca.h>
#include <malloc.h>
namespace sim {
namespace {
thread_local int g_lib = 0;
int64_t g_fail = 0; bool g_failed = false;
uint64_t g_count = 0, g_cap = 0, g_caphits = 0, g_livebytes = 0, g_peak = 0;
int64_t g_live = 0; int g_fill = 0;
// live blocks owned by Lib scopes: open addressing table, no operator new inside
struct E { void *p; size_t n; };
E *tab = nullptr; size_t cap_ = 0, used = 0;
size_t hp(void *p) { uint64_t x = (uint64_t) p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 29; return x; }
void grow() {
  size_t nc = cap_ ? cap_ * 2 : 4096; E *nt = (E *) calloc(nc, sizeof(E));
  for (size_t i = 0; i < cap_; ++i) if (tab[i].p && tab[i].p != (void *) 1) {
    size_t h = hp(tab[i].p) & (nc - 1); while (nt[h].p) h = (h + 1) & (nc - 1); nt[h] = tab[i]; }
  free(tab); tab = nt; cap_ = nc;
}
void ins(void *p, size_t n) {
  if (used * 2 >= cap_) { grow(); used = 0; for (size_t i = 0; i < cap_; ++i) if (tab[i].p) ++used; }
  size_t h = hp(p) & (cap_ - 1);
  while (tab[h].p && tab[h].p != (void *) 1) h = (h + 1) & (cap_ - 1);
  if (!tab[h].p) ++used;
  tab[h] = {p, n};
}
bool del(void *p, size_t &n) {
  if (!cap_) return false;
  size_t h = hp(p) & (cap_ - 1);
  while (tab[h].p) { if (tab[h].p == p) { n = tab[h].n; tab[h].p = (void *) 1; return true; } h = (h + 1) & (cap_ - 1); }
  return false;
}
} // namespace
void *sim_alloc(size_t n, size_t align, bool nothrow) {
  if (g_lib > 0) {
    ++g_count; add_steps(1);
    if (g_fail > 0 && --g_fail == 0) {
      g_failed = true; fault("alloc_fail");
      if (nothrow) return nullptr;
      throw std::bad_alloc(); }
    if (g_cap && (n > g_cap || g_livebytes + n > g_cap)) {
      ++g_caphits; fault("alloc_cap");
      if (nothrow) return nullptr;
      throw std::bad_alloc(); }
  }
  void *p = align ? memalign(align, n ? n : 1) : malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (g_lib > 0) {
    if (g_fill) memset(p, g_fill, n);
    ins(p, n); ++g_live; g_livebytes += n; if (g_livebytes > g_peak) g_peak = g_livebytes; }
  return p;
}
void sim_free(void *p) {
  if (!p) return;
  size_t n;
  if (g_live > 0 && del(p, n)) { --g_live; g_livebytes -= n; }
  free(p);
}
Lib::Lib() { ++g_lib; }
Lib::~Lib() { --g_lib; }
NoLib::NoLib() { was = g_lib > 0; g_lib -= 1000; }
NoLib::~NoLib() { g_lib += 1000; }
void alloc_fail_at(int64_t k) { g_fail = k > 0 ? k : 0; g_failed = false; }
bool alloc_failed() { return g_failed; }
uint64_t alloc_count() { return g_count; }
void alloc_cap(uint64_t b) { g_cap = b; }
uint64_t alloc_cap_hits() { return g_caphits; }
uint64_t alloc_peak() { return g_peak; }
void alloc_peak_reset() { g_peak = g_livebytes; }
int64_t live_blocks() { return g_live; }
void alloc_fill(int m) { g_fill = m; }
__attribute__((noinline)) void scribble_stack(int byte) {
  volatile char *b = (volatile char *) alloca(200000);
  for (int i = 0; i < 200000; ++i) b[i] = (char) byte;
}
} // namespace sim
void *operator new(size_t n) { return sim::sim_alloc(n, 0, false); }
void *operator new[](size_t n) { return sim::sim_alloc(n, 0, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::sim_alloc(n, 0, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::sim_alloc(n, 0, true); }
void *operator new(size_t n, std::align_val_t a) { return sim::sim_alloc(n, (size_t) a, false); }
void *operator new[](size_t n, std::align_val_t a) { return sim::sim_alloc(n, (size_t) a, false); }
void operator delete(void *p) noexcept { sim::sim_free(p); }
void operator delete[](void *p) noexcept { sim::sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim::sim_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::sim_free(p); }
