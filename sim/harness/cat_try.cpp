#include "catalog.h"
#include <cstdio>
#include <cstring>
#include <chrono>
namespace sim { uint64_t hash_bytes(const void *p, size_t n, uint64_t h) { const unsigned char *c = (const unsigned char *) p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; } return h; } uint32_t choose(uint32_t n){return 0;} }
std::vector<cat::Op> &cat::ops() { static std::vector<Op> v; return v; }
int cat::dirty = 0;
int main(int argc, char **argv) {
  for (auto &o : cat::ops()) { if (argc > 1 && strcmp(argv[1], o.name)) continue;
    uint64_t H = 0; auto t0 = std::chrono::steady_clock::now(); 
    for (int s = 0; s < 200; ++s) { if (argc > 2) printf("seed %d\n", s), fflush(stdout); cat::Ctx c(s); o.fn(c); cat::Ctx d(s); o.fn(d); if (c.h != d.h) { printf("%s seed %d not repeatable\n", o.name, s); break; } H ^= c.h; for (int q : {1, 40}) { cat::dirty = q; cat::Ctx e(s); o.fn(e); cat::dirty = 0; if (e.h != c.h) { printf("%s seed %d depends on output contents (%d)\n", o.name, s, q); s = 999; break; } } }
    auto t1 = std::chrono::steady_clock::now();
    printf("%-24s %016lx %.1f us\n", o.name, H, std::chrono::duration<double>(t1 - t0).count() * 1e6 / 400); fflush(stdout); } }
