#include "sim.h"
#include "seams.h"
#include <random>
#include <stdexcept>
#include <system_error>
#include <cstdlib>
namespace sim {
namespace { int g_mode = 0; uint64_t g_par = 0, g_draws = 0; uint64_t g_s = 88172645463325252ull;
uint32_t next() {
  ++g_draws; add_steps(1);
  switch (g_mode) {
    case 1: return 0u;
    case 2: return 0xffffffffu;
    case 3: return (uint32_t) g_par;
    case 4: return (uint32_t) (g_par++);
    case 5: if (g_draws >= g_par) { fault("entropy_unavailable"); throw std::system_error(std::make_error_code(std::errc::io_error), "entropy source unavailable"); }
    default: break; }
  g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return (uint32_t) (g_s >> 16);
} }
void entropy(int mode, uint64_t p) { g_mode = mode; g_par = p; g_draws = 0; g_s = 88172645463325252ull ^ (p * 0x9E3779B97F4A7C15ull + 1); if (!g_s) g_s = 1; }
uint64_t entropy_draws() { return g_draws; }
void entropy_pick() {
  int m = (int) choose(8);
  switch (m) {
    case 1: entropy(1); fault("entropy_all_zero"); break;
    case 2: entropy(2); fault("entropy_all_ones"); break;
    case 3: { uint32_t c = bits32(); entropy(3, c); fault("entropy_constant"); break; }
    case 4: { uint32_t c = choose(1000); entropy(4, c); fault("entropy_counter"); break; }
    default: { uint32_t c = bits32(); entropy(0, c); fault("entropy_seeded"); } }
}
}
unsigned int std::random_device::_M_getval() { return sim::next(); }
unsigned int std::random_device::_M_getval_pretr1() { return sim::next(); }
double std::random_device::_M_getentropy() const noexcept { return 0.0; }
extern "C" int rand(void) noexcept { return (int) (sim::next() & 0x7fffffff); }
extern "C" void srand(unsigned) noexcept {}
