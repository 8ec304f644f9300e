// T05: whole operations on private objects, run in several threads at once, equal the same operations run alone.
#include "catalog.h"
#include "simsched.h"
#include <thread>
#include <memory>
namespace sc = sim::sched;
namespace {
struct Job { const cat::Op *op; uint32_t seed; uint64_t h = 0; bool threw = false; std::string what; };
void exec(Job &j) { cat::Ctx c(j.seed); try { j.op->fn(c); } catch (std::exception &e) { j.threw = true; j.what = e.what(); } j.h = c.h; }
void check(const std::vector<Job> &a, const std::vector<Job> &b, const char *who) {
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].threw != b[i].threw) sim::violation("concurrent-throws", "%s seed %u: %s ('%s')", a[i].op->name, a[i].seed, who, (a[i].threw ? a[i].what : b[i].what).c_str());
    if (a[i].h != b[i].h) sim::violation("result-differs", "%s seed %u: %s %016llx, alone %016llx", a[i].op->name, a[i].seed, who, (unsigned long long) a[i].h, (unsigned long long) b[i].h); } }
void go(int flavour) {
  auto &ops = cat::ops(); int nt = 2 + (int) sim::choose(flavour == 2 ? 3 : 2), per = 1 + (int) sim::choose(2);
  std::vector<std::vector<Job>> jobs(nt);
  const cat::Op *common = &ops[sim::choose(ops.size())]; uint32_t cs = sim::choose(5000);
  for (auto &v : jobs) for (int k = 0; k < per; ++k) { Job j; j.op = flavour == 2 ? &ops[sim::choose(ops.size())] : common; j.seed = flavour == 1 ? cs + k : sim::choose(5000); v.push_back(j); sim::logf("thread %zu: %s seed %u", (size_t) (&v - &jobs[0]), j.op->name, j.seed); }
  bool first = sim::chance(1, 3); std::vector<std::vector<Job>> ref = jobs;
  if (first) for (auto &v : ref) for (auto &j : v) exec(j);
  sc::pick_mode(); sc::begin();
  { std::vector<std::thread> th; for (int t = 0; t < nt; ++t) th.emplace_back([&jobs, t] { for (auto &j : jobs[t]) { exec(j); sim::vtime(1); } }); for (auto &t : th) t.join(); }
  if (!first) for (auto &v : ref) for (auto &j : v) exec(j);
  for (int t = 0; t < nt; ++t) { check(jobs[t], ref[t], "in parallel"); for (auto &j : jobs[t]) { sim::mix(j.h); sim::probe(j.op->name); } }
  sim::state(sc::interleaving_hash()); sim::mix(sc::interleaving_hash()); if (sc::switches() > 2) sim::nontrivial(); }
void same_op() { go(0); }
void same_input() { go(1); }
void mixed() { go(2); }
const sim::Scenario T05[] = {{"same-operation", 3, same_op}, {"same-input", 2, same_input}, {"mixed", 1, mixed}};
}
SIM_MAIN(SIM_TABLE("T05", T05))
