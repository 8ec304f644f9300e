// M01: an allocation failing at any point of an operation.  H04: results depend only on the inputs
// (not on what outputs / memory / earlier calls held before).
#include "catalog.h"
#include "seams.h"
#include <new>
#include <typeinfo>
#include <cstring>
namespace {
struct Res { uint64_t h = 0; int kind = 0; std::string what; };   // 0 returned, 1 bad_alloc, 2 other exception
Res exec(const cat::Op &op, uint32_t seed) {
  Res r;
  try { sim::Lib l; cat::Ctx c(seed); op.fn(c); r.h = c.h; }
  catch (std::bad_alloc &) { r.kind = 1; }
  catch (std::exception &e) { sim::NoLib n; r.kind = 2; r.what = std::string(typeid(e).name()) + ": " + e.what(); }
  return r; }
const cat::Op &pick() { auto &ops = cat::ops(); return ops[sim::choose((uint32_t) ops.size())]; }

// ---- M01
void alloc_at_any_point() {
  const cat::Op &op = pick(); uint32_t seed = sim::choose(5000); sim::logf("op %s seed %u", op.name, seed);
  exec(op, seed);                                   // first use: function-local statics get built here
  int64_t live0 = sim::live_blocks(); uint64_t c0 = sim::alloc_count();
  Res ref = exec(op, seed); uint64_t n = sim::alloc_count() - c0;
  if (sim::live_blocks() != live0) sim::violation("leak", "%s seed %u: %lld blocks stay allocated without any fault", op.name, seed, (long long) (sim::live_blocks() - live0));
  if (ref.kind != 0) sim::harness_error("%s seed %u throws without fault: %s", op.name, seed, ref.what.c_str());
  sim::logf("allocations %llu", (unsigned long long) n); if (!n) return;
  int rounds = 1 + (int) sim::choose(12); sim::Lib *dummy = nullptr; (void) dummy;
  for (int q = 0; q < rounds; ++q) {
    uint32_t k = 1 + (sim::chance(1, 4) ? sim::choose((uint32_t) std::min<uint64_t>(n, 12)) : sim::choose((uint32_t) n));
    sim::alloc_fail_at(k); Res r = exec(op, seed); bool fired = sim::alloc_failed(); sim::alloc_fail_at(0);
    sim::logf("fail at %u: kind %d", k, r.kind); sim::mix(r.h); sim::vtime(k);
    if (!fired) { if (r.kind != 0 || r.h != ref.h) sim::violation("result-differs", "%s seed %u: the same call gives another result", op.name, seed); continue; }
    sim::nontrivial(); sim::probe(op.name); sim::state(sim::hash_u64(k, sim::hash_u64(seed, sim::hash_bytes(op.name, strlen(op.name)))));
    if (r.kind == 2) sim::violation("other-exception", "%s seed %u: allocation %u of %llu failed: %s instead of bad_alloc", op.name, seed, k, (unsigned long long) n, r.what.c_str());
    if (r.kind == 0 && r.h != ref.h) sim::violation("silent-wrong-result", "%s seed %u: allocation %u of %llu failed, the call returned normally with another result", op.name, seed, k, (unsigned long long) n);
    if (sim::live_blocks() != live0) sim::violation("leak", "%s seed %u: allocation %u of %llu failed, %lld blocks stay allocated", op.name, seed, k, (unsigned long long) n, (long long) (sim::live_blocks() - live0)); }
  Res again = exec(op, seed);
  if (again.kind != 0 || again.h != ref.h) sim::violation("later-call-differs", "%s seed %u: a call after the failures differs from the one before", op.name, seed);
  if (sim::live_blocks() != live0) sim::violation("leak", "%s seed %u: blocks stay allocated", op.name, seed);
}
void alloc_budget() {      // memory is short from some size on, as with a limit on the process
  const cat::Op &op = pick(); uint32_t seed = sim::choose(5000); sim::logf("op %s seed %u", op.name, seed);
  exec(op, seed); int64_t live0 = sim::live_blocks(); sim::alloc_peak_reset(); uint64_t p0 = sim::alloc_peak();
  Res ref = exec(op, seed); uint64_t peak = sim::alloc_peak() - p0; if (!peak || ref.kind) return;
  for (int q = 0; q < 4; ++q) { uint64_t cap = p0 + 1 + sim::choose((uint32_t) std::min<uint64_t>(peak + peak / 8, 1u << 30)), hits = sim::alloc_cap_hits();
    sim::alloc_cap(cap); Res r = exec(op, seed); sim::alloc_cap(0); bool fired = sim::alloc_cap_hits() > hits; sim::logf("cap %llu: kind %d", (unsigned long long) cap, r.kind); sim::vtime(1);
    if (fired) { sim::nontrivial(); sim::probe(op.name); sim::state(sim::hash_u64(cap, seed)); }
    if (r.kind == 2) sim::violation("other-exception", "%s seed %u: out of memory gives %s", op.name, seed, r.what.c_str());
    if (r.kind == 0 && r.h != ref.h) sim::violation("silent-wrong-result", "%s seed %u: out of memory, the call returned normally with another result", op.name, seed);
    if (r.kind == 1 && !fired) sim::violation("spurious-bad-alloc", "%s seed %u", op.name, seed);
    if (sim::live_blocks() != live0) sim::violation("leak", "%s seed %u: out of memory, %lld blocks stay allocated", op.name, seed, (long long) (sim::live_blocks() - live0)); }
  Res again = exec(op, seed); if (again.kind != 0 || again.h != ref.h) sim::violation("later-call-differs", "%s seed %u after running out of memory", op.name, seed);
}
const sim::Scenario M01[] = {{"failure-at-any-point", 3, alloc_at_any_point}, {"memory-limit", 1, alloc_budget}};

// ---- H04
Res must(const cat::Op &op, uint32_t seed) { Res r = exec(op, seed); if (r.kind) sim::harness_error("%s seed %u throws: %s", op.name, seed, r.what.c_str()); return r; }
void used_outputs() {      // outputs / objects used before, by a call with other inputs
  const cat::Op &op = pick(); uint32_t seed = sim::choose(20000); int d = 1 + (int) sim::choose(60); sim::logf("op %s seed %u earlier contents %d", op.name, seed, d);
  cat::dirty = 0; Res a = must(op, seed); cat::dirty = d; Res b = must(op, seed); cat::dirty = 0; sim::mix(a.h); sim::nontrivial(); sim::probe(op.name); sim::state(sim::hash_u64(a.h, d)); sim::fault("reused_output"); sim::vtime(1);
  if (a.h != b.h) sim::violation((std::string("reused-output:") + op.name).c_str(), "%s seed %u: with reused outputs (%d) the result differs from a fresh call", op.name, seed, d); }
void memory_contents() {   // what fresh heap and stack memory happens to hold
  const cat::Op &op = pick(); uint32_t seed = sim::choose(20000); int pa = (int) sim::choose(256), pb = (int) sim::choose(256), sa = (int) sim::choose(256), sb = (int) sim::choose(256);
  sim::logf("op %s seed %u heap %d/%d stack %d/%d", op.name, seed, pa, pb, sa, sb);
  sim::alloc_fill(pa); sim::scribble_stack(sa); Res a = must(op, seed); sim::alloc_fill(pb); sim::scribble_stack(sb); Res b = must(op, seed); sim::alloc_fill(0);
  sim::mix(a.h); sim::nontrivial(); sim::probe(op.name); sim::state(a.h); sim::fault("memory_pattern", 2); sim::vtime(1);
  if (a.h != b.h) sim::violation((std::string("uninitialised:") + op.name).c_str(), "%s seed %u: the result depends on the contents of fresh memory", op.name, seed); }
void history() {           // earlier calls in the same process (every run starts in a fresh one)
  auto &ops = cat::ops(); int n = 2 + (int) sim::choose(9); bool one = sim::chance(1, 2); std::vector<std::pair<const cat::Op *, uint32_t>> js; std::vector<uint64_t> h;
  for (int k = 0; k < n; ++k) { const cat::Op *o = k && (one || sim::chance(1, 3)) ? js[0].first : &ops[sim::choose((uint32_t) ops.size())]; js.push_back({o, sim::choose(5000)}); sim::logf("%s seed %u", o->name, js.back().second); }
  for (auto &j : js) h.push_back(must(*j.first, j.second).h);
  bool faulty = sim::chance(1, 3);
  for (int q = 0; q < n; ++q) { int k = (int) sim::choose(n);
    if (faulty && sim::chance(1, 2)) { sim::alloc_fail_at(1 + sim::choose(200)); exec(*js[k].first, js[k].second); sim::alloc_fail_at(0); }
    uint64_t v = must(*js[k].first, js[k].second).h; sim::mix(v); sim::vtime(1);
    if (v != h[k]) sim::violation((std::string("history:") + js[k].first->name).c_str(), "%s seed %u: the result depends on the calls made before", js[k].first->name, js[k].second); }
  sim::nontrivial(); for (auto &j : js) sim::probe(j.first->name); sim::state(sim::hash_u64(n, h[0])); }
const sim::Scenario H04[] = {{"used-outputs", 3, used_outputs}, {"memory-contents", 2, memory_contents}, {"call-history", 3, history}};
}
SIM_MAIN(SIM_TABLE("M01", M01), SIM_TABLE("H04", H04))
