// Deterministic simulation engine: one seed -> one exactly repeatable execution.
// Every decision of a run (schedule, fault, workload, delay) is drawn by choose()
// from a single PRNG and recorded; a replay file is that list of choices.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstddef>

namespace sim {

// ---------------------------------------------------------------- decisions
uint32_t choose(uint32_t n);            // uniform in [0,n); 0 is the "simplest" outcome
bool chance(uint32_t num, uint32_t den);// true with probability num/den (false is simplest)
int range(int lo, int hi);              // inclusive, lo is simplest
double real(double lo, double hi);      // quantised to 2^-20 of the interval, lo is simplest
double sreal(double a);                 // in [-a,a], 0 is simplest
uint32_t bits32();                      // 32 random bits
uint32_t choices_drawn();               // decisions taken so far in this run

// ---------------------------------------------------------------- recording
void fault(const char *kind, uint64_t n = 1);   // a fault actually fired
void probe(const char *name, uint64_t n = 1);   // a rare condition was reached
void vtime(uint64_t ticks);                     // simulated time advanced
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);                           // folded in the event-log hash
void state(uint64_t h);                         // one distinct-state sample of this run
void nontrivial();                              // this run exercised the property (counted)
[[noreturn]] void violation(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// steps = instrumented basic blocks + seam operations executed; a run that exceeds the
// budget is reported as a hang ("bounded progress" oracle).
void step_budget(uint64_t n);           // restart the count with this budget
uint64_t steps();
void add_steps(uint64_t n);

uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t hash_u64(uint64_t v, uint64_t h) { return hash_bytes(&v, 8, h); }

bool replaying();
const char *tier();

// ---------------------------------------------------------------- scenarios
typedef void (*ScenarioFn)();
struct Scenario { const char *name; unsigned weight; ScenarioFn fn; };
int main_(int argc, char **argv, const char *property, const Scenario *s, size_t n);

// hooks called in the child before the scenario starts (seams register here)
void at_child_start(void (*fn)());
}

namespace sim { struct Table { const char *property; const Scenario *s; size_t n; }; int main_multi(int, char **, const Table *, size_t); }
#define SIM_TABLE(prop, arr) {prop, arr, sizeof(arr) / sizeof(arr[0])}
#define SIM_MAIN(...) \
  int main(int argc, char **argv) { \
    const sim::Table t[] = {__VA_ARGS__}; \
    return sim::main_multi(argc, argv, t, sizeof(t) / sizeof(t[0])); }
