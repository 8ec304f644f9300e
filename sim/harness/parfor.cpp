// T01 / T02: the parallel loop under every schedule, and under failures.
#include "sim.h"
#include "simsched.h"
#include "delfem2/thread.h"
#include <vector>
#include <memory>
#include <stdexcept>
#include <mutex>
#include <thread>
namespace sc = sim::sched;
namespace {
struct Env {             // drawn per run
  unsigned target, hw;
  Env() {
    static const unsigned c[] = {1, 2, 3, 0, 4, 5, 8, 7, 16};
    target = c[sim::choose(9)];
    static const unsigned h[] = {4, 1, 2, 3, 8, 0};
    hw = h[sim::choose(6)];
    if (target == 0 && hw == 0) sim::fault("hw_concurrency_unknown");
    sc::hw_concurrency(hw);
    sc::pick_mode(); sc::begin();
  }
};
void finish(const Env &e, bool work) {
  if (sc::live_threads() != 1) sim::violation("thread-left-running", "%d simulated threads still alive after the loop returned", sc::live_threads() - 1);
  sim::state(sc::interleaving_hash()); sim::mix(sc::interleaving_hash());
  if (work && sc::created_threads() >= 2) sim::nontrivial();
}
// body shared by the index types
template<typename T>
void one_d(T num, const Env &e, bool nested) {
  const long n = num > 0 ? (long) num : 0;
  std::vector<int> cnt(n, 0);
  auto out = std::make_unique<std::vector<long>>(n, -1);
  int flavour = sim::range(0, 3);
  std::vector<long> *po = out.get();
  volatile bool returned = false;
  sim::logf("1d num=%ld sizeof(T)=%zu target=%u hw=%u flavour=%d nested=%d", (long) num, sizeof(T), e.target, e.hw, flavour, nested);
  auto body = [&, n](T i) {
    if (returned) sim::violation("task-after-return", "index %ld started after the loop returned", (long) i);
    if ((long) i < 0 || (long) i >= n) sim::violation("index-out-of-range", "index %ld of %ld", (long) i, n);
    if (flavour == 1) sc::yield_point();
    if (flavour == 2 && ((long) i % 5) == 2) sc::stall_self(20);
    ++cnt[(long) i];
    (*po)[(long) i] = (long) i * 3 + 1;
    if (flavour == 3) sc::yield_point();
    sim::vtime(1);
  };
  struct Functor { decltype(body) *b; std::vector<int> pad; void operator()(T i) const { (*b)(i); } };
  if (nested) delfem2::parallel_for(num, Functor{&body, {1, 2, 3}}, e.target);   // temporary function object
  else if (e.target == 0 && sim::chance(1, 2)) delfem2::parallel_for(num, body); // default concurrency
  else delfem2::parallel_for(num, body, e.target);
  returned = true;
  for (long i = 0; i < n; ++i) {
    if (cnt[i] == 0) sim::violation("index-skipped", "index %ld of %ld was never executed", i, n);
    if (cnt[i] > 1) sim::violation("index-repeated", "index %ld of %ld executed %d times", i, n, cnt[i]);
    if ((*out)[i] != i * 3 + 1) sim::violation("lost-result", "result of index %ld is not visible after return", i);
  }
  finish(e, n > 1);
}
template<typename T>
void two_d(T n1, T n2, const Env &e) {
  const long a = n1 > 0 ? (long) n1 : 0, b = n2 > 0 ? (long) n2 : 0;
  std::vector<int> cnt(a * b, 0);
  volatile bool returned = false; int flavour = sim::range(0, 2);
  sim::logf("2d num1=%ld num2=%ld sizeof(T)=%zu target=%u hw=%u", (long) n1, (long) n2, sizeof(T), e.target, e.hw);
  auto body = [&](T i, T j) {
    if (returned) sim::violation("task-after-return", "pair started after the loop returned");
    if ((long) i < 0 || (long) i >= a || (long) j < 0 || (long) j >= b)
      sim::violation("index-out-of-range", "pair (%ld,%ld) of %ldx%ld", (long) i, (long) j, a, b);
    if (flavour == 1) sc::yield_point();
    if (flavour == 2 && ((long) i + (long) j) % 7 == 3) sc::stall_self(15);
    ++cnt[(long) i * b + (long) j]; sim::vtime(1);
  };
  if (e.target == 0) delfem2::parallel_for(n1, n2, body); else delfem2::parallel_for(n1, n2, body, e.target);
  returned = true;
  for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) {
    int c = cnt[i * b + j];
    if (c == 0) sim::violation("index-skipped", "pair (%ld,%ld) of %ldx%ld was never executed", i, j, a, b);
    if (c > 1) sim::violation("index-repeated", "pair (%ld,%ld) of %ldx%ld executed %d times", i, j, a, b, c); }
  finish(e, a * b > 1);
}
int pick_n() {
  switch (sim::choose(5)) { case 0: return sim::range(0, 8); case 1: return sim::range(0, 40); case 2: return sim::range(0, 3); case 3: return sim::range(20, 90); default: return sim::range(0, 16); } }

void s_1d() {
  Env e; int n = pick_n();
  switch (sim::choose(6)) {
    case 0: one_d<int>(n, e, false); break;
    case 1: one_d<unsigned int>(n, e, false); break;
    case 2: one_d<size_t>(n, e, false); break;
    case 3: one_d<short>((short) n, e, false); break;
    case 4: one_d<long long>(n, e, true); break;
    default: one_d<unsigned int>(n, e, true); } }
void s_1d_many() {  // more indices than any batch / chunk a scheduler might use
  Env e; one_d<unsigned int>(sim::range(100, 700), e, false); }
void s_1d_narrow() {  // index types whose range ends just after the loop bound
  Env e; int n = 255 - sim::range(0, 12);
  if (sim::chance(1, 2)) one_d<unsigned char>((unsigned char) n, e, false);
  else one_d<signed char>((signed char) (127 - sim::range(0, 10)), e, false); }
void s_1d_negative() { Env e; one_d<int>(-sim::range(1, 5), e, false); }
void s_2d() {
  Env e; int a = sim::range(0, 12), b = sim::range(0, 14);
  switch (sim::choose(4)) {
    case 0: two_d<int>(a, b, e); break;
    case 1: two_d<unsigned int>(a, b, e); break;
    case 2: two_d<size_t>(a, b, e); break;
    default: two_d<short>((short) a, (short) b, e); } }
void s_2d_narrow() { Env e; two_d<unsigned char>((unsigned char) sim::range(1, 3), (unsigned char) (255 - sim::range(0, 6)), e); }
void s_2d_long() { Env e; if (sim::chance(1, 2)) two_d<int>(1, sim::range(20, 80), e); else two_d<int>(sim::range(20, 80), 1 + sim::range(0, 2), e); }
void s_nested() {   // a loop inside a loop
  Env e; int n = sim::range(1, 6), m = sim::range(1, 6); unsigned t2 = 1 + sim::choose(3);
  if (e.target == 0 || e.target > 4) sc::hw_concurrency(3);
  unsigned t1 = e.target > 4 ? 3 : e.target;
  sim::logf("nested %dx%d target=%u/%u", n, m, t1, t2);
  std::vector<int> cnt(n * m, 0);
  delfem2::parallel_for(n, [&](int i) {
    delfem2::parallel_for(m, [&](int j) { ++cnt[i * m + j]; sim::vtime(1); }, t2); }, t1);
  for (int k = 0; k < n * m; ++k) if (cnt[k] != 1) sim::violation(cnt[k] ? "index-repeated" : "index-skipped", "nested index %d executed %d times", k, cnt[k]);
  finish(e, true); }
void s_concurrent() {  // two application threads run loops at the same time
  Env e; int n = sim::range(1, 24), m = sim::range(1, 24);
  unsigned t = 1 + sim::choose(4);
  sim::logf("concurrent loops %d %d target=%u", n, m, t);
  std::vector<int> c1(n, 0), c2(m, 0); std::vector<int> order; std::mutex mtx;
  { std::thread th([&] { delfem2::parallel_for(n, [&](int i) { ++c1[i]; std::lock_guard<std::mutex> g(mtx); order.push_back(i); }, t); });
    delfem2::parallel_for((unsigned) m, [&](unsigned i) { ++c2[i]; std::lock_guard<std::mutex> g(mtx); order.push_back(1000 + (int) i); }, t);
    th.join(); }
  for (int v : c1) if (v != 1) sim::violation(v ? "index-repeated" : "index-skipped", "an index of loop 1 ran %d times", v);
  for (int v : c2) if (v != 1) sim::violation(v ? "index-repeated" : "index-skipped", "an index of loop 2 ran %d times", v);
  if ((int) order.size() != n + m) sim::violation("lost-result", "%zu results for %d tasks", order.size(), n + m);
  finish(e, true); }
// loops whose bodies have the same type, in flight at the same time: each keeps its own indices and its own errors
struct SameBody { std::vector<int> *cnt; int bad; int *thrown; void operator()(int i) const { sim::vtime(1); ++(*cnt)[i]; sc::yield_point(); if (i == bad) { sc::no_preempt(true); ++*thrown; sc::no_preempt(false); sim::fault("task_throws"); throw i; } }
  void operator()(int i, int) const { (*this)(i); } };
void same_type(bool may_throw) {
  Env e; int nl = 2 + (int) sim::choose(2); bool two = sim::chance(1, 2), nest = sim::chance(1, 3); int n[3], bad[3], thrown[3] = {0, 0, 0}; bool caught[3] = {false, false, false}; std::vector<int> cnt[3]; unsigned t[3];
  for (int k = 0; k < nl; ++k) { n[k] = sim::range(1, 14); t[k] = 1 + sim::choose(3); bad[k] = may_throw && sim::chance(1, 2) ? sim::range(0, n[k] - 1) : -1; cnt[k].assign(n[k], 0); sim::logf("loop %d: %d indices, %u workers, index %d fails", k, n[k], t[k], bad[k]); }
  sim::logf("2d=%d nested=%d", two, nest);
  auto run = [&](int k) { SameBody b{&cnt[k], bad[k], &thrown[k]}; try { if (two) delfem2::parallel_for(n[k], 1, b, t[k]); else delfem2::parallel_for(n[k], b, t[k]); } catch (int i) { caught[k] = true; if (i != bad[k]) sim::violation("wrong-error", "loop %d reports the error of index %d, not %d", k, i, bad[k]); } };
  if (nest) { delfem2::parallel_for(nl, [&](int k) { run(k); }, 2u); }
  else { std::vector<std::thread> th; for (int k = 1; k < nl; ++k) th.emplace_back([&, k] { run(k); }); run(0); for (auto &q : th) q.join(); }
  for (int k = 0; k < nl; ++k) { if (caught[k] != (thrown[k] > 0)) sim::violation(thrown[k] ? "error-lost" : "wrong-error", "loop %d: %d task(s) failed, the call %s", k, thrown[k], caught[k] ? "threw" : "returned normally");
    for (int i = 0; i < n[k]; ++i) { if (cnt[k][i] > 1) sim::violation("index-repeated", "index %d of loop %d ran %d times", i, k, cnt[k][i]); if (!caught[k] && cnt[k][i] == 0) sim::violation("index-skipped", "loop %d returned normally but index %d was not executed", k, i); } }
  finish(e, true); }
void s_same_type() { same_type(false); }
void s_same_type_throw() { same_type(true); }
void s_sequence() {  // several loops in a row: each one ends before the next begins
  Env e; int rounds = sim::range(2, 5), n = sim::range(1, 12);
  std::vector<int> v(n, 0);
  sim::logf("sequence rounds=%d n=%d", rounds, n);
  for (int r = 0; r < rounds; ++r) {
    delfem2::parallel_for(n, [&](int i) { if (v[i] != r) sim::violation("loops-overlap", "round %d sees value %d of index %d", r, v[i], i); v[i] = r + 1; sim::vtime(1); }, e.target > 5 ? 5 : e.target); 
    for (int i = 0; i < n; ++i) if (v[i] != r + 1) sim::violation("index-skipped", "round %d index %d", r, i); }
  finish(e, n > 1); }

// ------------------------------------------------------------------ T02
struct TaskError { int idx; int cookie; };
void s_throw(bool two) {
  Env e; unsigned nth = e.target ? e.target : std::max(1u, e.hw);
  int n = sim::range(1, 30), m = two ? sim::range(1, 5) : 1;   // two: m inner x n rows
  int nbad = sim::range(1, 3); int bad[3]; for (int k = 0; k < nbad; ++k) bad[k] = sim::range(0, n * m - 1);
  bool pin = sim::chance(1, 2);
  int kind = sim::range(0, 2);
  int cookie = (int) sim::choose(1000);
  sim::logf("throw %s n=%d m=%d target=%u hw=%u nbad=%d first=%d pin=%d kind=%d", two ? "2d" : "1d", n, m, e.target, e.hw, nbad, bad[0], pin, kind);
  std::vector<int> cnt(n * m, 0); volatile bool returned = false;
  // all the per-index bookkeeping is private to the index; the shared part is the simulator's
  static int started_after, thrown; static bool dead; started_after = thrown = 0; dead = false;
  static std::vector<int> rows_after; rows_after.clear();
  auto task = [&](int i, int j) {        // i inner, j row
    int id = j * m + i;
    if (returned) sim::violation("task-after-return", "index %d started after the loop returned", id);
    if (i < 0 || j < 0 || i >= m || j >= n) sim::violation("index-out-of-range", "index (%d,%d)", i, j);
    sc::no_preempt(true);
    if (dead && i == 0) { ++started_after; }
    sc::no_preempt(false);
    ++cnt[id];
    bool t = false; for (int k = 0; k < nbad; ++k) t |= bad[k] == id;
    if (!t) { sc::yield_point(); return; }
    sc::no_preempt(true); ++thrown;
    // a failing worker that is not interrupted: it runs on until it has finished
    if (pin && !dead) { sc::pin_self(true); dead = true; }
    sc::no_preempt(false);
    sim::fault("task_throws");
    if (kind == 0) throw TaskError{id, cookie};
    if (kind == 1) throw std::runtime_error("task failed " + std::to_string(id));
    throw id;
  };
  bool caught = false; int who = -1;
  try {
    if (two) delfem2::parallel_for(m, n, [&](int i, int j) { task(i, j); }, e.target);
    else if (e.target) delfem2::parallel_for(n, [&](int j) { task(0, j); }, e.target);
    else delfem2::parallel_for(n, [&](int j) { task(0, j); });
  } catch (TaskError &x) { caught = true; who = x.idx; if (x.cookie != cookie || kind != 0) sim::violation("wrong-error", "payload of the error was lost"); }
  catch (std::runtime_error &x) { caught = true; who = atoi(x.what() + 12); if (kind != 1) sim::violation("wrong-error", "unexpected error '%s'", x.what()); }
  catch (int x) { caught = true; who = x; if (kind != 2) sim::violation("wrong-error", "unexpected int error"); }
  catch (...) { sim::violation("wrong-error", "the caller got a different error from the task's"); }
  returned = true;
  if (thrown && !caught) sim::violation("error-lost", "%d task(s) failed but the call returned normally", thrown);
  if (!thrown && caught) sim::violation("wrong-error", "an error was reported although no task failed");
  if (!thrown) { for (int k = 0; k < nbad; ++k) sim::violation("index-skipped", "no task failed and index %d was never executed", bad[k]); }
  if (caught) { bool ok = false; for (int k = 0; k < nbad; ++k) ok |= bad[k] == who; if (!ok) sim::violation("wrong-error", "error names index %d", who); }
  for (int k = 0; k < n * m; ++k) if (cnt[k] > 1) sim::violation("index-repeated", "index %d executed %d times", k, cnt[k]);
  // once the failing worker has finished, every other worker may complete what it had already
  // begun, and at most the one row whose number it had already drawn
  if (pin && dead && started_after > (int) nth - 1) sim::violation("work-after-error", "%d rows were begun after the failing worker had finished (%u workers)", started_after, nth);
  finish(e, true);
}
void s_throw1() { s_throw(false); }
void s_throw2() { s_throw(true); }
void s_throw_then_reuse() {  // a failed loop leaves nothing behind: the next one is complete
  Env e; unsigned t = e.target > 5 ? 5 : e.target; int n = sim::range(1, 12), b = sim::range(0, n - 1);
  sim::logf("throw then reuse n=%d bad=%d", n, b);
  bool c = false; try { delfem2::parallel_for(n, [&](int i) { if (i == b) { sim::fault("task_throws"); throw 7; } sc::yield_point(); }, t); } catch (int) { c = true; }
  if (!c) sim::violation("error-lost", "task failed but the call returned normally");
  std::vector<int> cnt(n, 0);
  delfem2::parallel_for(n, [&](int i) { ++cnt[i]; }, t);
  for (int v : cnt) if (v != 1) sim::violation(v ? "index-repeated" : "index-skipped", "loop after a failed loop is incomplete");
  finish(e, true); }
// threads cannot be created / memory runs out inside the loop
template<class Arm, class Fired> void resource(bool two, unsigned maxk, Arm arm, Fired fired, const char *what) {
  Env e; int n = sim::range(1, 24), m = two ? sim::range(1, 4) : 1; int k = 1 + (int) sim::choose(maxk);
  sim::logf("%s at %d n=%d m=%d target=%u hw=%u", what, k, n, m, e.target, e.hw);
  std::vector<int> cnt(n * m, 0); volatile bool returned = false; bool threw = false;
  int tthrow = sim::chance(1, 4) ? sim::range(0, n * m - 1) : -1; static int thrown; thrown = 0;
  auto task = [&](int i, int j) { if (returned) sim::violation("task-after-return", "task started after the loop returned"); ++cnt[j * m + i]; if (j * m + i == tthrow) { sc::no_preempt(true); ++thrown; sc::no_preempt(false); sim::fault("task_throws"); throw TaskError{tthrow, 1}; } sc::yield_point(); };
  arm(k);
  try {
    if (two) delfem2::parallel_for(m, n, [&](int i, int j) { task(i, j); }, e.target);
    else delfem2::parallel_for(n, [&](int j) { task(0, j); }, e.target);
  } catch (...) { threw = true; }
  returned = true;
  sc::fail_thread_create_at(0); const bool hit = fired(); sc::fail_alloc_at(0);
  for (int q = 0; q < n * m; ++q) if (cnt[q] > 1) sim::violation("index-repeated", "index %d executed %d times", q, cnt[q]);
  if (threw && !hit && !thrown) sim::violation("wrong-error", "the call failed although nothing was injected");
  if (!threw && thrown) sim::violation("error-lost", "task failed but the call returned normally");
  if (!threw) for (int q = 0; q < n * m; ++q) if (cnt[q] != 1) sim::violation("index-skipped", "the call returned normally but index %d was not executed (%s at %d)", q, what, k);
  finish(e, hit);
}
void s_nothread() { resource(sim::chance(1, 2), 8, [](int k) { sc::fail_thread_create_at(k); }, [] { return sc::thread_create_failed(); }, "thread creation fails"); }
void s_nomem() { resource(sim::chance(1, 2), 40, [](int k) { sc::fail_alloc_at(k); }, [] { return sc::alloc_failed_(); }, "allocation fails"); }

const sim::Scenario t01[] = {{"loop-1d", 6, s_1d}, {"loop-1d-many", 1, s_1d_many}, {"loop-1d-narrow-index", 1, s_1d_narrow}, {"loop-1d-negative", 1, s_1d_negative},
  {"loop-2d", 5, s_2d}, {"loop-2d-narrow-index", 1, s_2d_narrow}, {"loop-2d-long", 2, s_2d_long}, {"nested", 1, s_nested}, {"concurrent", 2, s_concurrent}, {"same-body-type", 2, s_same_type}, {"sequence", 2, s_sequence}};
const sim::Scenario t02[] = {{"throw-1d", 4, s_throw1}, {"throw-2d", 4, s_throw2}, {"throw-then-reuse", 1, s_throw_then_reuse}, {"throw-same-body-type", 2, s_same_type_throw}, {"thread-creation-fails", 3, s_nothread}, {"allocation-fails", 2, s_nomem}};
}
SIM_MAIN(SIM_TABLE("T01", t01), SIM_TABLE("T02", t02))
