// Own runtime for gcc -fsanitize=thread instrumentation (libtsan is not linked):
// every instrumented memory access and every synchronisation call is a scheduling point of
// the simulator, and feeds a vector-clock race detector.  Compiled without instrumentation.
#include "sim.h"
#include "simsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <atomic>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <dlfcn.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <linux/futex.h>
#include <sched.h>

namespace sim {
namespace sched {
namespace {
constexpr int MAXT = 48;
enum St { FREE, RUN, BLOCK, DONE };
struct Thr {
  St st = FREE; pthread_t real; std::atomic<int> go; uint32_t vc[MAXT]; const void *wait = nullptr;
  int64_t deadline = -1; bool timedout = false; int stall = 0; bool joined = false, detached = false; void *ret = nullptr;
  void *(*fn)(void *); void *arg; int prio = 0; };
Thr T[MAXT]; int NT = 0; int CUR = 0; thread_local int ME = -1;
bool ON = false; int NOPRE = 0; bool RACE = true;
int64_t SIMNS = 0; uint64_t NSW = 0; uint64_t IH = 0xcbf29ce484222325ull; int CREATED = 0; int PIN = -1; bool TRACE = false;
unsigned HW = 4; int FAILAT = 0; bool FAILED = false;
// preemption style of the run
uint32_t MODE = 0; uint32_t QMEAN = 0; int64_t quantum = 1ll << 60; uint32_t SYNCDEN = 2;

void fwait(std::atomic<int> *a) { while (a->load(std::memory_order_acquire) == 0) syscall(SYS_futex, a, FUTEX_WAIT, 0, nullptr, nullptr, 0); a->store(0, std::memory_order_relaxed); }
void fpost(std::atomic<int> *a) { a->store(1, std::memory_order_release); syscall(SYS_futex, a, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

constexpr uint32_t ENOUGH = 1u << 20;   // after this many decisions a run is no longer preempted (threads still switch when they block)
void new_quantum() {
  if (choices_drawn() > ENOUGH) { quantum = 1ll << 60; return; }
  if (QMEAN == 0) { quantum = 1ll << 60; return; }
  uint32_t k = choose(4);
  if (k == 0) quantum = (int64_t) QMEAN * 4; else quantum = 1 + choose(QMEAN * 2);
}
// ---- race detector shadow: one cell per 8 bytes
struct Rec { uint32_t clk; uint8_t tid, mask, w, used; uint32_t pc; };
struct Cell { uintptr_t key; Rec r[6]; };
Cell *cells = nullptr; uint64_t ncap = 0, ncell = 0; uint32_t EPOCH = 1;
struct Sync { const void *a; uint32_t vc[MAXT]; };
Sync *syncs = nullptr; int nsync = 0, capsync = 0;
uint64_t hk(uintptr_t k) { uint64_t x = k; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; return x; }
Cell *cell(uintptr_t key, bool make) {
  if (!cells || (make && ncell * 2 > ncap)) {
    uint64_t nc = cells ? ncap * 4 : 1u << 12; Cell *n = (Cell *) calloc(nc, sizeof(Cell)); if (!n) harness_error("shadow");
    for (uint64_t i = 0; i < ncap; ++i) if (cells[i].key) { uint64_t h = hk(cells[i].key) & (nc - 1); while (n[h].key) h = (h + 1) & (nc - 1); n[h] = cells[i]; }
    free(cells); cells = n; ncap = nc; }
  uint64_t h = hk(key) & (ncap - 1);
  while (cells[h].key) { if (cells[h].key == key) return &cells[h]; h = (h + 1) & (ncap - 1); }
  if (!make) return nullptr;
  ++ncell; cells[h].key = key; return &cells[h];
}
Sync *sync_of(const void *a) {
  // small direct-mapped hash with chaining through linear probing
  static int *idx = nullptr; constexpr int N = 1 << 16;
  if (!idx) { idx = (int *) calloc(N, sizeof(int)); }
  uint64_t h = hk((uintptr_t) a) & (N - 1);
  while (idx[h]) { if (syncs[idx[h] - 1].a == a) return &syncs[idx[h] - 1]; h = (h + 1) & (N - 1); }
  if (nsync == capsync) { capsync = capsync ? capsync * 2 : 256; syncs = (Sync *) realloc(syncs, capsync * sizeof(Sync)); }
  if (nsync * 2 > N) harness_error("sync table full");
  syncs[nsync].a = a; memset(syncs[nsync].vc, 0, sizeof syncs[nsync].vc); idx[h] = ++nsync;
  return &syncs[nsync - 1];
}
void acquire(const void *a) { Sync *s = sync_of(a); for (int i = 0; i < NT; ++i) if (s->vc[i] > T[ME].vc[i]) T[ME].vc[i] = s->vc[i]; }
void release(const void *a) { Sync *s = sync_of(a); for (int i = 0; i < NT; ++i) if (T[ME].vc[i] > s->vc[i]) s->vc[i] = T[ME].vc[i]; T[ME].vc[ME]++; }

int pick_runnable(bool exclude_self) {
  int c[MAXT], n = 0;
  for (int pass = 0; pass < 2 && n == 0; ++pass)
    for (int i = 0; i < NT; ++i) if (T[i].st == RUN && !(exclude_self && i == ME)) {
      if (pass == 0 && T[i].stall > 0) { --T[i].stall; continue; }
      c[n++] = i; }
  if (n == 0) return -1;
  return c[choose((uint32_t) n)];
}
void switch_to(int t) {
  if (t == ME) return;
  ++NSW; IH = hash_u64(((uint64_t) ME << 8) | t, IH); fault("context_switch");
  CUR = t; fpost(&T[t].go);
}
void yield_to(int t) { if (t == ME || t < 0) return; switch_to(t); fwait(&T[ME].go); }
// every thread is blocked: jump the clock to the next deadline, or report a deadlock
int wake_by_time() {
  int b = -1;
  for (int i = 0; i < NT; ++i) if (T[i].st == BLOCK && T[i].deadline >= 0 && (b < 0 || T[i].deadline < T[b].deadline)) b = i;
  if (b < 0) violation("deadlock", "all simulated threads are blocked");
  if (T[b].deadline > SIMNS) { vtime((T[b].deadline - SIMNS) / 1000); SIMNS = T[b].deadline; }
  T[b].st = RUN; T[b].timedout = true; T[b].deadline = -1; T[b].wait = nullptr; fault("timer_fired");
  return b;
}
void block_on(const void *a, int64_t deadline = -1) {
  T[ME].st = BLOCK; T[ME].wait = a; T[ME].deadline = deadline; T[ME].timedout = false;
  int t = pick_runnable(true); if (t < 0) t = wake_by_time();
  if (t == ME) return;
  yield_to(t);
}
void wake(const void *a, int n) {
  // which waiter wakes is a scheduling decision
  while (n > 0) {
    int c[MAXT], k = 0; for (int i = 0; i < NT; ++i) if (T[i].st == BLOCK && T[i].wait == a) c[k++] = i;
    if (!k) return;
    int t = n >= k ? c[0] : c[choose(k)];
    T[t].st = RUN; T[t].wait = nullptr; T[t].deadline = -1; --n; }
}
void sync_point(uint32_t what) {
  if (!ON || ME < 0 || NOPRE) return;
  add_steps(1);
  if (PIN == ME) return;
  IH = hash_u64(((uint64_t) ME << 32) | what, IH);
  if (TRACE) logf("t%d sync %x pc %p q %ld", ME, what, __builtin_return_address(0), (long) quantum);
  int n = 0; for (int i = 0; i < NT; ++i) n += T[i].st == RUN;
  if (n < 2 || choices_drawn() > ENOUGH) return;
  if (chance(1, SYNCDEN)) { int t = pick_runnable(true); if (t >= 0) yield_to(t); }
}
inline void access(void *p, unsigned n, bool w, void *pc) {
  if (!ON || ME < 0) return;
  if (TRACE) logf("t%d %s %u pc %p", ME, w ? "w" : "r", n, pc);
  add_steps(1);
  if (NT > 1 && RACE && !NOPRE) {
    uintptr_t a = (uintptr_t) p;
    while (n) {
      unsigned off = a & 7, k = 8 - off; if (k > n) k = n;
      uint8_t mask = (uint8_t) (((1u << k) - 1) << off);
      Cell *c = cell(a >> 3, true);
      Rec *slot = nullptr;
      for (auto &r : c->r) if (r.used) {
        if (!(r.mask & mask)) continue;
        if (r.tid == ME) { if (r.mask == mask && r.w <= (uint8_t) w) slot = &r; continue; }
        if ((r.w || w) && r.clk > T[ME].vc[r.tid])
          violation("data-race", "%s by thread %d at pc 0x%lx conflicts with unordered %s by thread %d at pc 0x%x (%u bytes)", w ? "write" : "read", ME, (unsigned long) pc, r.w ? "write" : "read", r.tid, r.pc, k);
      }
      if (!slot) for (auto &r : c->r) if (!r.used) { slot = &r; break; }
      if (!slot) { slot = &c->r[0]; for (auto &r : c->r) if (r.clk < slot->clk) slot = &r; }
      *slot = {T[ME].vc[ME], (uint8_t) ME, mask, (uint8_t) w, 1, (uint32_t) (uintptr_t) pc};
      a += k; n -= k;
    }
  }
  if (--quantum <= 0 && !NOPRE && PIN != ME) { new_quantum(); int t = pick_runnable(false); if (t >= 0) yield_to(t); }
}
void clear_range(void *p, size_t n) {
  if (!cells || NT <= 1) return;
  uintptr_t a = (uintptr_t) p >> 3, b = ((uintptr_t) p + n + 7) >> 3;
  if (b - a > ncap) { for (uint64_t i = 0; i < ncap; ++i) if (cells[i].key >= a && cells[i].key < b) memset(cells[i].r, 0, sizeof cells[i].r); return; }
  for (; a < b; ++a) { Cell *c = cell(a, false); if (c) memset(c->r, 0, sizeof c->r); }
}
void *trampoline(void *v) {
  Thr *t = (Thr *) v; ME = (int) (t - T);
  fwait(&t->go);
  { // a stack recycled from a finished thread has no history
    pthread_attr_t at; void *lo; size_t sz;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
      uintptr_t a = (uintptr_t) lo >> 3, b = ((uintptr_t) lo + sz) >> 3;
      for (uint64_t i = 0; i < ncap; ++i) if (cells[i].key >= a && cells[i].key < b) memset(cells[i].r, 0, sizeof cells[i].r); } }
  void *r = nullptr;
  r = t->fn(t->arg);
  // thread exit
  t->ret = r; T[ME].vc[ME]++;
  t->st = DONE; wake(t, 1000);
  IH = hash_u64(0xd0e0000 + ME, IH);
  int n = pick_runnable(true); if (n < 0) n = wake_by_time();
  int me = ME; ME = -1; (void) me; CUR = n; ++NSW; fpost(&T[n].go);
  return r;
}
template<class F> F real(const char *n) { F f = (F) dlsym(RTLD_NEXT, n); if (!f) abort(); return f; }
int64_t abs_to_sim(const struct timespec *ts) { // absolute deadlines are relative to the simulated clock
  return (int64_t) ts->tv_sec * 1000000000ll + ts->tv_nsec; }
} // namespace

void begin() {
  NT = 1; ME = 0; CUR = 0; T[0].st = RUN; memset(T[0].vc, 0, sizeof T[0].vc); T[0].vc[0] = 1; T[0].real = pthread_self();
  TRACE = getenv("SIM_TRACE") != nullptr; ON = true; new_quantum();
}
void pick_mode() {
  MODE = choose(6);
  static const uint32_t q[6] = {0, 2000, 300, 60, 12, 3};
  QMEAN = q[MODE]; SYNCDEN = 2 + choose(6); new_quantum();
}
void hw_concurrency(unsigned n) { HW = n; }
void fail_thread_create_at(int k) { FAILAT = k; if (k) FAILED = false; }
bool thread_create_failed() { return FAILED; }
int live_threads() { int n = 0; for (int i = 0; i < NT; ++i) n += T[i].st == RUN || T[i].st == BLOCK; return n; }
int created_threads() { return CREATED; }
uint64_t switches() { return NSW; }
uint64_t interleaving_hash() { return IH; }
void yield_point() { sync_point(1); }
void no_preempt(bool on) { NOPRE += on ? 1 : -1; }
int tid() { return ME; }
void pin_self(bool on) { PIN = on ? ME : -1; }
void stall_self(int n) { if (ME >= 0) { T[ME].stall = n; fault("thread_stall"); sync_point(2); } }
bool race_detection(bool on) { bool o = RACE; RACE = on; return o; }
void on_alloc(void *p, size_t n) { if (ON) clear_range(p, n); }
} // namespace sched
} // namespace sim
using namespace sim; using namespace sim::sched;

// ---------------------------------------------------------------- pthread seam
extern "C" {
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!r_create) r_create = real<decltype(r_create)>("pthread_create");
  if (!ON) return r_create(th, at, fn, arg);
  sync_point(10);
  if (FAILAT > 0 && --FAILAT == 0) { FAILED = true; fault("thread_create_fail"); return EAGAIN; }
  if (NT >= MAXT) { fault("thread_limit"); return EAGAIN; }
  int id = NT++; Thr &t = T[id]; ++CREATED;
  memcpy(t.vc, T[ME].vc, sizeof t.vc); t.vc[id] = 1; T[ME].vc[ME]++;
  t.fn = fn; t.arg = arg; t.st = RUN; t.go.store(0); t.stall = 0;
  if (chance(1, 6)) { t.stall = (int) choose(60); fault("slow_thread_start"); }
  if (r_create(&t.real, at, trampoline, &t)) harness_error("real pthread_create failed");
  *th = t.real;
  sync_point(11);
  return 0;
}
static int find_thr(pthread_t th) { for (int i = NT - 1; i >= 0; --i) if (T[i].st != FREE && !T[i].joined && pthread_equal(T[i].real, th)) return i; return -1; }
int pthread_join(pthread_t th, void **ret) {
  static auto r = real<int (*)(pthread_t, void **)>("pthread_join");
  if (!ON || ME < 0) return r(th, ret);
  sync_point(12);
  int i = find_thr(th); if (i < 0) return ESRCH;
  while (T[i].st != DONE) block_on(&T[i]);
  T[i].joined = true;
  for (int k = 0; k < NT; ++k) if (T[i].vc[k] > T[ME].vc[k]) T[ME].vc[k] = T[i].vc[k];
  if (ret) *ret = T[i].ret;
  return r(th, nullptr);
}
int pthread_detach(pthread_t th) {
  static auto r = real<int (*)(pthread_t)>("pthread_detach");
  if (ON && ME >= 0) { int i = find_thr(th); if (i >= 0) T[i].detached = true; }
  return r(th);
}
// mutexes: owner kept by the simulator
struct Mx { const void *a; int owner; int depth; };
static Mx mx[4096]; static int nmx = 0;
static Mx *mxof(const void *a) { for (int i = 0; i < nmx; ++i) if (mx[i].a == a) return &mx[i]; if (nmx == 4096) harness_error("mutex table"); mx[nmx] = {a, -1, 0}; return &mx[nmx++]; }
static int mx_lock(pthread_mutex_t *m, int64_t dl) {
  sync_point(20); Mx *x = mxof(m);
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  if (x->owner == ME && rec) { x->depth++; return 0; }
  while (x->owner != -1) { fault("mutex_contended"); block_on(m, dl); x = mxof(m); if (T[ME].timedout) return ETIMEDOUT; }
  x->owner = ME; x->depth = 1; acquire(m); return 0;
}
static int mx_unlock(pthread_mutex_t *m) {
  Mx *x = mxof(m); if (x->depth > 1) { x->depth--; return 0; }
  release(m); x->owner = -1; wake(m, 1000); sync_point(21); return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  return (!ON || ME < 0) ? r(m) : mx_lock(m, -1); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  if (!ON || ME < 0) return r(m);
  for (int i = 0; i < nmx; ++i) if (mx[i].a == m && mx[i].owner == ME) return mx_unlock(m);
  return r(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  if (!ON || ME < 0) return r(m);
  sync_point(22); Mx *x = mxof(m); if (x->owner != -1) return EBUSY; x->owner = ME; x->depth = 1; acquire(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (ON) { for (int i = 0; i < nmx; ++i) if (mx[i].a == m) { mx[i].owner = -1; mx[i].depth = 0; } } return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl) {
  mx_unlock(m);
  bool to = false;
  if (chance(1, 12)) { fault("spurious_wakeup"); sync_point(23); }
  else { block_on(c, dl); to = T[ME].timedout; }
  mx_lock(m, -1); acquire(c);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  return (!ON || ME < 0) ? r(c, m) : cwait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
  return (!ON || ME < 0) ? r(c, m, t) : cwait(c, m, abs_to_sim(t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) {
  return (!ON || ME < 0) ? EINVAL : cwait(c, m, abs_to_sim(t)); }
int pthread_cond_signal(pthread_cond_t *c) {
  static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  if (!ON || ME < 0) return r(c);
  release(c); wake(c, 1); sync_point(24); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) {
  static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  if (!ON || ME < 0) return r(c);
  release(c); wake(c, 1000); sync_point(25); return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  static auto r = real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once");
  if (!ON || ME < 0) return r(o, fn);
  sync_point(26);
  // 0: never, 1: running, 2: done (glibc uses 2 for done)
  while (*(volatile int *) o == 1) block_on(o);
  acquire(o);
  if (*(volatile int *) o == 2) return 0;
  *(volatile int *) o = 1;
  try { fn(); } catch (...) { *(volatile int *) o = 0; wake(o, 1000); throw; }
  *(volatile int *) o = 2; release(o); wake(o, 1000);
  return 0;
}
int sched_yield(void) noexcept { if (ON && ME >= 0) { int t = pick_runnable(true); if (t >= 0) yield_to(t); return 0; } return (int) syscall(SYS_sched_yield); }
static void sim_sleep(int64_t ns) { block_on((void *) 8, SIMNS + ns); }
int nanosleep(const struct timespec *t, struct timespec *rem) {
  if (ON && ME >= 0) { sim_sleep((int64_t) t->tv_sec * 1000000000 + t->tv_nsec); return 0; }
  return (int) syscall(SYS_nanosleep, t, rem); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
  if (ON && ME >= 0) { int64_t ns = (int64_t) t->tv_sec * 1000000000 + t->tv_nsec; sim_sleep(fl ? (ns > SIMNS ? ns - SIMNS : 0) : ns); return 0; }
  return (int) -syscall(SYS_clock_nanosleep, c, fl, t, rem); }
int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  if (ON && ME >= 0) { SIMNS += 1000; t->tv_sec = SIMNS / 1000000000; t->tv_nsec = SIMNS % 1000000000; return 0; }
  return (int) syscall(SYS_clock_gettime, c, t); }
// function-local statics
int __cxa_guard_acquire(long long *g) {
  char *b = (char *) g;
  if (!ON || ME < 0) { if (b[0]) return 0; return 1; }
  sync_point(27);
  while (b[1]) block_on(g);
  acquire(g);
  if (b[0]) return 0;
  b[1] = 1; return 1;
}
void __cxa_guard_release(long long *g) { char *b = (char *) g; b[0] = 1; b[1] = 0; if (ON && ME >= 0) { release(g); wake(g, 1000); } }
void __cxa_guard_abort(long long *g) { char *b = (char *) g; b[1] = 0; if (ON && ME >= 0) wake(g, 1000); }

// ---------------------------------------------------------------- instrumentation runtime
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
#define RW(n) \
  void __tsan_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, (unsigned) n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, (unsigned) n, true, PC); }
} // extern C

static inline void pre(const volatile void *a, int mo, uint32_t w) { sync_point(0x100 + w); (void) a; (void) mo; }
static inline bool isacq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static inline bool isrel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void hb(const volatile void *a, int mo) {
  if (!ON || ME < 0) return;
  if (isacq(mo)) acquire((const void *) a);
  if (isrel(mo)) release((const void *) a); }
#define AT(bits, T_) \
extern "C" T_ __tsan_atomic##bits##_load(const volatile T_ *a, int mo) { pre(a, mo, 1); T_ v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (ON && ME >= 0 && isacq(mo)) acquire((const void *) a); return v; } \
extern "C" void __tsan_atomic##bits##_store(volatile T_ *a, T_ v, int mo) { pre(a, mo, 2); if (ON && ME >= 0 && isrel(mo)) release((const void *) a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T_ __tsan_atomic##bits##_exchange(volatile T_ *a, T_ v, int mo) { pre(a, mo, 3); hb(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T_ __tsan_atomic##bits##_fetch_add(volatile T_ *a, T_ v, int mo) { pre(a, mo, 4); hb(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T_ __tsan_atomic##bits##_fetch_sub(volatile T_ *a, T_ v, int mo) { pre(a, mo, 5); hb(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T_ __tsan_atomic##bits##_fetch_and(volatile T_ *a, T_ v, int mo) { pre(a, mo, 6); hb(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T_ __tsan_atomic##bits##_fetch_or(volatile T_ *a, T_ v, int mo) { pre(a, mo, 7); hb(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T_ __tsan_atomic##bits##_fetch_xor(volatile T_ *a, T_ v, int mo) { pre(a, mo, 8); hb(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T_ __tsan_atomic##bits##_fetch_nand(volatile T_ *a, T_ v, int mo) { pre(a, mo, 9); hb(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T_ *a, T_ *e, T_ v, int mo, int fmo) { pre(a, mo, 10); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); hb(a, ok ? mo : fmo); return ok; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T_ *a, T_ *e, T_ v, int mo, int fmo) { pre(a, mo, 11); \
  if (ON && ME >= 0 && chance(1, 16)) { fault("spurious_cas_failure"); *e = __atomic_load_n(a, __ATOMIC_SEQ_CST); return 0; } \
  bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); hb(a, ok ? mo : fmo); return ok; } \
extern "C" T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_ *a, T_ e, T_ v, int mo, int fmo) { pre(a, mo, 12); T_ x = e; bool ok = __atomic_compare_exchange_n(a, &x, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); hb(a, ok ? mo : fmo); return x; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int mo) { if (ON && ME >= 0) { sync_point(0x1f0); hb((void *) 16, mo); } }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- libstdc++ seams
#include <thread>
#include <future>
unsigned int std::thread::hardware_concurrency() noexcept { return HW; }
// replaces libstdc++'s futex wait/notify behind std::future
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *addr, unsigned val, bool has_to, std::chrono::seconds s, std::chrono::nanoseconds ns) {
  if (!ON || ME < 0) { while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) syscall(SYS_futex, addr, FUTEX_WAIT, val, nullptr, nullptr, 0); return true; }
  sync_point(30);
  while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) { block_on(addr, has_to ? s.count() * 1000000000ll + ns.count() : -1); if (T[ME].timedout) return false; }
  acquire(addr); return true;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *addr, unsigned val, bool has_to, std::chrono::seconds s, std::chrono::nanoseconds ns) {
  return _M_futex_wait_until(addr, val, has_to, s, ns); }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *addr) {
  if (!ON || ME < 0) { syscall(SYS_futex, addr, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0); return; }
  release(addr); wake(addr, 1000); sync_point(31);
}
// allocator: fresh memory has no history
#include <new>
#include <malloc.h>
namespace sim { namespace sched { int64_t g_afail = 0; bool g_afailed = false;
void fail_alloc_at(int64_t k) { g_afail = k; if (k) g_afailed = false; } bool alloc_failed_() { return g_afailed; } } }
void *operator new(size_t n) { if (ON && ME >= 0 && sim::sched::g_afail > 0 && --sim::sched::g_afail == 0) { sim::sched::g_afailed = true; fault("alloc_fail"); throw std::bad_alloc(); }
  void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (ON) { memset(p, 0xCD, n < 65536 ? n : 65536); sim::sched::on_alloc(p, n); } return p; }
void *operator new[](size_t n) { return operator new(n); }
// so has the memory of a thrown object, which the runtime takes from malloc
extern "C" void *__real___cxa_allocate_exception(size_t) noexcept;
extern "C" void *__wrap___cxa_allocate_exception(size_t n) noexcept { void *p = __real___cxa_allocate_exception(n); if (ON && p) sim::sched::on_alloc(p, n); return p; }
// the shadow of a freed block is dropped: its pages may come back as another thread's stack
static void sim_delete(void *p) { if (ON && p) sim::sched::on_alloc(p, malloc_usable_size(p)); free(p); }
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p); }
