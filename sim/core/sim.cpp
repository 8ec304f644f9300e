// Engine: forks one child per run, records choices in shared memory, detects crashes,
// gates violations by re-execution, shrinks, replays.  Compiled without instrumentation.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <poll.h>

namespace sim {
namespace {
constexpr uint32_t MAXCH = 1u << 21;
constexpr uint32_t MAXST = 4096;
constexpr uint32_t LOGCAP = 1u << 18;
struct Counter { char name[44]; uint32_t kind; uint64_t n; };
struct Shared {
  uint32_t nch; uint32_t nst; uint32_t ncnt; uint32_t loglen;
  uint64_t loghash, steps, budget, vtime, uses_left;
  uint32_t status;       // 0 running, 1 ok, 2 violation, 3 harness error
  uint32_t nontriv;
  char vclass[160]; char vmsg[4096];
  Counter cnt[160];
  uint64_t st[MAXST];
  uint8_t edges[1u << 16];
  char log[LOGCAP];
  uint32_t ch[MAXCH];
};
Shared *S = nullptr;
bool g_replay = false, g_textlog = false;
const uint32_t *g_in = nullptr; uint32_t g_nin = 0;   // replay input
uint64_t rs[2];
const char *g_tier = "quick";
const char *g_prop = "";
void (*g_start[16])(); int g_nstart = 0;
bool g_inchild = false;

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
inline uint64_t rnd() {
  const uint64_t s0 = rs[0]; uint64_t s1 = rs[1];
  const uint64_t r = rotl(s0 + s1, 17) + s0;
  s1 ^= s0; rs[0] = rotl(s0, 49) ^ s1 ^ (s1 << 21); rs[1] = rotl(s1, 28);
  return r;
}
void count(const char *name, uint32_t kind, uint64_t n) {
  if (!S) return;
  for (uint32_t i = 0; i < S->ncnt; ++i)
    if (S->cnt[i].kind == kind && !strncmp(S->cnt[i].name, name, 43)) { S->cnt[i].n += n; return; }
  if (S->ncnt >= 160) return;
  Counter &c = S->cnt[S->ncnt++];
  snprintf(c.name, sizeof c.name, "%s", name); c.kind = kind; c.n = n;
}
void append_log(const char *s, size_t n) {
  S->loghash = hash_bytes(s, n, S->loghash);
  if (!g_textlog) return;
  if (S->loglen + n + 1 < LOGCAP) { memcpy(S->log + S->loglen, s, n); S->loglen += n; }
}
} // namespace

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *) p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
  return h;
}
uint32_t choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (g_in) { v = S->nch < g_nin ? g_in[S->nch] % n : 0; }
  else v = (uint32_t) ((rnd() >> 32) * (uint64_t) n >> 32);
  if (S->nch >= MAXCH) harness_error("choice list overflow");
  S->ch[S->nch++] = v;
  return v;
}
uint32_t choices_drawn() { return S->nch; }
bool chance(uint32_t num, uint32_t den) {
  // recorded as 0/1 so that shrinking to 0 means "did not happen"
  uint32_t v;
  if (g_in) v = S->nch < g_nin ? (g_in[S->nch] ? 1 : 0) : 0;
  else v = ((rnd() >> 32) * (uint64_t) den >> 32) < num ? 1 : 0;
  if (S->nch >= MAXCH) harness_error("choice list overflow");
  S->ch[S->nch++] = v;
  return v != 0;
}
int range(int lo, int hi) { return lo + (int) choose((uint32_t) (hi - lo + 1)); }
double real(double lo, double hi) { return lo + (hi - lo) * (choose(1u << 20) / 1048576.0); }
double sreal(double a) {
  uint32_t v = choose(1u << 21);
  double m = (v >> 1) / 1048576.0;
  return (v & 1) ? -a * m : a * m;
}
uint32_t bits32() { return (choose(1u << 16) << 16) | choose(1u << 16); }
void fault(const char *k, uint64_t n) { count(k, 0, n); }
void probe(const char *k, uint64_t n) { count(k, 1, n); }
void vtime(uint64_t t) { if (S) S->vtime += t; }
void logf(const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
  if (n > (int) sizeof b - 2) n = sizeof b - 2;
  if (n < 0) return;
  b[n++] = '\n'; append_log(b, n);
}
void mix(uint64_t v) { S->loghash = hash_bytes(&v, 8, S->loghash); }
void state(uint64_t h) { if (S->nst < MAXST) S->st[S->nst++] = h; }
void nontrivial() { S->nontriv = 1; }
void violation(const char *cls, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  snprintf(S->vclass, sizeof S->vclass, "%s", cls);
  for (char *c = S->vclass; *c; ++c) if (*c == ' ' || *c == '\n') *c = '_';
  vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap); va_end(ap);
  S->status = 2;
  syscall(SYS_exit_group, 77);
  __builtin_unreachable();
}
void harness_error(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (S) { vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap); S->status = 3; }
  va_end(ap);
  syscall(SYS_exit_group, 78);
  __builtin_unreachable();
}
void step_budget(uint64_t n) { S->budget = S->steps + n; }
uint64_t steps() { return S ? S->steps : 0; }
void add_steps(uint64_t n) {
  if (!S) return;
  S->steps += n;
  if (S->steps > S->budget && g_inchild)
    violation("hang", "no progress: step budget exceeded (%llu steps)", (unsigned long long) S->steps);
}
bool replaying() { return g_in != nullptr; }
const char *tier() { return g_tier; }
void at_child_start(void (*fn)()) { if (g_nstart < 16) g_start[g_nstart++] = fn; }

} // namespace sim

// ---- deterministic step counter / coverage (gcc -fsanitize-coverage=trace-pc)
extern "C" void __sanitizer_cov_trace_pc() {
  using namespace sim;
  if (!S) return;
  uintptr_t pc = (uintptr_t) __builtin_return_address(0);
  S->edges[(pc >> 1) & 0xffff] = 1;
  if (++S->steps > S->budget && g_inchild && S->status == 0)
    violation("hang", "no progress: step budget exceeded (%llu steps)", (unsigned long long) S->steps);
}

namespace sim {
namespace {
struct Result { int kind; /*0 ok 1 violation 2 error*/ std::string cls, msg; uint64_t h; uint32_t nch; };
int g_errfd = -1;

std::string slurp_err() {
  off_t n = lseek(g_errfd, 0, SEEK_END);
  if (n > 400000) n = 400000;
  std::string s((size_t) n, 0);
  ssize_t r = pread(g_errfd, &s[0], (size_t) n, 0);
  s.resize(r < 0 ? 0 : r);
  return s;
}
std::string first_repo_frame(const std::string &e) {
  size_t p = 0;
  while ((p = e.find("    #", p)) != std::string::npos) {
    size_t eol = e.find('\n', p); std::string l = e.substr(p, eol - p); p += 5;
    if (l.find("/include/delfem2/") == std::string::npos) continue;
    size_t a = l.find(" in "); if (a == std::string::npos) continue;
    std::string f = l.substr(a + 4);
    size_t b = f.find('('); size_t c = f.find(" /"); size_t d = std::min(b, c);
    f = f.substr(0, d);
    size_t lt = f.find('<'); if (lt != std::string::npos) f = f.substr(0, lt);
    size_t col = f.rfind("::"); if (col != std::string::npos) f = f.substr(col + 2);
    return f;
  }
  return "?";
}
std::string word_after(const std::string &e, const char *key) {
  size_t p = e.find(key); if (p == std::string::npos) return "";
  p += strlen(key); while (p < e.size() && e[p] == ' ') ++p;
  size_t q = p; while (q < e.size() && e[q] != ' ' && e[q] != '\n') ++q;
  return e.substr(p, q - p);
}

// run once; choices come from seed (in==nullptr) or from the list
Result run_once(const Scenario &sc, uint64_t seed, const std::vector<uint32_t> *in, bool text) {
  memset(S, 0, offsetof(Shared, st));
  memset(S->edges, 0, sizeof S->edges);
  S->loghash = 0xcbf29ce484222325ull;
  S->budget = 200000000ull;
  g_textlog = text;
  uint64_t x = seed; rs[0] = splitmix(x); rs[1] = splitmix(x);
  if (in) { static const uint32_t zero = 0; g_in = in->empty() ? &zero : in->data(); g_nin = in->size(); }
  else g_in = nullptr;
  if (ftruncate(g_errfd, 0)) {}
  lseek(g_errfd, 0, SEEK_SET);
  pid_t pid = fork();
  if (pid < 0) return {2, "fork", strerror(errno), 0, 0};
  if (pid == 0) {
    g_inchild = true;
    dup2(g_errfd, 2);
    rlimit rl{30, 40}; setrlimit(RLIMIT_CPU, &rl);
    rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
    for (int i = 0; i < g_nstart; ++i) g_start[i]();
    sc.fn();
    S->status = 1;
    syscall(SYS_exit_group, 0);
  }
  int st = 0;
  // wall guard: only an error exit, never a violation
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  int pfd = (int) syscall(SYS_pidfd_open, pid, 0);
  if (pfd >= 0) {
    pollfd p{pfd, POLLIN, 0};
    int r; do { r = poll(&p, 1, 300000); } while (r < 0 && errno == EINTR);
    close(pfd);
    if (r == 0) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return {2, "wall", "run exceeded the wall guard", 0, 0}; }
  }
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  (void) t1;
  Result r{0, "", "", S->loghash, S->nch};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->status == 1) return r;
  if (S->status == 2) { r.kind = 1; r.cls = S->vclass; r.msg = S->vmsg; return r; }
  if (S->status == 3) { r.kind = 2; r.cls = "harness"; r.msg = S->vmsg; return r; }
  // the run died: attribute it
  std::string e = slurp_err();
  r.kind = 1;
  if (e.find("ERROR: AddressSanitizer") != std::string::npos) {
    std::string t = word_after(e, "ERROR: AddressSanitizer:");
    r.cls = "asan:" + t + "@" + first_repo_frame(e);
  } else if (e.find("runtime error:") != std::string::npos) {
    r.cls = "ubsan@" + first_repo_frame(e);
  } else if (e.find("Assertion `") != std::string::npos || e.find("Assertion '") != std::string::npos) {
    size_t p = e.find("Assertion ");
    size_t q = e.find(" failed", p);
    if (q == std::string::npos) q = e.find('\n', p);
    size_t ls = e.rfind('\n', p); ls = ls == std::string::npos ? 0 : ls + 1;
    std::string line = e.substr(ls, p - ls);   // prog: file:line: func:
    size_t fp = line.find("/delfem2/");
    std::string where = "libstdc++";
    if (fp != std::string::npos) { where = line.substr(fp + 9); where = where.substr(0, where.find(':')); }
    r.cls = "assert:" + where + ":" + e.substr(p + 11, std::min<size_t>(q - p - 12, 80));
  } else if (e.find("terminate called") != std::string::npos) {
    std::string t = word_after(e, "instance of");
    r.cls = "terminate:" + t;
  } else if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGXCPU || (sg == SIGKILL && S->steps > 1000)) r.cls = "hang";
    else if (sg == SIGKILL) { r.kind = 2; }
    else r.cls = "signal:" + std::to_string(sg);
  } else {
    r.cls = "exit:" + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
  }
  for (auto &c : r.cls) if (c == ' ' || c == '\n') c = '_';
  r.msg = e.substr(0, 3000);
  return r;
}
std::vector<uint32_t> taken() { return std::vector<uint32_t>(S->ch, S->ch + S->nch); }

std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
bool write_replay(const std::string &path, const char *scn, uint64_t seed, const Result &r,
                  const std::vector<uint32_t> &ch, const std::string &log) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) return false;
  fprintf(f, "property %s\nscenario %s\nclass %s\nseed %llu\nnchoices %zu\nchoices", g_prop, scn,
          r.cls.c_str(), (unsigned long long) seed, ch.size());
  for (auto c : ch) fprintf(f, " %u", c);
  fprintf(f, "\nmessage %s\n--- events\n%s", esc(r.msg).c_str(), log.c_str());
  fclose(f); return true;
}
struct Replay { std::string scn, cls, msg; uint64_t seed = 0; std::vector<uint32_t> ch; };
bool read_replay(const char *path, Replay &R) {
  FILE *f = fopen(path, "r"); if (!f) return false;
  std::string all; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n);
  fclose(f);
  size_t p = 0;
  while (p < all.size()) {
    size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size();
    std::string l = all.substr(p, e - p); p = e + 1;
    if (l.rfind("scenario ", 0) == 0) R.scn = l.substr(9);
    else if (l.rfind("class ", 0) == 0) R.cls = l.substr(6);
    else if (l.rfind("seed ", 0) == 0) R.seed = strtoull(l.c_str() + 5, 0, 10);
    else if (l.rfind("choices", 0) == 0) {
      const char *c = l.c_str() + 7; char *q;
      for (;;) { unsigned long v = strtoul(c, &q, 10); if (q == c) break; R.ch.push_back(v); c = q; }
    } else if (l.rfind("--- events", 0) == 0) break;
  }
  return !R.scn.empty();
}
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
} // namespace

int main_(int argc, char **argv, const char *property, const Scenario *sc, size_t nsc) {
  g_prop = property;
  // fixed address space layout: addresses are part of "everything is repeatable"
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NOREEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) return 3;
  g_errfd = (int) syscall(SYS_memfd_create, "simerr", 0);
  int devnull = open("/dev/null", O_RDWR);
  int out = dup(1); dup2(devnull, 1); dup2(devnull, 0);
  FILE *O = fdopen(out, "w");
  if (a.count("--tier")) g_tier = a["--tier"].c_str();
  if (a.count("--list")) { for (size_t i = 0; i < nsc; ++i) fprintf(O, "%s %u\n", sc[i].name, sc[i].weight); fflush(O); return 0; }
  auto find = [&](const std::string &n) -> const Scenario * {
    for (size_t i = 0; i < nsc; ++i) if (n == sc[i].name) return &sc[i];
    return nullptr; };

  if (a.count("--replay")) {
    Replay R; if (!read_replay(a["--replay"].c_str(), R)) { fprintf(O, "bad replay file\n"); return 3; }
    const Scenario *s = find(R.scn); if (!s) { fprintf(O, "no scenario %s\n", R.scn.c_str()); fflush(O); return 3; }
    Result r = run_once(*s, R.seed, &R.ch, true);
    fprintf(O, "kind %d\nclass %s\nhash %016llx\n", r.kind, r.cls.c_str(), (unsigned long long) r.h);
    fprintf(O, "message %s\n--- events\n%.*s", r.msg.c_str(), (int) S->loglen, S->log);
    fflush(O);
    return r.kind == 1 ? (R.cls.empty() || r.cls == R.cls ? 1 : 4) : r.kind == 2 ? 3 : 0;
  }
  if (a.count("--one")) { // --one seed --scenario name : run a single seed (debug, determinism test)
    const Scenario *s = find(a["--scenario"]); if (!s) return 3;
    Result r = run_once(*s, strtoull(a["--one"].c_str(), 0, 10), nullptr, true);
    fprintf(O, "kind %d\nclass %s\nhash %016llx\nnch %u\nsteps %llu\nmessage %s\n--- events\n%.*s", r.kind, r.cls.c_str(),
            (unsigned long long) r.h, r.nch, (unsigned long long) S->steps, r.msg.c_str(), (int) S->loglen, S->log);
    fflush(O); return r.kind;
  }
  if (a.count("--shrink")) {
    Replay R; if (!read_replay(a["--shrink"].c_str(), R)) return 3;
    const Scenario *s = find(R.scn); if (!s) return 3;
    double tend = now() + (a.count("--time") ? atof(a["--time"].c_str()) : 40);
    int attempts = 0;
    std::vector<uint32_t> best = R.ch;
    auto test = [&](const std::vector<uint32_t> &c) -> bool {
      ++attempts;
      Result r = run_once(*s, R.seed, &c, false);
      if (r.kind == 1 && r.cls == R.cls) {
        std::vector<uint32_t> t = taken();
        best = t.size() <= c.size() ? t : c; return true; }
      return false; };
    if (!test(std::vector<uint32_t>(best))) { fprintf(O, "not reproduced\n"); fflush(O); return 4; }
    bool prog = true;
    while (prog && now() < tend && attempts < 4000) {
      prog = false;
      // drop the tail
      for (size_t k = best.size() / 2; k >= 1 && now() < tend; k /= 2)
        while (best.size() > k && now() < tend) {
          std::vector<uint32_t> c(best.begin(), best.end() - k);
          size_t before = best.size();
          if (!test(c) || best.size() >= before) break;
          prog = true; }
      // delete chunks
      for (size_t k : {256, 64, 16, 8, 4, 3, 2, 1})
        for (size_t i = 0; i + k <= best.size() && now() < tend;) {
          std::vector<uint32_t> c(best); c.erase(c.begin() + i, c.begin() + i + k);
          size_t before = best.size();
          if (test(c) && best.size() < before) prog = true; else i += std::max<size_t>(1, k / 2); }
      // zero chunks, then lower values
      for (size_t k : {64, 16, 4, 1})
        for (size_t i = 0; i < best.size() && now() < tend; i += k) {
          std::vector<uint32_t> c(best); bool any = false;
          for (size_t j = i; j < std::min(i + k, c.size()); ++j) if (c[j]) { c[j] = 0; any = true; }
          if (any && test(c)) prog = true; }
      for (size_t i = 0; i < best.size() && now() < tend; ++i) {
        uint32_t lo = 0;
        for (int it = 0; it < 22 && i < best.size() && best[i] > lo + 1 && now() < tend; ++it) {
          std::vector<uint32_t> c(best); uint32_t mid = lo + (best[i] - lo) / 2; c[i] = mid;
          if (test(c)) prog = true; else lo = mid; } }
    }
    std::vector<uint32_t> fin = best;
    Result r = run_once(*s, R.seed, &fin, true);
    if (!(r.kind == 1 && r.cls == R.cls)) { fprintf(O, "shrunk list does not reproduce\n"); fflush(O); return 4; }
    write_replay(a["--out"], s->name, R.seed, r, fin, std::string(S->log, S->loglen));
    fprintf(O, "shrunk %zu -> %zu attempts %d\n", R.ch.size(), fin.size(), attempts); fflush(O);
    return 0;
  }

  // ------------------------------------------------------------ worker
  uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10);
  uint64_t first = strtoull(a["--first"].c_str(), 0, 10), stride = strtoull(a["--stride"].c_str(), 0, 10);
  uint64_t maxruns = strtoull(a["--runs"].c_str(), 0, 10);
  double tlimit = atof(a["--time"].c_str());
  int recheck = a.count("--recheck") ? atoi(a["--recheck"].c_str()) : 8;
  std::vector<std::string> known;     // "scenario class" pairs that are recorded findings
  if (a.count("--known")) { FILE *f = fopen(a["--known"].c_str(), "r"); char l[1024];
    if (f) { while (fgets(l, sizeof l, f)) { std::string t(l); while (!t.empty() && (t.back() == '\n' || t.back() == ' ')) t.pop_back(); if (!t.empty()) known.push_back(t); } fclose(f); } }
  uint64_t ph = hash_bytes(property, strlen(property));
  std::vector<const Scenario *> sched;
  { unsigned mx = 0; for (size_t i = 0; i < nsc; ++i) mx = std::max(mx, sc[i].weight);
    for (unsigned w = 0; w < mx; ++w) for (size_t i = 0; i < nsc; ++i) if (sc[i].weight > w) sched.push_back(&sc[i]); }
  std::map<std::string, uint64_t> faults, probes, perscn, knownhits;
  std::unordered_set<uint64_t> states, loghashes;
  std::vector<uint8_t> edges(1u << 16);
  uint64_t runs = 0, nontriv = 0, vt = 0, totsteps = 0, rechecked = 0, choices = 0;
  std::string samples;
  double t0 = now(); int rc = 0; std::string err;
  for (uint64_t i = first; runs < maxruns && now() - t0 < tlimit; i += stride) {
    // scenario by global run index: all scenarios are visited whatever the number of workers
    const Scenario &s = *sched[i % sched.size()];
    uint64_t x = seed * 0x9E3779B97F4A7C15ull + i; x ^= ph; uint64_t rseed = splitmix(x);
    Result r = run_once(s, rseed, nullptr, getenv("SIM_TRACE") != nullptr);
    if (getenv("SIM_TRACE")) write_replay("/tmp/tr1", s.name, rseed, r, taken(), std::string(S->log, S->loglen));
    ++runs; perscn[s.name]++;
    if (getenv("SIM_DUMP")) fprintf(O, "run %llu %s %d %s %016llx %u\n", (unsigned long long) i, s.name, r.kind, r.cls.c_str(), (unsigned long long) r.h, r.nch);
    nontriv += S->nontriv; vt += S->vtime; totsteps += S->steps; choices += S->nch;
    for (uint32_t k = 0; k < S->ncnt; ++k) (S->cnt[k].kind == 0 ? faults : probes)[S->cnt[k].name] += S->cnt[k].n;
    if (states.size() < 2000000) for (uint32_t k = 0; k < S->nst; ++k) states.insert(S->st[k]);
    if (S->nontriv && loghashes.size() < 2000000) loghashes.insert(r.h);
    for (size_t k = 0; k < edges.size(); ++k) edges[k] |= S->edges[k];
    if (r.kind == 2) { rc = 3; err = s.name + std::string(": ") + r.cls + ": " + r.msg; break; }
    std::vector<uint32_t> ch = taken();
    if (r.kind == 1 || (int) rechecked < recheck) {
      // gate: same seed again, then the recorded choices
      Result r2 = run_once(s, rseed, nullptr, false);
      Result r3 = run_once(s, rseed, &ch, true);
      ++rechecked;
      if (r2.kind != r.kind || r2.cls != r.cls || r2.h != r.h || r2.nch != r.nch ||
          r3.kind != r.kind || r3.cls != r.cls || r3.h != r.h) {
        rc = 3;
        char b[512]; snprintf(b, sizeof b, "not repeatable: scenario %s seed %llu: [%d %s %016llx %u] [%d %s %016llx %u] [%d %s %016llx]",
          s.name, (unsigned long long) rseed, r.kind, r.cls.c_str(), (unsigned long long) r.h, r.nch, r2.kind, r2.cls.c_str(),
          (unsigned long long) r2.h, r2.nch, r3.kind, r3.cls.c_str(), (unsigned long long) r3.h);
        err = b;
        if (getenv("SIM_TRACE")) { run_once(s, rseed, nullptr, true); write_replay("/tmp/tr2", s.name, rseed, r, ch, std::string(S->log, S->loglen)); }
        break;
      }
      if (r.kind == 0 && samples.size() < 6000 && S->nontriv) {
        std::string l(S->log, std::min<uint32_t>(S->loglen, 700));
        samples += std::string(samples.empty() ? "" : ",") + "\"" + s.name + " seed=" + std::to_string(rseed) + " choices=" + std::to_string(ch.size()) + ": " + esc(l) + "\"";
      }
      if (r.kind == 1) {
        std::string key = std::string(s.name) + " " + r.cls;
        if (std::find(known.begin(), known.end(), key) != known.end()) { knownhits[key]++; continue; }
        write_replay(a["--out"] + ".viol", s.name, rseed, r, ch, std::string(S->log, S->loglen));
        rc = 1; break;
      }
    }
  }
  double wall = now() - t0;
  FILE *f = fopen(a["--out"].c_str(), "w");
  if (!f) return 3;
  auto dump = [&](const char *n, const std::map<std::string, uint64_t> &m) {
    fprintf(f, "\"%s\":{", n); bool c = false;
    for (auto &kv : m) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(kv.first).c_str(), (unsigned long long) kv.second); c = true; }
    fprintf(f, "},"); };
  fprintf(f, "{\"rc\":%d,\"error\":\"%s\",\"runs\":%llu,\"nontrivial\":%llu,\"vtime\":%llu,\"steps\":%llu,\"choices\":%llu,\"rechecked\":%llu,\"wall\":%.3f,",
          rc, esc(err).c_str(), (unsigned long long) runs, (unsigned long long) nontriv, (unsigned long long) vt,
          (unsigned long long) totsteps, (unsigned long long) choices, (unsigned long long) rechecked, wall);
  dump("faults", faults); dump("probes", probes); dump("scenarios", perscn); dump("known", knownhits);
  unsigned ne = 0; for (auto e : edges) ne += e;
  fprintf(f, "\"edges\":%u,\"nstates\":%zu,\"samples\":[%s]}\n", ne, states.size(), samples.c_str());
  fclose(f);
  // distinct-state and distinct-run hashes, merged by the driver
  FILE *g = fopen((a["--out"] + ".st").c_str(), "wb");
  if (g) { for (auto h : states) fwrite(&h, 8, 1, g); fclose(g); }
  g = fopen((a["--out"] + ".lh").c_str(), "wb");
  if (g) { for (auto h : loghashes) fwrite(&h, 8, 1, g); fclose(g); }
  g = fopen((a["--out"] + ".ed").c_str(), "wb");
  if (g) { fwrite(edges.data(), 1, edges.size(), g); fclose(g); }
  return rc;
}
int main_multi(int argc, char **argv, const Table *t, size_t n) {
  const char *p = nullptr;
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--prop")) p = argv[i + 1];
  for (size_t i = 0; i < n; ++i) if (!p || !strcmp(t[i].property, p)) return main_(argc, argv, t[i].property, t[i].s, t[i].n);
  fprintf(stderr, "no property %s in this harness\n", p); return 3;
}
} // namespace sim
