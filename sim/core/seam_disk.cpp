// Simulated disk behind libstdc++'s filebuf (fopen/read/write/writev/lseek/close/fstat are
// resolved to these definitions) and behind C stdio (fopencookie).
#include "sim.h"
#include "seams.h"
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <cstdarg>
#include <algorithm>
namespace sim {
namespace {
struct File { std::string data; };
struct H { std::string path; int64_t pos = 0; bool rd = false, wr = false, app = false; FILE *fp = nullptr; int64_t piece = 0; };
std::map<std::string, File> *fs = nullptr;
std::map<int, H> *hs = nullptr;        // by fd
DiskFaults F; bool g_err = false, g_crash = false; uint64_t g_ops = 0;
int64_t g_rd = 0, g_wr = 0;
bool active() { return fs != nullptr; }
bool is_sim(const char *p) { return active() && p && strncmp(p, "/sim/", 5) == 0; }
H *find(int fd) { if (!active()) return nullptr; auto it = hs->find(fd); return it == hs->end() ? nullptr : &it->second; }

ssize_t do_read(H &h, void *buf, size_t n) {
  NoLib g; ++g_ops; add_steps(50);
  if (!h.rd) { errno = EBADF; return -1; }
  if (F.eintr && chance(1, 4)) { fault("disk_eintr"); errno = EINTR; return -1; }
  const std::string &d = (*fs)[h.path].data;
  int64_t left = (int64_t) d.size() - h.pos; if (left < 0) left = 0;
  int64_t k = std::min<int64_t>(left, (int64_t) n);
  if (F.eio_read_at >= 0) {
    if (g_rd >= F.eio_read_at && k > 0) { fault("disk_read_eio"); g_err = true; errno = EIO; return -1; }
    if (g_rd + k > F.eio_read_at) k = F.eio_read_at - g_rd; }
  if (F.pipe && k > 0) { if (h.piece <= 0) { h.piece = 1 + (int64_t) choose(chance(1, 2) ? 16 : 2000); fault("pipe_piece"); } if (k > h.piece) k = h.piece; h.piece -= k; }
  else if (F.chunked && k > 1 && chance(2, 3)) { int64_t c = 1 + (int64_t) choose((uint32_t) std::min<int64_t>(k, chance(1, 2) ? 16 : 2000)); if (c < k) { k = c; fault("disk_short_read"); } }
  memcpy(buf, d.data() + h.pos, (size_t) k); h.pos += k; g_rd += k;
  return (ssize_t) k;
}
ssize_t do_write(H &h, const void *buf, size_t n) {
  NoLib g; ++g_ops; add_steps(50);
  if (!h.wr) { errno = EBADF; return -1; }
  if (F.eintr && chance(1, 4)) { fault("disk_eintr"); errno = EINTR; return -1; }
  if (g_crash) return (ssize_t) n;           // the machine is off: nothing reaches the disk
  int64_t k = (int64_t) n;
  if (F.chunked && k > 1 && chance(2, 3)) { int64_t c = 1 + (int64_t) choose((uint32_t) std::min<int64_t>(k, chance(1, 2) ? 16 : 2000)); if (c < k) { k = c; fault("disk_short_write"); } }
  if (F.enospc_at >= 0) {
    if (g_wr >= F.enospc_at && k > 0) { fault("disk_full"); g_err = true; errno = ENOSPC; return -1; }
    if (g_wr + k > F.enospc_at) { k = F.enospc_at - g_wr; fault("disk_short_write"); } }
  if (F.eio_write_at >= 0) {
    if (g_wr >= F.eio_write_at && k > 0) { fault("disk_write_eio"); g_err = true; if (F.transient) F.eio_write_at = -1; errno = EIO; return -1; }
    if (g_wr + k > F.eio_write_at) k = F.eio_write_at - g_wr; }
  int64_t store = k;
  if (F.crash_at >= 0 && g_wr + k > F.crash_at) { store = F.crash_at - g_wr; g_crash = true; fault("crash_during_write"); }
  std::string &d = (*fs)[h.path].data;
  if (h.app) h.pos = (int64_t) d.size();
  if (store > 0) {
    if ((int64_t) d.size() < h.pos + store) d.resize((size_t) (h.pos + store));
    memcpy(&d[(size_t) h.pos], buf, (size_t) store); }
  h.pos += k; g_wr += k;
  return (ssize_t) k;
}
int64_t do_seek(H &h, int64_t off, int wh) {
  NoLib g; ++g_ops;
  if (F.pipe && h.rd && !h.wr) { errno = ESPIPE; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? h.pos : (int64_t) (*fs)[h.path].data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  return h.pos = base + off;
}
bool mode_parse(const char *m, H &h, bool &trunc, bool &must_exist) {
  trunc = false; must_exist = false;
  bool plus = strchr(m, '+') != nullptr;
  if (m[0] == 'r') { h.rd = true; h.wr = plus; must_exist = true; }
  else if (m[0] == 'w') { h.wr = true; h.rd = plus; trunc = true; }
  else if (m[0] == 'a') { h.wr = true; h.rd = plus; h.app = true; }
  else return false;
  return true;
}
bool do_open(const char *path, const char *mode, H &h) {
  ++g_ops; add_steps(50);
  bool tr, me; h.path = path;
  if (!mode_parse(mode, h, tr, me)) { errno = EINVAL; return false; }
  if (F.open_fail) { fault("disk_open_fail"); g_err = true; errno = EMFILE; return false; }
  if (me && !fs->count(h.path)) { errno = ENOENT; return false; }
  if (tr) { if (!g_crash) (*fs)[h.path].data.clear(); }
  else (*fs)[h.path];
  return true;
}
typedef FILE *(*fopen_t)(const char *, const char *);
fopen_t real_fopen() { static fopen_t f = (fopen_t) dlsym(RTLD_NEXT, "fopen"); return f; }
typedef int (*fclose_t)(FILE *);
fclose_t real_fclose() { static fclose_t f = (fclose_t) dlsym(RTLD_NEXT, "fclose"); return f; }
} // namespace
namespace disk {
void reset() { NoLib g; delete fs; delete hs; fs = new std::map<std::string, File>; hs = new std::map<int, H>; F = DiskFaults(); g_err = g_crash = false; g_ops = 0; g_rd = g_wr = 0; }
void put(const std::string &p, const std::string &d) { NoLib g; if (!fs) reset(); (*fs)[p].data = d; }
bool exists(const std::string &p) { return fs && fs->count(p); }
std::string get(const std::string &p) { NoLib g; return fs && fs->count(p) ? (*fs)[p].data : std::string(); }
void faults(const DiskFaults &f) { F = f; g_err = g_crash = false; g_rd = g_wr = 0; }
bool any_error_fired() { return g_err; }
bool crashed() { return g_crash; }
uint64_t ops() { return g_ops; }
int open_handles() { return hs ? (int) hs->size() : 0; }
}
// C stdio users inside the library are compiled with -Dfopen=sim_stdio_fopen
static ssize_t ck_read(void *c, char *b, size_t n) { ssize_t r; do r = do_read(*(H *) c, b, n); while (r < 0 && errno == EINTR); return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t done = 0; while (done < n) { ssize_t r = do_write(*(H *) c, b + done, n - done); if (r < 0) { if (errno == EINTR) continue; return done; } done += r; } return done; }
static int ck_seek(void *c, off64_t *o, int w) { int64_t r = do_seek(*(H *) c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int g_stdio_open = 0;
static int ck_close(void *c) { NoLib g; delete (H *) c; --g_stdio_open; if (F.close_fail) { fault("disk_close_fail"); g_err = true; errno = EIO; return -1; } return 0; }
} // namespace sim
extern "C" {
FILE *sim_stdio_fopen(const char *path, const char *mode) {
  using namespace sim;
  if (!is_sim(path)) return real_fopen()(path, mode);
  NoLib g; H *h = new H;
  if (!do_open(path, mode, *h)) { int e = errno; delete h; errno = e; return nullptr; }
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  ++g_stdio_open;
  return fopencookie(h, mode, io);
}
int sim_stdio_open_count() { return sim::g_stdio_open; }
FILE *fopen(const char *path, const char *mode) {
  using namespace sim;
  if (!is_sim(path)) return real_fopen()(path, mode);
  NoLib g; H h;
  if (!do_open(path, mode, h)) return nullptr;
  FILE *fp = real_fopen()("/dev/null", "r+");
  if (!fp) return nullptr;
  h.fp = fp; (*hs)[fileno(fp)] = h;
  return fp;
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fclose(FILE *fp) {
  using namespace sim;
  if (fp && active()) {
    int fd = fileno(fp); H *h = fd >= 0 ? find(fd) : nullptr;
    if (h && h->fp == fp) {
      { NoLib g; hs->erase(fd); }
      real_fclose()(fp);
      if (F.close_fail) { fault("disk_close_fail"); g_err = true; errno = EIO; return -1; }
      return 0; } }
  return real_fclose()(fp);
}
ssize_t read(int fd, void *b, size_t n) {
  sim::H *h = sim::find(fd); if (h) return sim::do_read(*h, b, n);
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  sim::H *h = sim::find(fd); if (h) return sim::do_write(*h, b, n);
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  sim::H *h = sim::find(fd);
  if (!h) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t r = sim::do_write(*h, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : -1;
    t += r; if ((size_t) r < v[i].iov_len) break; }
  return t;
}
off_t lseek(int fd, off_t o, int w) {
  sim::H *h = sim::find(fd); if (h) return sim::do_seek(*h, o, w);
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fstat(int fd, struct stat *st) {
  sim::H *h = sim::find(fd);
  if (h) { memset(st, 0, sizeof *st); if (sim::F.pipe && h->rd && !h->wr) { st->st_mode = S_IFIFO | 0600; return 0; } st->st_mode = S_IFREG | 0644; { sim::NoLib g; st->st_size = (off_t) (*sim::fs)[h->path].data.size(); } return 0; }
  return (int) syscall(SYS_fstat, fd, st);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  sim::H *h = sim::find(fd);
  if (h && req == FIONREAD && sim::F.pipe) {   // what has arrived and was not read yet
    sim::NoLib g; int64_t left = (int64_t) (*sim::fs)[h->path].data.size() - h->pos; *(int *) arg = (int) std::max<int64_t>(0, std::min(h->piece, left)); return 0; }
  if (h) { errno = ENOTTY; return -1; }
  return (int) syscall(SYS_ioctl, fd, req, arg);
}
}
