// File seam: calls the C++ runtime makes on files under the scratch directory pass through here.
#include "core.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <cstdarg>
#include <unistd.h>
#include <sys/uio.h>
#include <sys/stat.h>

namespace sim {
static std::string g_scratch;
std::string const &scratch() { return g_scratch; }
void set_scratch(std::string const &s) { g_scratch = s; }

static IoPlan g_plan; static IoSeen g_seen; static bool g_armed = false;
struct Fd { bool on = false; long rd = 0, wr = 0; u64 n = 0; u64 cs = 0; };
static int const MAXFD = 1024;
static Fd g_fd[MAXFD];

void io_arm(IoPlan const &p) { g_plan = p; g_seen = IoSeen(); g_armed = true; }
IoSeen io_disarm() { g_armed = false; for (auto &f : g_fd) f.on = false; return g_seen; }

static bool mine(char const *path) { return g_armed && path && !g_scratch.empty() && strncmp(path, g_scratch.c_str(), g_scratch.size()) == 0; }
static bool before_open(char const *path) {
  if (!mine(path)) return true;
  ++g_seen.opens;
  if (g_plan.open_errno) { ++g_seen.open_fails; errno = g_plan.open_errno; return false; }
  return true;
}
static void after_open(char const *path, int fd) {
  if (mine(path) && fd >= 0 && fd < MAXFD) { g_fd[fd] = Fd(); g_fd[fd].on = true; g_fd[fd].cs = g_plan.chunk_seed; }
}
static size_t chunked(Fd &f, size_t n) {
  if (!g_plan.chunk || n == 0) return n;
  size_t c = size_t(g_plan.chunk);
  if (g_plan.chunk_seed) c = 1 + splitmix(f.cs) % c;
  if (c < n) { ++g_seen.shorts; return c; }
  return n;
}
// returns: 0 go on with *n bytes, 1 return -1 with errno, 2 return 0 (EOF)
static int on_read(int fd, size_t *n) {
  Fd &f = g_fd[fd]; ++f.n; ++g_seen.reads;
  if (g_plan.eintr_every && f.n % u64(g_plan.eintr_every) == 0) { ++g_seen.eintrs; errno = EINTR; return 1; }
  if (g_plan.eio_read_at >= 0) {
    if (f.rd >= g_plan.eio_read_at) { ++g_seen.eios; errno = EIO; return 1; }
    size_t left = size_t(g_plan.eio_read_at - f.rd); if (*n > left) *n = left;
  }
  if (g_plan.trunc_at >= 0) {
    if (f.rd >= g_plan.trunc_at) { ++g_seen.truncs; return 2; }
    size_t left = size_t(g_plan.trunc_at - f.rd); if (*n > left) *n = left;
  }
  *n = chunked(f, *n);
  return 0;
}
static int on_write(int fd, size_t *n) {
  Fd &f = g_fd[fd]; ++f.n; ++g_seen.writes;
  if (g_plan.eintr_every && f.n % u64(g_plan.eintr_every) == 0) { ++g_seen.eintrs; errno = EINTR; return 1; }
  if (g_plan.write_fail_at >= 0) {
    if (f.wr >= g_plan.write_fail_at) { if (*n == 0) return 0; ++g_seen.write_fails; errno = g_plan.write_errno; return 1; }
    size_t left = size_t(g_plan.write_fail_at - f.wr); if (*n > left) *n = left;
  }
  *n = chunked(f, *n);
  return 0;
}
static bool tracked(int fd) { return g_armed && fd >= 0 && fd < MAXFD && g_fd[fd].on; }
static bool g_busy = false;
} // namespace sim
using namespace sim;

template <class F> static F real(char const *name, F &slot) { if (!slot) slot = F(dlsym(RTLD_NEXT, name)); return slot; }
#define REAL(ret, name, ...) typedef ret (*name##_t)(__VA_ARGS__); static name##_t name##_p; static name##_t name##_real() { return ::real<name##_t>(#name, name##_p); }
REAL(FILE *, fopen, char const *, char const *)
REAL(FILE *, fopen64, char const *, char const *)
REAL(int, open, char const *, int, ...)
REAL(int, open64, char const *, int, ...)
REAL(int, openat, int, char const *, int, ...)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, readv, int, struct iovec const *, int)
REAL(ssize_t, write, int, void const *, size_t)
REAL(ssize_t, writev, int, struct iovec const *, int)
REAL(int, close, int)
REAL(int, fclose, FILE *)
REAL(int, rename, char const *, char const *)

extern "C" FILE *fopen(char const *p, char const *m) {
  if (!before_open(p)) return nullptr;
  FILE *f = fopen_real()(p, m); if (f) after_open(p, fileno(f)); return f;
}
extern "C" FILE *fopen64(char const *p, char const *m) {
  if (!before_open(p)) return nullptr;
  FILE *f = fopen64_real()(p, m); if (f) after_open(p, fileno(f)); return f;
}
#define OPENLIKE(name) extern "C" int name(char const *p, int fl, ...) { \
  mode_t md = 0; va_list a; va_start(a, fl); md = va_arg(a, mode_t); va_end(a); \
  if (!before_open(p)) return -1; int fd = name##_real()(p, fl, md); after_open(p, fd); return fd; }
OPENLIKE(open)
OPENLIKE(open64)
extern "C" int openat(int d, char const *p, int fl, ...) {
  mode_t md = 0; va_list a; va_start(a, fl); md = va_arg(a, mode_t); va_end(a);
  if (!before_open(p)) return -1; int fd = openat_real()(d, p, fl, md); after_open(p, fd); return fd;
}
extern "C" ssize_t read(int fd, void *b, size_t n) {
  if (!tracked(fd)) return read_real()(fd, b, n);
  size_t m = n; int r = on_read(fd, &m);
  if (r == 1) return -1;
  if (r == 2) return 0;
  ssize_t k = read_real()(fd, b, m); if (k > 0) { g_fd[fd].rd += k; g_seen.bytes += k; } return k;
}
extern "C" ssize_t readv(int fd, struct iovec const *v, int c) {
  if (!tracked(fd)) return readv_real()(fd, v, c);
  for (int i = 0; i < c; ++i) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
extern "C" ssize_t write(int fd, void const *b, size_t n) {
  if (!tracked(fd)) return write_real()(fd, b, n);
  size_t m = n; int r = on_write(fd, &m);
  if (r == 1) return -1;
  ssize_t k = write_real()(fd, b, m); if (k > 0) { g_fd[fd].wr += k; g_seen.bytes += k; } return k;
}
extern "C" ssize_t writev(int fd, struct iovec const *v, int c) {
  if (!tracked(fd)) return writev_real()(fd, v, c);
  // gather, so that faults may fall anywhere in the vector
  size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
  size_t m = n; int r = on_write(fd, &m);
  if (r == 1) return -1;
  char *buf = (char *)malloc(m ? m : 1); size_t o = 0;
  for (int i = 0; i < c && o < m; ++i) { size_t k = v[i].iov_len < m - o ? v[i].iov_len : m - o; memcpy(buf + o, v[i].iov_base, k); o += k; }
  ssize_t k = write_real()(fd, buf, m); free(buf);
  if (k > 0) { g_fd[fd].wr += k; g_seen.bytes += k; } return k;
}
extern "C" int close(int fd) {
  bool t = tracked(fd); if (fd >= 0 && fd < MAXFD) g_fd[fd].on = false;
  int r = close_real()(fd);
  if (t && g_plan.close_errno) { ++g_seen.close_fails; errno = g_plan.close_errno; return -1; }
  return r;
}
extern "C" int rename(char const *a, char const *b) {
  if (mine(b) && g_plan.rename_errno) { ++g_seen.rename_fails; errno = g_plan.rename_errno; return -1; }
  return rename_real()(a, b);
}
extern "C" int fclose(FILE *f) {
  int fd = fileno(f); bool t = tracked(fd); if (fd >= 0 && fd < MAXFD) g_fd[fd].on = false;
  int r = fclose_real()(f);
  if (t && g_plan.close_errno) { ++g_seen.close_fails; errno = g_plan.close_errno; return EOF; }
  return r;
}

namespace sim {
void put_file(std::string const &path, std::string const &data) {
  int fd = open_real()(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) { fprintf(stderr, "SIM-ERROR cannot write %s\n", path.c_str()); _exit(98); }
  size_t o = 0; while (o < data.size()) { ssize_t k = write_real()(fd, data.data() + o, data.size() - o); if (k <= 0) { fprintf(stderr, "SIM-ERROR write %s\n", path.c_str()); _exit(98); } o += size_t(k); }
  struct timespec ts[2] = {{1700000000, 0}, {1700000000, 0}}; futimens(fd, ts); // one instant for all files
  close_real()(fd);
}
bool get_file(std::string const &path, std::string &data) {
  data.clear();
  int fd = open_real()(path.c_str(), O_RDONLY);
  if (fd < 0) return false;
  char b[65536]; ssize_t k; while ((k = read_real()(fd, b, sizeof b)) > 0) data.append(b, size_t(k));
  close_real()(fd); return true;
}
void del_file(std::string const &path) { unlink(path.c_str()); }
}
