#include "core.hpp"
#include <cstdarg>
#include <new>
#include <unistd.h>
#include <malloc.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
namespace sim {

std::string fmt(char const *f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
void violate(std::string const &cls, std::string const &msg) { throw Violation{cls, msg}; }

std::string to_text(Trace const &t) {
  std::string o;
  for (auto &op : t) {
    o += op.n;
    for (auto &p : op.kv) { o += ' '; o += p.first; o += '='; o += p.second; }
    o += '\n';
  }
  return o;
}
Trace from_text(std::string const &s) {
  Trace t; size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size();
    std::string l = s.substr(i, e - i); i = e + 1;
    if (l.empty() || l[0] == '#') continue;
    Op op; size_t p = 0; bool first = true;
    while (p < l.size()) {
      size_t q = l.find(' ', p); if (q == std::string::npos) q = l.size();
      std::string w = l.substr(p, q - p); p = q + 1;
      if (w.empty()) continue;
      if (first) { op.n = w; first = false; }
      else { size_t eq = w.find('='); if (eq == std::string::npos) op.kv.emplace_back(w, ""); else op.kv.emplace_back(w.substr(0, eq), w.substr(eq + 1)); }
    }
    t.push_back(op);
  }
  return t;
}

// ---------------------------------------------------------------- allocator seam
static thread_local int   tl_lib = 0;         // inside library calls
static thread_local long  tl_nth = -1;        // countdown to failure
static thread_local long  tl_burst = 0;
static thread_local long  tl_failed = 0;
static thread_local u64   tl_calls = 0;
static u64 g_fill = 0, g_fillctr = 0;

// open-addressing set of live library blocks (malloc based, no operator new)
static void **g_tab = nullptr; static size_t g_cap = 0, g_used = 0, g_live = 0, g_bytes = 0;
static void *const TOMB = (void *)1;
static volatile int g_lock = 0;
static void lk() { while (__sync_lock_test_and_set(&g_lock, 1)) {} }
static void ulk() { __sync_lock_release(&g_lock); }
static size_t slot(void *p) { return size_t((u64(p) >> 4) * 0x9e3779b97f4a7c15ULL >> 20); }
static void tab_put(void *p) {
  if (g_used * 2 >= g_cap) {
    size_t nc = 1024; while (nc < g_live * 4 + 1024) nc *= 2;
    void **nt = (void **)calloc(nc, sizeof(void *)); size_t nu = 0;
    for (size_t i = 0; i < g_cap; ++i) if (g_tab[i] && g_tab[i] != TOMB) { size_t k = slot(g_tab[i]) & (nc - 1); while (nt[k]) k = (k + 1) & (nc - 1); nt[k] = g_tab[i]; ++nu; }
    free(g_tab); g_tab = nt; g_cap = nc; g_used = nu;
  }
  size_t k = slot(p) & (g_cap - 1);
  while (g_tab[k] && g_tab[k] != TOMB) k = (k + 1) & (g_cap - 1);
  if (!g_tab[k]) ++g_used;
  g_tab[k] = p; ++g_live; g_bytes += __sanitizer_get_allocated_size(p);
}
static void tab_del(void *p) {
  if (!g_cap) return;
  size_t k = slot(p) & (g_cap - 1);
  while (g_tab[k]) { if (g_tab[k] == p) { g_tab[k] = TOMB; --g_live; g_bytes -= __sanitizer_get_allocated_size(p); return; } k = (k + 1) & (g_cap - 1); }
}
long lib_live() { return long(g_live); }
long lib_bytes() { return long(g_bytes); }
// memory the library takes by other ways than operator new
static thread_local bool tl_quiet = false; // inside the bookkeeping itself, or inside operator new
static void on_malloc(const volatile void *p, size_t) { if (tl_lib > 0 && !tl_quiet && p) { tl_quiet = true; lk(); tab_put(const_cast<void *>(p)); ulk(); tl_quiet = false; } }
static void on_free(const volatile void *p) { if (g_live && !tl_quiet && p) { tl_quiet = true; lk(); tab_del(const_cast<void *>(p)); ulk(); tl_quiet = false; } }
void alloc_watch() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
void lib_forget() { lk(); if (g_tab) memset(g_tab, 0, g_cap * sizeof(void *)); g_used = g_live = g_bytes = 0; ulk(); }

void alloc_arm(long nth, long burst) { tl_nth = nth; tl_burst = burst; tl_failed = 0; }
long alloc_disarm() { tl_nth = -1; tl_burst = 0; long f = tl_failed; tl_failed = 0; return f; }
u64 alloc_calls() { return tl_calls; }
void alloc_fill(u64 seed) { g_fill = seed; g_fillctr = 0; }

static void *sim_alloc(size_t n, size_t al, bool nothrow) {
  bool lib = tl_lib > 0;
  if (lib) {
    ++tl_calls;
    if (tl_nth > 0) {
      if (tl_nth == 1) {
        ++tl_failed;
        if (--tl_burst <= 0) tl_nth = -1;
        if (nothrow) return nullptr;
        throw std::bad_alloc();
      }
      --tl_nth;
    }
  }
  if (n > (size_t(4) << 30)) { if (nothrow) return nullptr; throw std::bad_alloc(); } // the simulated machine has 4 GB
  bool q = tl_quiet; tl_quiet = true; void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); tl_quiet = q;
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (lib) {
    if (g_fill) {
      u64 x = mix2(g_fill, ++g_fillctr);
      static unsigned char const pats[8] = {0x00, 0xff, 0x7f, 0xaa, 0x41, 0xc0, 0x3f, 0x80};
      size_t m = n;
      if (x & 8) memset(p, pats[x & 7], m);
      else { unsigned char *c = (unsigned char *)p; u64 s = x; size_t i = 0; size_t lim = m < 4096 ? m : 4096; for (; i + 8 <= lim; i += 8) { u64 v = splitmix(s); memcpy(c + i, &v, 8); } for (; i < m; ++i) c[i] = (unsigned char)(x >> 16); }
    }
    q = tl_quiet; tl_quiet = true; lk(); tab_put(p); ulk(); tl_quiet = q;
    if (sched_active()) sched_yield_point();
  }
  return p;
}
static void sim_free(void *p) {
  if (!p) return;
  bool q = tl_quiet; tl_quiet = true; lk(); tab_del(p); ulk(); free(p); tl_quiet = q;
}

void stack_scribble(u64 seed) {
  volatile unsigned char buf[48 * 1024];
  u64 s = seed;
  for (size_t i = 0; i < sizeof buf; i += 8) { u64 v = splitmix(s); if ((seed & 3) == 1) v = 0x7ff0000000000001ULL; if ((seed & 3) == 2) v = 0x4059000000000000ULL; memcpy((void *)(buf + i), &v, 8); }
  asm volatile("" ::: "memory");
}

// ---------------------------------------------------------------- step/coverage seam
u64 step_limit = 400000000ULL;
static u64 g_steps = 0, g_step_stop = ~0ULL;
static u32 g_nguards = 0;
static u32 const MAXG = 1 << 17;
static unsigned char g_cnt[MAXG];
static unsigned char g_seen[MAXG];
u64 cov_steps() { return g_steps; }
void cov_reset() { memset(g_cnt, 0, g_nguards + 1); }
u64 cov_signature() {
  Hash h;
  for (u32 i = 1; i <= g_nguards; ++i) if (g_cnt[i]) {
    unsigned char c = g_cnt[i]; unsigned b = c >= 128 ? 8 : c >= 32 ? 7 : c >= 16 ? 6 : c >= 8 ? 5 : c >= 4 ? 4 : c;
    u64 v = u64(i) << 8 | b; h.h ^= v; h.h *= 0x100000001b3ULL; g_seen[i] = 1;
  }
  return h.h;
}
u32 cov_edges_total() { return g_nguards; }
u32 cov_edges_seen() { u32 n = 0; for (u32 i = 1; i <= g_nguards; ++i) n += g_seen[i]; return n; }

LibCall::LibCall() { if (tl_lib++ == 0 && !sched_active()) g_step_stop = g_steps + step_limit; }
LibCall::~LibCall() { --tl_lib; }

} // namespace sim

using namespace sim;

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; ++x) *x = g_nguards + 1 < MAXG ? ++g_nguards : 0;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  uint32_t i = *g;
  if (!i) return;
  if (g_cnt[i] != 255) ++g_cnt[i];
  if (++g_steps > g_step_stop) {
    static char const m[] = "SIM-HANG: a library call exceeded its step budget\n";
    (void)!write(2, m, sizeof m - 1); _exit(97);
  }
  if (tl_lib > 0 && sched_active()) sched_yield_point();
}

void *operator new(size_t n) { return sim_alloc(n, 0, false); }
void *operator new[](size_t n) { return sim_alloc(n, 0, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return sim_alloc(n, 0, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return sim_alloc(n, 0, true); }
void *operator new(size_t n, std::align_val_t a) { return sim_alloc(n, size_t(a), false); }
void *operator new[](size_t n, std::align_val_t a) { return sim_alloc(n, size_t(a), false); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { sim_free(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { sim_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_free(p); }
