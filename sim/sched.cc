// Deterministic scheduler: real threads, exactly one of which runs; the seeded scheduler decides at
// every instrumented basic block and allocation inside a library call who runs next.
#include "core.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>

namespace sim {

struct Thr { sem_t sem; bool done = false; bool blocked = false; pthread_t tid; std::function<void()> const *body = nullptr; };
static std::vector<Thr> *g_thr = nullptr;
static bool g_active = false;
static thread_local int tl_id = -1;
static thread_local int tl_nopreempt = 0;
static SchedPlan g_plan; static SchedSeen g_seen;
static Rng g_rng(1); static u64 g_quantum = 0; static size_t g_script = 0;
static sem_t g_main;

bool sched_active() { return g_active && tl_id >= 0; }

static u64 draw_quantum() {
  switch (g_plan.style) {
  case 0: return 1 + g_rng.below(12);
  case 1: return 1 + g_rng.below(200);
  case 2: return 1 + g_rng.below(4000);
  case 3: return u64(g_rng.logu(1, 50000));
  default: return g_rng.chance(0.5) ? 1 + g_rng.below(6) : u64(g_rng.logu(50, 20000));
  }
}
static int runnable_pick(int self, bool allow_self) {
  std::vector<Thr> &t = *g_thr; int n = int(t.size()), c = 0; int cand[64];
  for (int i = 0; i < n && c < 64; ++i) if (!t[i].done && !t[i].blocked && (allow_self || i != self)) cand[c++] = i;
  if (!c) return -1;
  if (g_plan.scripted) return cand[0];
  return cand[g_rng.below(u64(c))];
}
static void hand_over(int self, int next, bool wait) {
  if (next == self) return;
  ++g_seen.switches;
  g_seen.order_hash = mix2(g_seen.order_hash, (g_seen.yields << 4) ^ u64(next));
  sem_post(&(*g_thr)[next].sem);
  if (wait) while (sem_wait(&(*g_thr)[self].sem) == EINTR) {}
}
void sched_yield_point() {
  if (!sched_active()) return;
  ++g_seen.yields;
  int self = tl_id;
  if (g_plan.scripted) {
    while (g_script < g_plan.script.size() && g_plan.script[g_script].first < g_seen.yields) ++g_script;
    if (g_script < g_plan.script.size() && g_plan.script[g_script].first == g_seen.yields && g_plan.script[g_script].second < 100) {
      int to = g_plan.script[g_script++].second;
      if (tl_nopreempt == 0 && to != self && to >= 0 && to < int(g_thr->size()) && !(*g_thr)[to].done && !(*g_thr)[to].blocked) {
        g_seen.made.emplace_back(g_seen.yields, to); hand_over(self, to, true);
      }
    }
    return;
  }
  if (g_quantum > 1) { --g_quantum; return; }
  if (tl_nopreempt) return;
  g_quantum = draw_quantum();
  int to = runnable_pick(self, true);
  if (to >= 0 && to != self) {
    if (g_seen.made.size() < 200000) g_seen.made.emplace_back(g_seen.yields, to);
    hand_over(self, to, true);
  }
}

static void *entry(void *arg) {
  int id = int(size_t(arg));
  Thr &t = (*g_thr)[id];
  while (sem_wait(&t.sem) == EINTR) {}
  tl_id = id;
  (*t.body)();
  tl_id = -1;
  t.done = true;
  int nx = -1; int n = int(g_thr->size());
  if (g_plan.scripted) { // who runs when a thread ends is part of the script (thread + 100)
    while (g_script < g_plan.script.size() && g_plan.script[g_script].first < g_seen.yields) ++g_script;
    if (g_script < g_plan.script.size() && g_plan.script[g_script].first == g_seen.yields && g_plan.script[g_script].second >= 100) { nx = g_plan.script[g_script++].second - 100; if (nx >= n || (*g_thr)[nx].done) nx = -1; }
    if (nx < 0) for (int i = 0; i < n; ++i) if (!(*g_thr)[i].done && !(*g_thr)[i].blocked) { nx = i; break; }
  }
  else nx = runnable_pick(id, false);
  if (nx >= 0 && g_seen.made.size() < 200000) g_seen.made.emplace_back(g_seen.yields, nx + 100);
  if (nx >= 0) { ++g_seen.switches; sem_post(&(*g_thr)[nx].sem); }
  else {
    bool all = true; for (auto &x : *g_thr) all = all && x.done;
    if (!all) g_seen.deadlock = true;
    sem_post(&g_main);
  }
  return nullptr;
}

SchedSeen run_threads(std::vector<std::function<void()>> const &bodies, SchedPlan const &p) {
  std::vector<Thr> thr(bodies.size());
  g_thr = &thr; g_plan = p; g_seen = SchedSeen(); g_rng = Rng(p.seed); g_quantum = draw_quantum(); g_script = 0;
  g_seen.made.reserve(200000); // never grows inside a yield point, where an allocation would be one of the library
  sem_init(&g_main, 0, 0);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
  for (size_t i = 0; i < thr.size(); ++i) { sem_init(&thr[i].sem, 0, 0); thr[i].body = &bodies[i]; }
  for (size_t i = 0; i < thr.size(); ++i) if (pthread_create(&thr[i].tid, &at, entry, (void *)i)) { fprintf(stderr, "SIM-ERROR thread\n"); _exit(98); }
  g_active = true;
  { LibCall budget; } // start a fresh step budget for the whole concurrent phase
  sem_post(&thr[0].sem);
  while (sem_wait(&g_main) == EINTR) {}
  if (g_seen.deadlock) { static char const m[] = "SIM-HANG: deadlock between simulated threads\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
  g_active = false;
  for (auto &t : thr) pthread_join(t.tid, nullptr);
  for (auto &t : thr) sem_destroy(&t.sem);
  g_thr = nullptr;
  return g_seen;
}

// blocking primitives inside library code: a parked thread may hold them, so the simulator waits by
// running someone else.
static void block_until(std::function<bool()> const &tryit) {
  int self = tl_id; int spins = 0;
  while (!tryit()) {
    if (++spins > 1000000) { static char const m[] = "SIM-HANG: deadlock on a lock between simulated threads\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
    int to = -1; // round robin, so that every holder gets to release
    for (int k = 1, n = int(g_thr->size()); k < n && to < 0; ++k) if (!(*g_thr)[(self + k) % n].done) to = (self + k) % n;
    if (to < 0) { static char const m[] = "SIM-HANG: thread waits for a lock nobody can release\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
    hand_over(self, to, true);
  }
}
} // namespace sim
using namespace sim;
template <class F> static F rl(char const *n, F &s) { if (!s) s = F(dlsym(RTLD_NEXT, n)); return s; }
typedef int (*mx_t)(pthread_mutex_t *); static mx_t p_lock, p_try;
typedef int (*rw_t)(pthread_rwlock_t *); static rw_t p_rd, p_wr, p_tryrd, p_trywr;
typedef int (*once_t)(pthread_once_t *, void (*)()); static once_t p_once;
typedef int (*ga_t)(void *); typedef void (*gr_t)(void *); static ga_t p_ga; static gr_t p_gr, p_gab;

extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!sched_active()) return rl("pthread_mutex_lock", p_lock)(m);
  int r = 0; block_until([&] { r = rl("pthread_mutex_trylock", p_try)(m); return r != EBUSY; }); return r;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!sched_active()) return rl("pthread_rwlock_rdlock", p_rd)(m);
  int r = 0; block_until([&] { r = rl("pthread_rwlock_tryrdlock", p_tryrd)(m); return r != EBUSY; }); return r;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!sched_active()) return rl("pthread_rwlock_wrlock", p_wr)(m);
  int r = 0; block_until([&] { r = rl("pthread_rwlock_trywrlock", p_trywr)(m); return r != EBUSY; }); return r;
}
extern "C" int pthread_once(pthread_once_t *o, void (*f)()) {
  ++tl_nopreempt; int r = rl("pthread_once", p_once)(o, f); --tl_nopreempt; return r;
}
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(void *g) {
  int r = rl("__cxa_guard_acquire", p_ga)(g); if (r) ++tl_nopreempt; return r;
}
extern "C" void __cxa_guard_release(void *g) { rl("__cxa_guard_release", p_gr)(g); --tl_nopreempt; }
extern "C" void __cxa_guard_abort(void *g) { rl("__cxa_guard_abort", p_gab)(g); --tl_nopreempt; }
}
