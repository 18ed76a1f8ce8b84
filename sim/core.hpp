// Core of the simulator: PRNG, traces, statistics, seams (allocator, file I/O, scheduler).
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- PRNG
inline u64 splitmix(u64 &s) {
  u64 z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline u64 mix2(u64 a, u64 b) { u64 s = a ^ (b * 0x9e3779b97f4a7c15ULL + 0x7f4a7c15ULL); splitmix(s); return splitmix(s); }

struct Rng {
  u64 s[4];
  explicit Rng(u64 seed = 1) { for (int i = 0; i < 4; ++i) s[i] = splitmix(seed); }
  u64 next() {
    auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
    u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + long(below(u64(b - a + 1))); } // inclusive
  double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  template <class T> T const &pick(std::vector<T> const &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- hashing
struct Hash {
  u64 h = 0xcbf29ce484222325ULL;
  void bytes(void const *p, size_t n) { unsigned char const *c = (unsigned char const *)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ULL; } }
  void add(u64 v) { bytes(&v, 8); }
  void add(double d) { u64 v; std::memcpy(&v, &d, 8); if (d != d) v = 0x7ff8000000000000ULL; add(v); }
  void add(std::string const &s) { bytes(s.data(), s.size()); add(u64(s.size())); }
};

// ---------------------------------------------------------------- traces
struct Op {
  std::string n;
  std::vector<std::pair<std::string, std::string>> kv;
  Op() {}
  explicit Op(std::string const &name) : n(name) {}
  bool has(std::string const &k) const { for (auto &p : kv) if (p.first == k) return true; return false; }
  std::string s(std::string const &k, std::string const &d = "") const { for (auto &p : kv) if (p.first == k) return p.second; return d; }
  double d(std::string const &k, double def = 0) const { for (auto &p : kv) if (p.first == k) return std::strtod(p.second.c_str(), nullptr); return def; }
  long i(std::string const &k, long def = 0) const { for (auto &p : kv) if (p.first == k) return std::strtol(p.second.c_str(), nullptr, 10); return def; }
  u64 u(std::string const &k, u64 def = 0) const { for (auto &p : kv) if (p.first == k) return std::strtoull(p.second.c_str(), nullptr, 10); return def; }
  Op &set(std::string const &k, std::string const &v) { for (auto &p : kv) if (p.first == k) { p.second = v; return *this; } kv.emplace_back(k, v); return *this; }
  Op &set(std::string const &k, char const *v) { return set(k, std::string(v)); }
  Op &set(std::string const &k, double v) { char b[64]; if (v == std::floor(v) && std::fabs(v) < 1e9) snprintf(b, 64, "%.0f", v); else snprintf(b, 64, "%a", v); return set(k, std::string(b)); }
  Op &set(std::string const &k, long v) { return set(k, std::to_string(v)); }
  Op &set(std::string const &k, int v) { return set(k, std::to_string(v)); }
  Op &set(std::string const &k, u64 v) { return set(k, std::to_string(v)); }
};
typedef std::vector<Op> Trace;
std::string to_text(Trace const &t);
Trace from_text(std::string const &s);

// ---------------------------------------------------------------- violations and statistics
struct Violation { std::string cls, msg; };
[[noreturn]] void violate(std::string const &cls, std::string const &msg);
std::string fmt(char const *f, ...) __attribute__((format(printf, 1, 2)));

struct Ctx {               // one execution of one trace
  Hash log;                // hash of everything observed
  bool verbose = false;    // print the event log
  std::map<std::string, u64> *stats = nullptr;
  bool nontrivial = false; // set by the property when the run exercised what it is about
  double simtime = 0;      // simulated seconds
  u64 oracle_checks = 0;   // oracle comparisons made
  void st(std::string const &k, u64 n = 1) { if (stats) (*stats)[k] += n; }
  void ev(std::string const &line) { log.add(line); if (verbose) { fprintf(stderr, "  %s\n", line.c_str()); } }
};

struct Property {
  char const *id;
  char const *rule; // how cases are made, what is non-trivial
  Trace (*gen)(Rng &rng, bool thorough);
  void (*exec)(Trace const &t, Ctx &c);
};
std::vector<Property> const &properties();

// ---------------------------------------------------------------- seams: library calls
// Every call into the code under test is made inside a LibCall scope: allocations are attributed
// to the library, allocation failures may fire, and the work (basic blocks) is bounded.
struct LibCall {
  LibCall();
  ~LibCall();
};

// allocator seam ----------------------------------------------------
void alloc_arm(long nth, long burst = 1); // the nth allocation made from now inside library calls of this thread fails (and burst-1 more)
long alloc_disarm();                      // returns how many allocations were failed since arm
u64 alloc_calls();                        // allocations made inside library calls of this thread so far
void alloc_fill(u64 seed);                // contents given to fresh memory (0: leave as is)
long lib_bytes();                         // and their size
long lib_live();                          // live blocks that were allocated inside library calls
void alloc_watch();                       // count malloc, strdup and the like too
void lib_forget();                        // start tracking afresh
void stack_scribble(u64 seed);            // overwrite dead stack below the caller

// step/coverage seam -------------------------------------------------
u64 cov_steps();                  // basic-block edges executed so far
void cov_reset();                 // forget per-run counters
u64 cov_signature();              // hash of the bucketed per-run edge counts
u32 cov_edges_total();            // instrumented edges
u32 cov_edges_seen();             // edges seen since process start
extern u64 step_limit;            // per library call

// file seam ----------------------------------------------------------
struct IoPlan {
  int  open_errno = 0;        // opening fails with this errno
  long eio_read_at = -1;      // reads fail with EIO once the offset is reached
  long trunc_at = -1;         // reads see end of file here
  int  chunk = 0;             // reads/writes deliver at most this many bytes (0: as asked)
  u64  chunk_seed = 0;        // vary the chunk
  int  eintr_every = 0;       // every n-th read/write is interrupted
  long write_fail_at = -1;    // writes fail once the offset is reached
  int  write_errno = 28;      // ENOSPC
  int  close_errno = 0;       // fclose/close reports this
  int  rename_errno = 0;      // moving a file fails with this
};
struct IoSeen { long reads = 0, shorts = 0, eintrs = 0, eios = 0, truncs = 0, open_fails = 0, writes = 0, write_fails = 0, close_fails = 0, rename_fails = 0, opens = 0, bytes = 0; };
void io_arm(IoPlan const &p); // applies to files under the scratch directory opened from now on
IoSeen io_disarm();
std::string const &scratch(); // scratch directory of this process
void set_scratch(std::string const &);
void put_file(std::string const &path, std::string const &data); // bypasses the seam
bool get_file(std::string const &path, std::string &data);
void del_file(std::string const &path);

// scheduler seam -----------------------------------------------------
struct SchedPlan {
  u64 seed = 0;
  int style = 0;                                // preemption density
  std::vector<std::pair<u64, int>> script;      // explicit preemptions (yield number, thread)
  bool scripted = false;
};
struct SchedSeen { u64 yields = 0, switches = 0; std::vector<std::pair<u64, int>> made; u64 order_hash = 0; bool deadlock = false; };
SchedSeen run_threads(std::vector<std::function<void()>> const &bodies, SchedPlan const &p);
bool sched_active();
void sched_yield_point();

} // namespace sim
#endif
