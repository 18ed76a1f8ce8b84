// Entry point: seeded runs, single replays, trace generation.
#include "lib.hpp"
#include <chrono>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>

using namespace sim;
static int g_out = -1; // results go here; stdout is closed to the library's progress messages
static void emit(std::string const &s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(g_out, s.data() + o, s.size() - o); if (k <= 0) break; o += size_t(k); } }
static std::string jstr(std::string const &s) {
  std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch); else o += char(ch); } return o + "\"";
}
struct Result { bool viol = false; std::string cls, msg; u64 hash = 0; };
static Result execute(Property const &p, Trace const &t, Ctx &c) {
  Result r; cov_reset();
  try { p.exec(t, c); }
  catch (Violation const &v) { r.viol = true; r.cls = v.cls; r.msg = v.msg; }
  catch (std::exception const &e) { r.viol = true; r.cls = std::string(p.id) + "/unexpected-exception"; r.msg = std::string("a call that has to succeed failed: ") + e.what(); }
  alloc_disarm(); io_disarm(); alloc_fill(0);
  c.log.add(r.cls); r.hash = c.log.h; return r;
}
static Property const *find(std::string const &id) { for (auto &p : properties()) if (id == p.id) return &p; return nullptr; }
static u64 hash_of(std::string const &s) { Hash h; h.add(s); return h.h; }
static u64 run_seed(u64 base, std::string const &prop, u64 idx) { return mix2(mix2(base, hash_of(prop)), idx + 1); }

static Trace make(Property const &p, u64 seed, bool thorough) { Rng r(seed); return p.gen(r, thorough); }

int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) { if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  g_out = dup(1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
  if (mode == "list") { for (auto &p : properties()) emit(std::string(p.id) + "\t" + p.rule + "\n"); return 0; }
  Property const *p = find(a["--prop"]); if (!p) { emit("SIM-ERROR no such property\n"); return 98; }
  bool thorough = a["--thorough"] == "1"; set_scratch(a["--scratch"].empty() ? "/tmp" : a["--scratch"]);
  if (mode == "gen") { Trace t = make(*p, run_seed(strtoull(a["--base"].c_str(), 0, 10), p->id, strtoull(a["--idx"].c_str(), 0, 10)), thorough); emit(to_text(t)); return 0; }
  alloc_watch(); lib::warm_up(); lib::warm_up();
  if (mode == "exec") { // one or several traces, separated by lines "==="
    std::string txt; if (!get_file(a["--trace"], txt)) { emit("SIM-ERROR no trace\n"); return 98; }
    std::vector<std::string> parts(1); size_t i = 0; while (i < txt.size()) { size_t e = txt.find('\n', i); if (e == std::string::npos) e = txt.size(); std::string l = txt.substr(i, e - i); i = e + 1; if (l == "===") parts.emplace_back(); else parts.back() += l + "\n"; }
    Result r; std::map<std::string, u64> st;
    for (size_t k = 0; k < parts.size(); ++k) { Ctx c; c.stats = &st; c.verbose = a["--verbose"] == "1"; r = execute(*p, from_text(parts[k]), c); if (r.viol && k + 1 < parts.size()) { r.viol = false; r.cls = "early"; break; } }
    std::string sched; for (auto &x : st) if (a["--verbose"] == "1") fprintf(stderr, "    stat %s=%llu\n", x.first.c_str(), (unsigned long long)x.second);
    emit(fmt("{\"viol\":%s,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\"}\n", r.viol ? "true" : "false", jstr(r.cls).c_str(), jstr(r.msg).c_str(), (unsigned long long)r.hash)); return 0;
  }
  if (mode != "run") { emit("SIM-ERROR mode\n"); return 98; }
  u64 base = strtoull(a["--base"].c_str(), 0, 10), worker = strtoull(a["--worker"].c_str(), 0, 10), workers = strtoull(a["--workers"].c_str(), 0, 10), max = a.count("--max") ? strtoull(a["--max"].c_str(), 0, 10) : ~0ULL;
  double seconds = atof(a["--seconds"].c_str()); if (!workers) workers = 1;
  u64 *prog = nullptr; { int fd = open(a["--progress"].c_str(), O_RDWR | O_CREAT, 0600); if (fd >= 0 && ftruncate(fd, 64) == 0) prog = (u64 *)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (!prog || prog == MAP_FAILED) { emit("SIM-ERROR progress\n"); return 98; } close(fd); }
  auto t0 = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  std::map<std::string, u64> stats; std::set<u64> sigs, hashes; u64 runs = 0, nontriv = 0, oracles = 0, replays = 0, replay_bad = 0; double simt = 0; std::string samples; Result bad; u64 bad_idx = 0;
  u64 ops = 0;
  for (u64 k = 0; k < max; ++k) { // wall-clock only decides when to stop
    if (seconds > 0 && el() >= seconds) break;
    u64 idx = worker + k * workers; prog[0] = idx; prog[1] = k;
    Trace t = make(*p, run_seed(base, p->id, idx), thorough); ops += t.size();
    Ctx c; c.stats = &stats; Result r = execute(*p, t, c);
    ++runs; oracles += c.oracle_checks; simt += c.simtime;
    u64 sg = cov_signature(); if (c.nontrivial) { ++nontriv; sigs.insert(sg); }
    if (hashes.size() < 4000000) hashes.insert(r.hash);
    if (r.viol) { bad = r; bad_idx = idx; prog[2] = 1; break; }
    if (k % 40 == 7) { Ctx c2; std::map<std::string, u64> none; c2.stats = &none; Result r2 = execute(*p, t, c2); ++replays; if (r2.hash != r.hash) { Ctx c3; c3.stats = &none; if (execute(*p, t, c3).hash != r2.hash) ++replay_bad; } } // what is made once and kept settles by then
    if (c.nontrivial && worker == 0 && nontriv <= 2) { std::string tx = to_text(t); if (tx.size() > 1500) tx = tx.substr(0, 1500) + "..."; samples += (samples.empty() ? "" : ",") + jstr(tx); }
  }
  std::string o = fmt("{\"runs\":%llu,\"nontrivial\":%llu,\"oracle_checks\":%llu,\"simtime\":%.6f,\"ops\":%llu,\"replays\":%llu,\"replay_mismatch\":%llu,\"edges\":%u,\"edges_seen\":%u,\"steps\":%llu,\"distinct_outcomes\":%zu,\"wall\":%.3f,", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)oracles, simt, (unsigned long long)ops, (unsigned long long)replays, (unsigned long long)replay_bad, cov_edges_total(), cov_edges_seen(), (unsigned long long)cov_steps(), hashes.size(), el());
  o += "\"stats\":{"; bool first = true; for (auto &s : stats) { o += (first ? "" : ",") + jstr(s.first) + ":" + std::to_string(s.second); first = false; } o += "},\"samples\":[" + samples + "],\"rule\":" + jstr(p->rule) + ",";
  o += "\"sigs\":["; first = true; for (u64 s : sigs) { o += (first ? "" : ",") + fmt("\"%llx\"", (unsigned long long)s); first = false; } o += "],";
  o += fmt("\"viol\":%s,\"idx\":%llu,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\"}\n", bad.viol ? "true" : "false", (unsigned long long)bad_idx, jstr(bad.cls).c_str(), jstr(bad.msg).c_str(), (unsigned long long)bad.hash);
  emit(o); return 0;
}
