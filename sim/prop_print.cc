// Reports printed to the user's stream: C22
#include "props.hpp"
#include <algorithm>
#include <cstdlib>

namespace sim {
static void add3(std::vector<double> &v, V3 x) { v.push_back(x.x); v.push_back(x.y); v.push_back(x.z); }
// the numbers of a report, in order (labels such as V0 are skipped)
static std::vector<double> numbers(std::string const &s) {
  std::vector<double> v; char const *b = s.c_str(), *e = b + s.size();
  for (char const *p = b; p < e;) {
    unsigned char prev = p == b ? ' ' : static_cast<unsigned char>(p[-1]); bool in_word = std::isalnum(prev) || prev == '_' || prev >= 0x80 || prev == '.'; char ch = *p;
    if (!in_word && (std::isdigit(static_cast<unsigned char>(ch)) || ch == '-' || ch == '+' || ch == 'n' || ch == 'i' || ch == '.')) { char *q = nullptr; double x = std::strtod(p, &q); if (q > p) { v.push_back(x); p = q; continue; } }
    ++p;
  }
  return v;
}
// do the wanted values stand in the report, in their order? -1, or the first that does not
static long first_missing(std::vector<double> const &got, std::vector<double> const &want) {
  size_t k = 0; for (size_t i = 0; i < want.size(); ++i) { auto like = [&](double g) { double w = want[i]; if (w != w) return g != g; if (std::isinf(w)) return g == w; return std::fabs(g - w) <= 1.01e-5 * std::fabs(w) + 1e-300; }; while (k < got.size() && !like(got[k])) ++k; if (k == got.size()) return long(i); ++k; }
  return -1;
}
static std::vector<double> want_shape(Shape const &s) { return {s.rx, s.mx, s.ry, s.my, s.ly}; }
static std::vector<double> want_shell(lib::Shell const &s, Shape const &sh) {
  std::vector<double> v = want_shape(sh); size_t n = s.size(); Out o = s.out(); std::vector<Out> r; for (size_t i = 0; i < n; ++i) r.push_back(s.out(i));
  for (size_t i = 0; i < n; ++i) { ref::Rib b = s.rib(i); v.push_back(double(i)); add3(v, s.rib_center(i)); v.push_back(b.R); v.push_back(b.W); v.push_back(s.rib_angle(i)); }
  V3 e = s.euler(); v.push_back(sh.rx); v.push_back(e.y / M_PI); v.push_back(e.z / M_PI); v.push_back(e.x / M_PI);
  auto vec = [&](V3 Out::*f) { add3(v, o.*f); for (size_t i = 0; i < n; ++i) { v.push_back(double(i)); add3(v, r[i].*f); } }; auto val = [&](double Out::*f) { v.push_back(o.*f); for (size_t i = 0; i < n; ++i) { v.push_back(double(i)); v.push_back(r[i].*f); } };
  vec(&Out::p); vec(&Out::n); val(&Out::fr); val(&Out::depth); val(&Out::area); val(&Out::vol);
  auto frame = [&](Pose const &p) { double m[16] = {p.ex.x, p.ey.x, p.ez.x, p.o.x, p.ex.y, p.ey.y, p.ez.y, p.o.y, p.ex.z, p.ey.z, p.ez.z, p.o.z, 0, 0, 0, 1}; v.insert(v.end(), m, m + 16); };
  frame(s.pose()); frame(s.affine()); add3(v, (1 / M_PI) * s.rel()); for (size_t i = 0; i < n; ++i) { v.push_back(double(i)); add3(v, (1 / M_PI) * s.rel(i)); }
  return v;
}
typedef std::function<void(lib::Sink &)> Print;
static void judge(Ctx &c, Op const &op, std::string const &what, Print const &print, std::vector<double> const &want, std::function<std::vector<double>()> const &state) {
  std::vector<double> before = state(); lib::Sink full; full.precision = op.i("prec", 6); full.cap = std::max(1L << 17, 64 * long(want.size()));
  auto good = [&](lib::Sink &k, char const *when) {
    Res r = lib::guarded(0, 0, [&] { print(k); }); c.oracle_checks += want.size(); if (!r.ok || k.failed) violate("C22/refused", fmt("a report of a %s %s fails: %s", what.c_str(), when, r.what.c_str()));
    std::vector<double> got = numbers(k.text); long m = first_missing(got, want); if (m >= 0) violate("C22/" + what, fmt("value %ld of a report of a %s %s is not %.9g as its getter says", m, what.c_str(), when, want[size_t(m)]));
  };
  good(full, "to a good stream"); long len = long(full.text.size()); if (!len) violate("C22/" + what, "a report is empty");
  bool cut = op.has("room"); long fail = op.i("fail");
  if (cut || fail) {
    lib::Sink bad; bad.precision = full.precision; bad.cap = full.cap; bad.room = cut ? std::min(len - 1, long(op.d("room") * double(len))) : -1; bad.throws = op.i("throws") != 0; bad.exceptions = op.i("exc") != 0; bad.gap = cut ? op.i("gap") : 0; if (cut) c.st(bad.gap ? "fault_stream_passing" : "fault_stream");
    Res r = lib::guarded(fail, op.i("burst", 1), [&] { print(bad); }); if (r.failed) c.st("fault_alloc", u64(r.failed)); c.oracle_checks += 2; bool hit = cut || r.failed;
    if (!hit && (!r.ok || bad.failed)) violate("C22/refused", "a report to a good stream fails: " + r.what);
    if (r.ok && !bad.failed && (cut || first_missing(numbers(bad.text), want) >= 0)) violate("C22/cut", fmt("a report of a %s cut short after %zu of %ld bytes is taken for complete", what.c_str(), bad.text.size(), len));
    if (!r.failed && !bad.gap && full.text.compare(0, bad.text.size(), bad.text)) violate("C22/cut", fmt("the part of a report of a %s that a failing stream took is another text", what.c_str()));
    lib::Sink again; again.precision = full.precision; again.cap = full.cap; good(again, "after one that failed"); if (again.text != full.text) violate("C22/again", fmt("a report of a %s after one that failed is another text", what.c_str()));
  }
  size_t w = 0; if (!same_bits(state(), before, &w)) violate("C22/changed", fmt("printing a %s changes it", what.c_str())); c.ev("print " + what + fmt(" %ld", len)); c.log.add(full.text); c.st("reports");
}
static V3 some(Rng &q, double sc) { auto f = [&] { double u = q.uni(); return u < 0.1 ? 0.0 : u < 0.2 ? double(q.range(-9, 9)) : sc * q.uni(-1, 1); }; double a = f(), b = f(), d = f(); return V3(a, b, d); }
static Trace gen22(Rng &r, bool th) {
  GenOpt g; g.thorough = th; g.max_ops = th ? 24 : 10; g.flat = r.chance(0.6); g.p_flat = 0.4; g.p_sampling = 0.4; g.p_resize = 0.15; g.p_move = 0.2; g.p_fail = 0.05; Trace d, t; gen_drive(r, g, d); if (r.chance(0.06)) for (auto &op : d) if (op.n == "shell" || (op.n == "resize" && r.chance(0.4))) op.set("n", r.range(41, 400));
  auto put = [&] {
    Op o("print"); double u = r.uni(); o.set("what", u < 0.5 ? "shell" : u < 0.58 ? "shape" : u < 0.68 ? "plane" : u < 0.8 ? "triangle" : u < 0.86 ? "tree" : "entity").set("s", r.range(0, 2)).set("kind", r.below(11)).set("seed", r.next() >> 2).set("sc", r.chance(0.6) ? 1.0 : r.logu(1e-9, 1e9)).set("form", r.below(3));
    if (r.chance(0.3)) o.set("prec", r.range(6, 17)); if (r.chance(0.6)) o.set("room", r.chance(0.15) ? 0.0 : r.chance(0.15) ? 1.0 : r.uni()).set("throws", long(r.chance(0.3))).set("exc", long(r.chance(0.3))).set("gap", r.chance(0.5) ? 0L : r.range(1, 3)); if (r.chance(0.3)) o.set("fail", r.chance(0.5) ? r.range(1, 8) : r.range(1, 90)).set("burst", r.chance(0.7) ? 1L : 500L);
    t.push_back(o);
  };
  for (auto &op : d) { t.push_back(op); if (r.chance(0.6)) put(); }
  put(); return t;
}
static void exec22(Trace const &t, Ctx &c) {
  World w(c, 0, "C22"); u64 reports = 0;
  for (auto &op : t) {
    if (op.n != "print") { w.apply(op); continue; }
    std::string what = op.s("what"); Rng q(op.u("seed", 1)); double sc = op.d("sc", 1); V3 a = some(q, sc), b = some(q, sc), d = some(q, sc); long id = q.range(-5, 900); double mu = q.uni(0, 1.5); int form = int(op.i("form"));
    if (what == "shell" && !w.shells.empty()) {
      auto it = w.shells.find(op.i("s")); if (it == w.shells.end()) it = w.shells.begin(); lib::Shell &s = it->second.s;
      judge(c, op, it->second.stepped ? "shell" : "shell-unused", [&](lib::Sink &k) { s.print(k); }, want_shell(s, it->second.sh), [&] { return snapshot(s, it->second.last, false); }); if (it->second.stepped) ++reports;
    } else if (what == "shape" && !w.shells.empty()) {
      Shape sh = w.shells.begin()->second.sh; double five[5] = {sh.rx, sh.mx, sh.ry, sh.my, sh.ly}; lib::ShapePart p(five); judge(c, op, "shape", [&](lib::Sink &k) { p.print(k); }, want_shape(sh), [&] { return p.view(); });
      for (int k = 0, m = int(q.range(0, 2)); k < m; ++k) { // the same shape again, changed
        if (q.chance(0.3)) { double six[5] = {sh.rx * q.uni(0.8, 1.2), sh.mx, sh.ry, sh.my, sh.ly * q.uni(0.9, 1)}; p.copy(lib::ShapePart(six)); } else { int i = int(q.below(4)); p.set(i, p.view()[size_t(i)] * q.uni(1.05, 1.3)); }
        std::vector<double> v = p.view(); v.resize(5); judge(c, op, "shape", [&](lib::Sink &z) { p.print(z); }, v, [&] { return p.view(); }); }
    } else if (what == "plane") {
      if (!(b.z > 1e-6)) b.z = 1; lib::Flat f(mu, a, b, form); auto view = [&] { ref::Flat x = f.view(); std::vector<double> v = {x.mu}; add3(v, x.o); add3(v, x.n); return v; }; judge(c, op, "plane", [&](lib::Sink &k) { f.print(k); }, view(), view);
      for (int k = 0, m = int(q.range(0, 2)); k < m; ++k) { if (q.chance(0.4)) f.translate(some(q, sc)); else if (q.chance(0.5)) f.set(q.uni(0, 1.5), d, a.z > 1e-6 ? a : V3(0, 0.1, 1)); else f.assign(lib::Flat(q.uni(0, 1.5), d, V3(0.1, 0.1, 1))); judge(c, op, "plane", [&](lib::Sink &z) { f.print(z); }, view(), view); }
    } else if (what == "triangle") {
      lib::Part p(id, mu, a, b, d, form); auto view = [&] { lib::TriView x = p.view(); std::vector<double> v = {double(x.id), x.mu}; for (V3 y : x.v) add3(v, y); add3(v, x.n); add3(v, x.b.hi); add3(v, x.b.lo); return v; }; judge(c, op, "triangle", [&](lib::Sink &k) { p.print(k); }, view(), view);
      for (int k = 0, m = int(q.range(0, 2)); k < m; ++k) { if (q.chance(0.3)) p.translate(some(q, sc)); else if (q.chance(0.3)) p.swap(0, int(q.range(1, 2))); else if (q.chance(0.5)) p.rotate(q.uni(-3, 3), V3(0, 0, 1)); else p.copy(lib::Part(q.range(-5, 900), q.uni(0, 1.5), d, a, b)); judge(c, op, "triangle", [&](lib::Sink &z) { p.print(z); }, view(), view); }
    } else if (what == "tree") {
      lib::Tree tr;
      for (int turn = 0, m = int(q.range(1, 3)); turn < m; ++turn) { // the same tree, built again
        std::vector<Box> bs; size_t n = size_t(q.range(0, 9)); Box all; for (size_t i = 0; i < n; ++i) { Box x; V3 l = some(q, sc), e(q.uni(0, sc), q.uni(0, sc), q.uni(0, sc)); x.lo = l; x.hi = l + e; bs.push_back(x); if (!i) all = x; else { all.lo = V3(std::min(all.lo.x, x.lo.x), std::min(all.lo.y, x.lo.y), std::min(all.lo.z, x.lo.z)); all.hi = V3(std::max(all.hi.x, x.hi.x), std::max(all.hi.y, x.hi.y), std::max(all.hi.z, x.hi.z)); } }
        tr.build(bs); std::vector<double> v; if (n) { add3(v, all.lo); add3(v, all.hi); } judge(c, op, "tree", [&](lib::Sink &k) { tr.print(k); }, v, [] { return std::vector<double>(); });
        lib::Sink k; tr.print(k); std::vector<double> got = numbers(k.text); for (auto &x : bs) { std::vector<double> y; add3(y, x.lo); add3(y, x.hi); ++c.oracle_checks; if (first_missing(got, y) >= 0) violate("C22/tree", fmt("a report of a tree of %zu boxes lacks one", n)); }
      }
    } else if (what == "entity") {
      int kind = int(op.i("kind")); std::vector<double> v; lib::Sink k0; lib::print_entity(kind, a, b, d, k0, v); static char const *names[] = {"point", "vector", "line", "ray", "plane-entity", "segment", "triangle-entity", "disk", "ball", "box", "affine"};
      judge(c, op, names[kind % 11], [&](lib::Sink &k) { std::vector<double> x; lib::print_entity(kind, a, b, d, k, x); }, v, [] { return std::vector<double>(); });
      if (q.chance(0.5)) judge(c, op, names[kind % 11], [&](lib::Sink &k) { std::vector<double> x; lib::print_entity(kind, b, d, a, k, x); }, (lib::print_entity(kind, b, d, a, k0, v), v), [] { return std::vector<double>(); });
    } else continue;
    c.nontrivial = c.nontrivial || reports > 0;
  }
  w.finish(); c.log.add(reports); if (!reports) c.nontrivial = false;
}
void add_print(std::vector<Property> &v) {
  v.push_back(Property{"C22", "a drive with steps, resizes and hand moves, after each of which a shell, shape, plane, ground triangle, box tree or entity is printed to a good stream, to one that refuses bytes from a random position on (returning or throwing), and with failing allocations; every number is compared with the getters; non-trivial if a shell was printed after a step", gen22, exec22});
}
} // namespace sim
