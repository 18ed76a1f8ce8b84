// Box trees and entity collections through histories of operations: C18 C19
#include "props.hpp"
#include <algorithm>
#include <set>

namespace sim {
// ================================================================ C18
static std::vector<Box> boxes_of(Op const &op) {
  Rng q(op.u("seed", 1)); long n = op.i("n"), kind = op.i("kind"); std::vector<Box> b; std::vector<V3> lo, hi;
  V3 base(q.uni(-2, 2), q.uni(-2, 2), q.uni(-2, 2)); double sc = op.d("sc", 1), sz = op.d("sz", 0.3); int ax = int(q.below(3));
  auto at = [](V3 &v, int k) -> double & { return k == 0 ? v.x : k == 1 ? v.y : v.z; };
  for (long i = 0; i < n; ++i) {
    V3 l, h;
    switch (kind) {
    case 0: l = V3(q.uni(-1, 1), q.uni(-1, 1), q.uni(-1, 1)); h = l + V3(q.uni(0, sz), q.uni(0, sz), q.uni(0, sz)); break;
    case 1: l = V3(double(q.range(-3, 3)), double(q.range(-3, 3)), double(q.range(-3, 3))); h = l + V3(double(q.range(0, 2)), double(q.range(0, 2)), double(q.range(0, 2))); break; // touching
    case 2: { double s = double(i + 1) / double(n); l = V3(-s, -s, -s); h = V3(s, s, s); break; } // nested
    case 3: l = V3(0, 0, 0); h = V3(1, 1, q.chance(0.3) ? 0.5 : 1); break; // coincident
    case 4: l = V3(q.uni(-1, 1), q.uni(-1, 1), q.uni(-1, 1)); h = l; if (q.chance(0.5)) at(h, int(q.below(3))) += q.uni(0, sz * 3); break; // flat, lines, points
    case 5: l = V3(); at(l, ax) = double(i) * (q.chance(0.1) ? 0.9 : 1.0); h = l + V3(1, 1, 1); break; // a row
    case 6: { double s = std::ldexp(1.0, -int(i % 40)); l = V3(s, 0, s * 0.5); h = V3(s * 1.5, s, s); break; } // geometric: one split off at a time
    default: l = V3(q.uni(-1, 1), q.uni(-1, 1), 0); h = l + V3(q.uni(0, sz), q.uni(0, sz), 0); break; // a sheet
    }
    if (kind != 1 || op.i("shift")) { l = sc * l + base; h = sc * h + base; }
    if (q.chance(0.1)) std::swap(l.x, h.x); if (q.chance(0.1)) std::swap(l.z, h.z); // corners in any order
    Box x; x.lo = l; x.hi = h; b.push_back(x);
  }
  return b;
}
static Box ordered(Box b) { for (int k = 0; k < 3; ++k) { double &l = k == 0 ? b.lo.x : k == 1 ? b.lo.y : b.lo.z, &h = k == 0 ? b.hi.x : k == 1 ? b.hi.y : b.hi.z; if (h < l) std::swap(l, h); } return b; }
static bool meet(Box const &a, Box const &b) { return a.lo.x <= b.hi.x && b.lo.x <= a.hi.x && a.lo.y <= b.hi.y && b.lo.y <= a.hi.y && a.lo.z <= b.hi.z && b.lo.z <= a.hi.z; }
typedef std::vector<std::pair<long, long>> Pairs;
static Pairs brute(std::vector<Box> const &a, std::vector<Box> const &b) { Pairs p; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (meet(a[i], b[j])) p.emplace_back(long(i), long(j)); return p; }
static std::string pair_diff(Pairs got, Pairs const &want) {
  std::sort(got.begin(), got.end());
  for (size_t i = 0; i + 1 < got.size(); ++i) if (got[i] == got[i + 1]) return fmt("the pair (%ld, %ld) is listed twice", got[i].first, got[i].second);
  for (auto &p : want) if (!std::binary_search(got.begin(), got.end(), p)) return fmt("the pair (%ld, %ld) is missing", p.first, p.second);
  for (auto &p : got) if (!std::binary_search(want.begin(), want.end(), p)) return fmt("the pair (%ld, %ld) does not overlap", p.first, p.second);
  return "";
}
static Trace gen18(Rng &r, bool th) {
  Trace t; int n = int(r.range(3, th ? 30 : 16)); long slots = r.range(2, 3); long fam = r.chance(0.5) ? r.range(0, 7) : -1; u64 same = r.next() >> 2; double sc = r.chance(0.8) ? 1 : r.logu(1e-6, 1e6);
  for (int i = 0; i < n; ++i) {
    double u = r.uni(); long s = r.range(0, slots - 1), o = r.chance(0.12) ? s : r.range(0, slots - 1);
    if (i < slots || u < 0.35) {
      Op b("build"); double v = r.uni(); b.set("s", i < slots ? long(i) : s).set("n", v < 0.06 ? 0L : v < 0.14 ? 1L : v < 0.3 ? r.range(2, 4) : v < 0.9 ? r.range(5, 60) : v < 0.99 ? r.range(61, th ? 700 : 250) : r.range(700, 2500)).set("kind", fam >= 0 && r.chance(0.8) ? fam : r.range(0, 7)).set("seed", r.chance(0.4) ? same : r.next() >> 2).set("sc", sc).set("sz", r.logu(0.01, 2));
      if (r.chance(0.35)) b.set("fail", r.chance(0.6) ? r.range(1, 12) : r.range(1, 300)).set("burst", r.chance(0.7) ? 1L : r.range(2, 40)); t.push_back(b);
    }
    else if (u < 0.72) { Op p("pairs"); p.set("s", s).set("o", o); if (r.chance(0.12)) p.set("fail", r.range(1, 6)); if (r.chance(0.4)) p.set("swap", long(r.below(2))); t.push_back(p); }
    else if (u < 0.88) { Op p("collide"); p.set("s", s).set("o", o).set("seed", r.next() >> 2).set("one", r.chance(0.7) ? r.range(1, 40) : 0L); if (r.chance(0.4)) p.set("swap", long(r.below(2))); t.push_back(p); }
    else { Op p("clear"); p.set("s", s); t.push_back(p); }
  }
  Op p("pairs"); p.set("s", 0L).set("o", 1L); t.push_back(p); return t;
}
static void exec18(Trace const &t, Ctx &c) {
  struct Slot { lib::Tree t; std::vector<Box> b; }; std::map<long, Slot> sl;
  for (auto &op : t) {
    Slot &s = sl[op.i("s")];
    if (op.n == "build") {
      std::vector<Box> b = boxes_of(op), w; for (auto &x : b) w.push_back(ordered(x));
      Res r = lib::guarded(op.i("fail", 0), op.i("burst", 1), [&] { s.t.build(b); }); c.ev(fmt("build %ld boxes: %s", long(b.size()), r.ok ? "ok" : r.what.c_str())); if (r.failed) c.st("fault_alloc", u64(r.failed));
      if (r.ok) s.b = w; else {
        if (!r.failed) violate("C18/build", "building a tree failed: " + r.what);
        c.st("builds_failed_oom"); c.nontrivial = true; // the old tree, or an empty one
        if (s.t.empty()) s.b.clear(); else { Pairs got, want = brute(s.b, s.b); s.t.pairs(s.t, got); std::string d = pair_diff(got, want); ++c.oracle_checks; if (!d.empty()) violate("C18/after-failed-build", "after a build that ran out of memory the tree is neither empty nor as before: " + d); }
      }
      ++c.oracle_checks; if (s.t.empty() != s.b.empty()) violate("C18/empty", fmt("a tree of %zu boxes says %s", s.b.size(), s.t.empty() ? "empty" : "not empty"));
    }
    else if (op.n == "clear") { s.t.clear(); s.b.clear(); ++c.oracle_checks; if (!s.t.empty()) violate("C18/empty", "a cleared tree is not empty"); c.ev("clear"); }
    else if (op.n == "pairs") {
      Slot &o = sl[op.i("o")]; Pairs got, want = brute(s.b, o.b); int sw = int(op.i("swap", -1)); Res r = lib::guarded(op.i("fail", 0), 1, [&] { s.t.pairs(o.t, got, sw); }); if (r.failed) c.st("fault_alloc", u64(r.failed));
      if (!r.ok) { if (!r.failed) violate("C18/pairs", "intersecting trees failed: " + r.what); got.clear(); s.t.pairs(o.t, got, sw); }
      if (sw == 1) for (auto &x : got) std::swap(x.first, x.second); // asked for the other way round
      ++c.oracle_checks; c.st("pairs", want.size()); c.ev(fmt("pairs %zu x %zu: %zu", s.b.size(), o.b.size(), got.size())); std::string d = pair_diff(got, want); if (!d.empty()) violate("C18/pairs", fmt("%zu boxes against %zu: ", s.b.size(), o.b.size()) + d);
      if (!want.empty()) { c.nontrivial = true; c.st("searches_hit"); } else c.st("searches_empty");
    }
    else if (op.n == "collide") {
      Slot &o = sl[op.i("o")]; Pairs p = brute(s.b, o.b); int sw = int(op.i("swap", -1)); u64 seed = op.u("seed"), one = op.u("one"); // true for one pair in `one`, asymmetric
      auto pick = [&](long a, long b) { return one != 0 && mix2(seed, mix2(u64(a) * 2 + 1, u64(b))) % one == 0; };
      bool want = false; for (auto &x : p) want = want || pick(x.first, x.second);
      std::string bad; std::set<std::pair<long, long>> seen; bool got = s.t.collide(o.t, [&](long a, long b) { if (sw == 1) std::swap(a, b); if (!std::binary_search(p.begin(), p.end(), std::make_pair(a, b)) && bad.empty()) bad = fmt("asks about (%ld, %ld), which do not overlap", a, b); seen.insert({a, b}); return pick(a, b); }, sw);
      ++c.oracle_checks; c.ev(fmt("collide %d %zu", got, seen.size())); c.st(want ? "collide_yes" : "collide_no"); if (!bad.empty()) violate("C18/collide", "the collision test " + bad); if (got != want) violate("C18/collide", fmt("the collision test says %d, expected %d (%zu overlapping pairs, %zu asked)", got, want, p.size(), seen.size()));
      if (!p.empty()) c.nontrivial = true;
    }
  }
}

static Box box_at(Op const &op) { V3 c(op.d("x"), op.d("y"), op.d("z")); double s = op.d("r", 0.3); Box b; b.lo = c - V3(s, s, s); b.hi = c + V3(s, s, s); return b; }
// ================================================================ C19
struct Geo { V3 v[3]; V3 &operator[](int i) { return v[i]; } };
struct Member { long tag; lib::Kind k; std::shared_ptr<Geo> g; int np; double r; bool degenerated; V3 &at(int i) const { return (*g)[i]; } }; // copies of a collection share their entities
static bool clampable(lib::Kind k) { return k == lib::POINT || k == lib::SEGMENT || k == lib::TRIANGLE || k == lib::DISK || k == lib::BALL; }
static bool is_a(Member const &m, int q) { return q == lib::DEGENERATED ? m.degenerated : q == lib::CLAMPABLE ? clampable(m.k) : q == lib::NONCLAMPABLE ? !clampable(m.k) && m.k != lib::NONE : int(m.k) == q; }
static Box model_box(Member const &m) {
  Box b; b.lo = b.hi = m.at(0); for (int i = 1; i < m.np; ++i) { b.lo = V3(std::min(b.lo.x, m.at(i).x), std::min(b.lo.y, m.at(i).y), std::min(b.lo.z, m.at(i).z)); b.hi = V3(std::max(b.hi.x, m.at(i).x), std::max(b.hi.y, m.at(i).y), std::max(b.hi.z, m.at(i).z)); }
  b.lo = b.lo - V3(m.r, m.r, m.r); b.hi = b.hi + V3(m.r, m.r, m.r); return b;
}
static Member make_member(u64 seed, long kind, long tag, V3 &a, V3 &b, V3 &cc) {
  Rng q(seed); Member m; m.tag = tag; m.g = std::make_shared<Geo>(); m.k = lib::Kind(kind); m.r = 0; m.degenerated = m.k == lib::NONE; m.np = 1; bool deg = q.chance(0.3);
  a = V3(q.uni(-1, 1), q.uni(-1, 1), q.uni(-1, 1)); b = a + V3(q.uni(0.1, 0.6), q.uni(-0.5, 0.5), q.uni(-0.5, 0.5)); cc = a + V3(q.uni(-0.5, 0.5), q.uni(0.1, 0.7), q.uni(-0.5, 0.5)); m.at(0) = a;
  switch (m.k) {
  case lib::LINE: case lib::RAY: case lib::PLANE: b = unit(V3(q.uni(0.2, 1), q.uni(-1, 1), q.uni(-1, 1))); break;
  case lib::SEGMENT: if (deg) { b = a; m.degenerated = true; } m.at(1) = b; m.np = 2; break;
  case lib::TRIANGLE: if (deg) { m.degenerated = true; long w = q.range(0, 2); if (w == 0) b = a; else if (w == 1) cc = b; else cc = a; } m.at(1) = b; m.at(2) = cc; m.np = 3; break;
  case lib::DISK: b = unit(V3(q.uni(0.2, 1), q.uni(-1, 1), q.uni(-1, 1))); cc.x = deg ? 0 : q.uni(0.05, 0.5); m.r = cc.x; m.degenerated = deg; break;
  case lib::BALL: cc.x = deg ? 0 : q.uni(0.05, 0.5); m.r = cc.x; m.degenerated = deg; break;
  default: break;
  }
  return m;
}
static Trace gen19(Rng &r, bool th) {
  Trace t; int n = int(r.range(4, th ? 60 : 30)); bool clamps = r.chance(0.5); static long const ck[] = {lib::POINT, lib::SEGMENT, lib::TRIANGLE, lib::DISK, lib::BALL}; long few = r.chance(0.3) ? r.range(0, 8) : -1;
  auto kind = [&] { return few >= 0 && r.chance(0.7) ? few : clamps ? ck[r.below(5)] : r.range(0, 8); };
  bool bulk = r.chance(0.05); if (bulk) n = int(r.range(3, 12)); // now and then a collection of hundreds
  for (int i = 0; i < n; ++i) {
    double u = r.uni(); Op o; long s = r.chance(0.75) ? 0 : 1;
    if (bulk && (i == 0 || r.chance(0.1))) { o.n = "grow"; o.set("k", r.range(20, 400)).set("kind", r.chance(0.7) ? ck[r.below(5)] : r.range(0, 8)).set("seed", r.next() >> 2); if (r.chance(0.5)) o.set("mixed", 1L); }
    else if (u < 0.45 || i < 3) { o.n = "push"; o.set("kind", kind()).set("seed", r.next() >> 2); if (r.chance(0.12)) o.set("fail", r.range(1, 3)); }
    else if (u < 0.57) { o.n = "remove"; o.set("q", r.chance(0.7) ? kind() : r.range(0, lib::NQUERIES - 1)); if (r.chance(0.1)) o.set("fail", 1L); }
    else if (u < 0.6) { o.n = "shrink"; o.set("k", r.range(0, 3)); }
    else if (u < 0.65) { o.n = "grow"; o.set("k", r.range(1, 3)).set("kind", kind()).set("seed", r.next() >> 2); if (r.chance(0.15)) o.set("fail", 1L); }
    else if (u < 0.67) o.n = "clear";
    else if (u < 0.72) { o.n = "translate"; o.set("x", r.uni(-1, 1)).set("y", r.uni(-1, 1)).set("z", r.uni(-1, 1)); if (r.chance(0.15)) o.set("own", r.below(12)); }
    else if (u < 0.75) { o.n = "rotate"; o.set("a", r.uni(-3, 3)).set("ax", r.uni(-1, 1)).set("ay", r.uni(-1, 1)).set("az", r.uni(0.1, 1)); }
    else if (u < 0.78) { o.n = "transform"; put_pose(o, V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)), r.uni(-3, 3), r.uni(-1, 1), r.uni(-3, 3)); }
    else if (u < 0.93) { o.n = "search"; double k = r.uni(); o.set("x", r.uni(-1, 1)).set("y", r.uni(-1, 1)).set("z", r.uni(-1, 1)).set("r", k < 0.2 ? r.uni(2, 8) : r.uni(0, 0.8)); if (r.chance(0.3)) o.set("fail", r.range(1, r.chance(0.5) ? 8 : 40)); if (r.chance(0.4)) o.set("again", 1L); }
    else if (u < 0.97) { o.n = "cross"; if (r.chance(0.15)) o.set("self", 1L); if (r.chance(0.2)) o.set("fail", r.range(1, 30)); }
    else o.n = "copy";
    o.set("s", s); t.push_back(o);
  }
  return t;
}
struct CollSlot { lib::Coll c; std::vector<Member> m; bool fresh = false; }; // fresh: the tree belongs to the members as they are
static void check_coll(Ctx &c, CollSlot const &s, char const *after) {
  std::vector<Member> const &m = s.m; size_t n = m.size(); c.oracle_checks += 3;
  if (s.c.size() != n) violate("C19/size", fmt("after %s the collection has %zu members, expected %zu", after, s.c.size(), n));
  std::vector<long> tg = s.c.tags(); for (size_t i = 0; i < n; ++i) if (tg[i] != m[i].tag) violate("C19/members", fmt("after %s member %zu is %s, expected number %ld", after, i, tg[i] == -1 ? "null" : tg[i] == -2 ? "unknown" : fmt("number %ld", tg[i]).c_str(), m[i].tag));
  std::map<std::string, long> cn = s.c.counts();
  for (int q = 0; q < lib::NQUERIES; ++q) {
    long k = 0; for (auto &x : m) k += is_a(x, q); char const *nm = lib::kind_name[q];
    if (s.c.count(q) != k) violate("C19/count", fmt("after %s it counts %ld %s members out of %zu, expected %ld", after, s.c.count(q), nm, n, k));
    if (cn[nm] != k) violate("C19/counts", fmt("after %s the table of counts says %ld %s, expected %ld", after, cn[nm], nm, k));
    if (s.c.contain(q) != (k > 0)) violate("C19/contain", fmt("after %s it says it contains %s%s with %ld among %zu members", after, s.c.contain(q) ? "a " : "no ", nm, k, n));
    if (n && s.c.are(q) != (k == long(n))) violate("C19/are", fmt("after %s it says its members are %s%s with %ld among %zu", after, s.c.are(q) ? "all " : "not all ", nm, k, n));
    for (size_t i = 0; i < n; ++i) if (s.c.is(q, i) != is_a(m[i], q)) violate("C19/is", fmt("after %s member %zu (a %s) says %d to %s", after, i, lib::kind_name[m[i].k], s.c.is(q, i), nm));
  }
  for (size_t i = 0; i < n; ++i) { if (m[i].k == lib::NONE) continue; V3 a = s.c.anchor(i); if (!(norm(a - m[i].at(0)) <= 1e-9 * (1 + norm(m[i].at(0))))) violate("C19/place", fmt("after %s member %zu (a %s) is not where it should be", after, i, lib::kind_name[m[i].k]));
    if (clampable(m[i].k)) { Box g = s.c.box_of(i), w = model_box(m[i]); if (!(norm(g.lo - w.lo) <= 1e-9 * (1 + norm(w.lo))) || !(norm(g.hi - w.hi) <= 1e-9 * (1 + norm(w.hi)))) violate("C19/box", fmt("after %s the box of member %zu (a %s) is not that of its geometry", after, i, lib::kind_name[m[i].k])); } }
}
static void exec19(Trace const &t, Ctx &c) {
  std::map<long, CollSlot> sl; long tag = 0; bool built_ok = false; (void)built_ok;
  auto move_all = [&](CollSlot &s, std::function<V3(V3)> const &f) { for (auto &m : s.m) for (int i = 0; i < m.np; ++i) m.at(i) = f(m.at(i)); };
  for (auto &op : t) {
    CollSlot &s = sl[op.i("s")]; long fail = op.i("fail", 0); Res r; std::string after = op.n; V3 a, b, cc;
    if (op.n == "push") { Member m = make_member(op.u("seed"), op.i("kind"), tag++, a, b, cc); r = lib::guarded(fail, 1, [&] { s.c.push(m.k, a, b, cc, m.tag); }); if (r.ok) s.m.push_back(m); after = std::string("adding a ") + lib::kind_name[m.k]; }
    else if (op.n == "remove") { int q = int(op.i("q")); size_t n0 = s.m.size(); r = lib::guarded(fail, 1, [&] { s.c.remove(q); }); if (r.ok) { s.m.erase(std::remove_if(s.m.begin(), s.m.end(), [&](Member const &m) { return is_a(m, q); }), s.m.end()); if (s.m.size() < n0) c.nontrivial = true; c.st("removed", n0 - s.m.size()); } after = std::string("removing all ") + lib::kind_name[q]; }
    else if (op.n == "shrink") { size_t k = std::min(s.m.size(), size_t(op.i("k"))); r = lib::guarded(fail, 1, [&] { s.c.resize(s.m.size() - k); }); if (r.ok) s.m.resize(s.m.size() - k); }
    else if (op.n == "grow") { size_t k = size_t(op.i("k")), n0 = s.m.size(); r = lib::guarded(fail, 1, [&] { s.c.resize(n0 + k); });
      if (r.ok) for (size_t i = 0; i < k; ++i) { Member m = make_member(op.u("seed") + i * (k > 3 ? 0x9e37 : 1), op.i("mixed") ? long(lib::POINT) + long((op.u("seed") >> (i % 32)) % 2) * (op.i("kind") - long(lib::POINT)) : op.i("kind"), tag++, a, b, cc); s.c.put(n0 + i, m.k, a, b, cc, m.tag); s.m.push_back(m); } }
    else if (op.n == "clear") { s.c.clear(); s.m.clear(); r.ok = true; }
    else if (op.n == "translate") { V3 v(op.d("x"), op.d("y"), op.d("z")); size_t own = size_t(op.i("own")); if (op.has("own") && own < s.m.size() && (s.m[own].k == lib::POINT || s.m[own].k == lib::SEGMENT || s.m[own].k == lib::TRIANGLE) && norm(s.m[own].at(0)) < 20) { v = s.c.anchor(own); s.c.carry(own); after = "a move by one of its own points"; c.st("carried"); } else s.c.translate(v); move_all(s, [&](V3 p) { return p + v; }); r.ok = true; }
    else if (op.n == "rotate") { V3 ax = unit(V3(op.d("ax"), op.d("ay"), op.d("az"))); double an = op.d("a"); s.c.rotate(an, ax); move_all(s, [&](V3 p) { return std::cos(an) * p + std::sin(an) * cross(ax, p) + (dot(ax, p) * (1 - std::cos(an))) * ax; }); r.ok = true; }
    else if (op.n == "transform") { Pose ps = pose_of(op); s.c.transform(ps); move_all(s, [&](V3 p) { return ps.o + p.x * ps.ex + p.y * ps.ey + p.z * ps.ez; }); r.ok = true; }
    else if (op.n == "copy") { CollSlot &o = sl[1 - (op.i("s") & 1)]; r = lib::guarded(fail, 1, [&] { lib::Coll k = s.c.copy(); o.c = k; }); if (r.ok) { o.m = s.m; o.fresh = false; c.st("copies"); check_coll(c, o, "being copied"); } }
    else if (op.n == "search") {
      bool ok = true; for (auto &m : s.m) ok = ok && clampable(m.k);
      bool again = op.i("again") && s.fresh; r.ok = true; if (!again) { s.fresh = false; r = lib::guarded(fail, 1, [&] { s.c.build(); }); if (r.ok) s.fresh = true; } else c.st("searches_again");
      if (r.failed) c.st("fault_alloc", u64(r.failed));
      if (!ok) { if (r.ok) violate("C19/search", "a tree is built although a member has no box"); c.st("searches_refused"); r.ok = true; }
      else {
        if (!r.ok && !r.failed) violate("C19/search", "building the tree failed: " + r.what);
        if (!r.ok) { check_coll(c, s, "a failed tree build"); s.c.build(); s.fresh = true; }
        Box q = box_at(op); std::vector<long> got, want; bool v = false; r = lib::guarded(fail, 1, [&] { v = s.c.query(q, got); }); if (!r.ok) { if (!r.failed) violate("C19/search", "the search failed: " + r.what); v = s.c.query(q, got); }
        for (size_t i = 0; i < s.m.size(); ++i) if (meet(s.c.box_of(i), q)) want.push_back(s.m[i].tag);
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); ++c.oracle_checks; if (got != want) violate("C19/search", fmt("a box search finds %zu of %zu members, expected %zu", got.size(), s.m.size(), want.size())); if (v != !want.empty()) violate("C19/search", fmt("a box search that finds %zu members says %d", got.size(), v));
        if (!want.empty()) { c.st("searches_hit"); c.nontrivial = true; } else c.st("searches_empty"); r = Res(); r.ok = true;
      }
    }
    else if (op.n == "cross") {
      CollSlot &o = sl[op.i("self") ? op.i("s") : 1 - (op.i("s") & 1)]; bool ok = true; for (auto &m : s.m) ok = ok && clampable(m.k); for (auto &m : o.m) ok = ok && clampable(m.k); if (!ok) continue;
      s.c.build(); o.c.build(); s.fresh = o.fresh = true; std::vector<long> got; bool v = false; r = lib::guarded(fail, 1, [&] { v = s.c.query(o.c, got); }); if (r.failed) c.st("fault_alloc", u64(r.failed)); if (!r.ok) { if (!r.failed) violate("C19/cross", "the search failed: " + r.what); v = s.c.query(o.c, got); r.ok = true; }
      Pairs p, want; for (size_t i = 0; i + 1 < got.size(); i += 2) p.emplace_back(got[i], got[i + 1]); for (size_t i = 0; i < s.m.size(); ++i) for (size_t j = 0; j < o.m.size(); ++j) if (meet(s.c.box_of(i), o.c.box_of(j))) want.emplace_back(s.m[i].tag, o.m[j].tag);
      std::sort(p.begin(), p.end()); std::sort(want.begin(), want.end()); ++c.oracle_checks; if (p != want || got.size() % 2) violate("C19/cross", fmt("searching one collection with another finds %zu pairs, expected %zu", p.size(), want.size())); if (v != !want.empty()) violate("C19/cross", fmt("a search that finds %zu pairs says %d", p.size(), v)); c.st("cross", want.size());
    }
    else continue;
    if (op.n != "search" && op.n != "cross" && op.n != "copy") s.fresh = false; if (op.n == "translate" || op.n == "rotate" || op.n == "transform") for (auto &x : sl) x.second.fresh = false;
    if (r.failed) c.st("fault_alloc", u64(r.failed)); if (!r.ok && !r.failed) violate("C19/" + op.n, after + " failed: " + r.what); if (!r.ok) { after += " that ran out of memory"; c.st("ops_failed_oom"); }
    c.ev(after + fmt(": %zu", s.m.size())); check_coll(c, s, after.c_str());
  }
}
void add_misc(std::vector<Property> &v) {
  v.push_back(Property{"C18", "2-3 box trees built, rebuilt, cleared, searched and tested for collision 3-30 times over clouds, rows, nests, lattices, sheets and points of 0-700 boxes, with allocation failures in builds and searches; each answer is compared with all pairs; non-trivial if boxes overlapped or a build failed", gen18, exec18});
  v.push_back(Property{"C19", "two collections through 4-60 additions (now and then hundreds of members), removals by kind, resizes, clears, moves, copies and searches over 9 kinds of entities, with allocation failures; after each, members, counts, questions, places and boxes are compared with a list; non-trivial if members were removed or found", gen19, exec19});
}
} // namespace sim
